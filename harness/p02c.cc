// P02: typed wrappers over all representations; other reference counters
#include "p02.h"
template <class H, class B, class P>
static void wrappers(Rng& r) {
  Gen g(r, p02_opts(r));
  V v = p02_value(g);
  auto probes = p02_probes(v, g, 20);
  P p = build<P>(v, r);
  typename P::object o(p);
  p02_wobject(o, v, probes);
  typename P::object::view ov = o;
  p02_wobject(ov, v, probes);
  o.finalize();
  p02_wobject(o, v, probes);
  H h = plain<H>(v);
  typename H::object ho(h);
  p02_wobject(ho, v, probes);
  typename B::object bo(h.lower());
  p02_wobject(bo, v, probes);
  for (auto& e : v.o) if (e.second.k == ARR) {
    typename P::array pa(p[S(e.first)]); p02_warray(pa, e.second, r);
    typename P::array fa(o[S(e.first)]); p02_warray(fa, e.second, r);
    typename H::array ha(h[S(e.first)]); p02_warray(ha, e.second, r);
    typename B::array ba(bo[S(e.first)]); p02_warray(ba, e.second, r);
  }
  // keyed defaults
  for (auto& k : probes) {
    auto f = v.o.find(k);
    V want = f == v.o.end() ? V::integer(-5) : f->second;
    VT_SAME(want, read(o.get_or(S(k), -5)), "wrapper:get_or");
    VT_SAME(want, read(ho.get_or(S(k), -5)), "wrapper:get_or-heap");
  }
}
static void wl_shared(Rng& r) { wrappers<dart::heap, dart::buffer, dart::packet>(r); count("wrappers"); }
int main(int c, char** v) { return vt::main(c, v, {{"wrappers", wl_shared}}); }
