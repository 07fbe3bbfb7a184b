#include "p14.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
// Keep iterating while other handles to the same storage change or go away.
template <class X, class F>
static void disturbed(X const& x, V const& v, Rng& r, char const* rep, F&& disturb) {
  auto m = members(v);
  std::vector<V> got; size_t cut = r.below(m.size() + 1);
  auto it = x.begin(), end = x.end();
  for (; it != end; ++it) {
    if (got.size() == cut) disturb();
    if (got.size() > m.size()) fail("overrun:disturbed", rep);
    got.push_back(read(*it));
  }
  match(m, got, rep, "disturbed");
  count("disturbed");
}
// Iterators over finalized data keep what they iterate alive.
template <class X>
static void orphaned(X x, V const& v, Rng& r, char const* rep) {
  auto m = members(v);
  auto it = std::make_shared<typename X::iterator>(x.begin()); auto end = std::make_shared<typename X::iterator>(x.end());
  size_t cut = r.below(m.size() + 1); std::vector<V> got;
  for (; *it != *end; ++*it) {
    if (got.size() == cut) { x = X::make_null(); count("orphaned"); }
    got.push_back(read(**it));
  }
  match(m, got, rep, "orphaned");
  if (v.k == OBJ && !m.empty()) {
    // the value just read outlives the iterator too
    --*it; auto last = **it; it.reset(); end.reset();
    VT_SAME(m.back(), read(last), "orphaned-member");
  }
}
static void wl_heap(Rng& r) {
  V v = p14_value(r);
  H h = build<H>(v, r);
  both(h, v, r, "heap");
  typename H::view hv = h; both(hv, v, r, "heap-view");
  H c = h;
  disturbed(h, v, r, "heap", [&] { if (v.k == OBJ) { c.insert("extra", 1); if (!v.o.empty()) c.erase(S(v.o.begin()->first)); } else { c.push_back(1); c.pop_front(); } count("disturbed"); c = H::make_null(); });
  VT_SAME(v, read(h), "after");
  if (v.k == OBJ) { H l(h.lower().lift()); both(l, v, r, "lifted"); }
  if (want_sample()) sample(show(v, 120));
}
static void wl_buffer(Rng& r) {
  V v = p14_value(r);
  H h = build<H>(v, r);
  B b = v.k == OBJ && r.chance(1, 2) ? h.lower() : H::make_object("k", h, "l", r.chance(1, 2) ? "x" : "longer").lower()["k"];
  both(b, v, r, "buffer");
  typename B::view bv = b; both(bv, v, r, "buffer-view");
  B c = b; disturbed(b, v, r, "buffer", [&] { c = B::make_null(); });
  orphaned(b, v, r, "buffer"); orphaned(std::move(b), v, r, "buffer");
  if (want_sample()) sample(show(v, 120));
}
static void wl_packet(Rng& r) {
  V v = p14_value(r);
  P p = build<P>(v, r);
  both(p, v, r, "packet");
  typename P::view pv = p; both(pv, v, r, "packet-view");
  P c = p;
  disturbed(p, v, r, "packet", [&] { if (v.k == OBJ) { c.insert("extra", 1); c.finalize(); } else { c.push_back(1); c.resize(0); } });
  VT_SAME(v, read(p), "after");
  P f = v.k == OBJ && r.chance(1, 2) ? P(p).finalize() : P::make_object("k", p).finalize()["k"];
  both(f, v, r, "finalized");
  typename P::view fv = f; both(fv, v, r, "finalized-view");
  orphaned(f, v, r, "finalized"); orphaned(std::move(f), v, r, "finalized");
  if (want_sample()) sample(show(v, 120));
}
int main(int c, char** v) {
#if PART == 0
  return vt::main(c, v, {{"heap", wl_heap}});
#elif PART == 1
  return vt::main(c, v, {{"buffer", wl_buffer}});
#else
  return vt::main(c, v, {{"packet", wl_packet}});
#endif
}
