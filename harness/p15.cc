#include "p15.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
static void wl_heap(Rng& r) {
  Gen g(r, p15_opts(r)); V v = p15_base(r, g);
  one<false, H, B, P>(build<H>(v, r), v, r, g, "heap");
}
static void wl_buffer(Rng& r) {
  Gen g(r, p15_opts(r)); V v = p15_base(r, g);
  H h = build<H>(v, r);
  if (r.chance(1, 2)) one<true, H, B, P>(h.lower(), v, r, g, "buffer");
  else { // an object inside a bigger packet, freed first
    B inner = H::make_object("pad", "xyz", "inner", h, "tail", H::make_array(1, 2.5)).lower()["inner"];
    count("embedded");
    // its bytes are those of the member
    one<true, H, B, P>(std::move(inner), v, r, g, "buffer");
  }
}
static void wl_packet(Rng& r) {
  Gen g(r, p15_opts(r)); V v = p15_base(r, g);
  P p = build<P>(v, r);
  if (r.chance(1, 2)) one<false, H, B, P>(p, v, r, g, "packet");
  else {
    p.finalize();
    one<true, H, B, P>(p, v, r, g, "finalized");
    // the form is kept
    P i = p.inject("some", 1), j = p.project({"some"});
    VT_CHECK(i.is_finalized() && j.is_finalized() && p.is_finalized(), "form", "");
  }
}
static void wl_wrapper(Rng& r) {
  Gen g(r, p15_opts(r)); V v = p15_base(r, g);
  Pairs ps = pairs_for(v, r, g); while (ps.size() > 2) ps.pop_back(); if (duplicated(ps)) ps.pop_back();
  auto ks = keys_for(v, r, g);
  auto go = [&](auto o, char const* rep) {
    V want = overlay(v, ps);
    auto res = ps.empty() ? o.inject() : ps.size() == 1 ? o.inject(S(ps[0].first), build<H>(ps[0].second, r)) : o.inject(S(ps[0].first), build<H>(ps[0].second, r), S(ps[1].first), build<H>(ps[1].second, r));
    VT_SAME(want, read(res), std::string("w-inject:") + rep);
    VT_SAME(v, read(o), std::string("w-inject-base:") + rep);
    auto pr = o.project(ks);
    VT_SAME(restrict_to(v, ks), read(pr), std::string("w-project:") + rep);
    std::vector<sv> vs; for (auto& k : ks) vs.push_back(S(k));
    if (vs.size() >= 2) { std::vector<std::string> two(ks.begin(), ks.begin() + 2); VT_SAME(restrict_to(v, two), read(o.project({vs[0], vs[1]})), std::string("w-project-list:") + rep); }
    VT_SAME(v, read(o), std::string("w-project-base:") + rep);
  };
  go(H::object(build<H>(v, r)), "heap"); go(B::object(build<H>(v, r).lower()), "buffer"); go(P::object(build<P>(v, r)), "packet"); go(P::object(build<P>(v, r).finalize()), "finalized");
  seen(hash(v) + 9); count("wrapper");
}
// Anything that is not an object, or keys that are not strings, or keys that do not fit: refused, nothing changes.
static void wl_refused(Rng& r) {
  Gen g(r, p15_opts(r)); V v = g.any();
  P p = build<P>(v, r);
  P f = P::make_object("k", p).finalize()["k"];
  H h = build<H>(v, r); B b(H::make_object("k", h).lower()["k"]);
  std::vector<std::string> ks {"a"};
  if (v.k != OBJ) {
    VT_CHECK(throws<dart::type_error>([&] { p.inject("a", 1); }, "inject"), "refused:packet", show(v, 100)); VT_CHECK(throws<dart::type_error>([&] { f.inject("a", 1); }, "inject"), "refused:finalized", show(v, 100));
    VT_CHECK(throws<dart::type_error>([&] { h.inject("a", 1); }, "inject"), "refused:heap", show(v, 100)); VT_CHECK(throws<dart::type_error>([&] { b.inject("a", 1); }, "inject"), "refused:buffer", show(v, 100));
    VT_CHECK(throws<dart::type_error>([&] { p.project(ks); }, "project"), "refused:project-packet", show(v, 100)); VT_CHECK(throws<dart::type_error>([&] { f.project(ks); }, "project"), "refused:project-finalized", show(v, 100));
    VT_CHECK(throws<dart::type_error>([&] { h.project(ks); }, "project"), "refused:project-heap", show(v, 100)); VT_CHECK(throws<dart::type_error>([&] { b.project(ks); }, "project"), "refused:project-buffer", show(v, 100));
  } else {
    P bad = r.chance(1, 2) ? P(static_cast<int>(r.below(9))) : P::make_null();
    std::vector<P> s {P("zz"), P(1), bad, P(2)};
    VT_CHECK(throws<std::logic_error>([&] { p.inject(span_of(s)); }, "inject"), "refused:key-packet", show(v, 100)); VT_CHECK(throws<std::logic_error>([&] { f.inject(span_of(s)); }, "inject"), "refused:key-finalized", show(v, 100));
    std::string big(65536 + r.below(3), 'k'); int64_t one = 1;
    VT_CHECK(throws<std::exception>([&] { p.inject(S(big), one); }, "inject"), "refused:long-packet", ""); VT_CHECK(throws<std::exception>([&] { f.inject(S(big), one); }, "inject"), "refused:long-finalized", "");
  }
  VT_SAME(v, read(p), "refused-changed"); VT_SAME(v, read(f), "refused-changed"); VT_SAME(v, read(h), "refused-changed"); VT_SAME(v, read(b), "refused-changed");
  count("refused");
}
int main(int c, char** v) { return vt::main(c, v, {
#if PART == 0
  {"heap", wl_heap}, {"buffer", wl_buffer}, {"packet", wl_packet}
#else
  {"wrapper", wl_wrapper}, {"refused", wl_refused}
#endif
  }); }
