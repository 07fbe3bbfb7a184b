// P06: mutations through the typed wrappers.
#include "hist.h"
template <class O>
static void wobject(O& o, V& v, Hist& h) {
  using P = typename O::value_type;
  Rng& r = h.r; std::string k = h.key(v);
  switch (r.below(10)) {
    case 0: case 1: { V x = h.g.value(1); with_value<P>(x, h, [&](auto&& y) { o.add_field(S(k), std::forward<decltype(y)>(y)); }); v.o[k] = x; count("w-add_field"); break; }
    case 2: { V x = h.g.value(1); with_value<P>(x, h, [&](auto&& y) { auto it = o.insert(S(k), std::forward<decltype(y)>(y)); v.o[k] = x; at_object(o, v, it, v.o.find(k), "w-insert:iterator"); }); count("w-insert"); break; }
    case 3: { auto f = v.o.find(k); V x = h.g.value(1); if (f == v.o.end()) { must_throw<std::out_of_range>([&] { o.set(S(k), build<P>(x, r)); }, "w-set:missing"); break; } auto it = o.set(S(k), build<P>(x, r)); f->second = x; at_object(o, v, it, f, "w-set:iterator"); count("w-set"); break; }
    case 4: { auto f = v.o.find(k); auto nx = f == v.o.end() ? f : std::next(f); auto it = o.erase(S(k)); if (f != v.o.end()) v.o.erase(f); at_object(o, v, it, nx, "w-erase:iterator"); count("w-erase"); break; }
    case 5: o.remove_field(S(k)); v.o.erase(k); break;
    case 6: if (r.chance(1, 5)) { o.clear(); v.o.clear(); count("w-clear"); } break;
    case 7: { V x = h.g.scalar(); o = std::move(o).add_field(S(k), build<P>(x, r)).remove_field("nope-nope"); v.o[k] = x; v.o.erase("nope-nope"); count("w-chained"); break; }
    case 8: { // the packet underneath is a value of its own
      P d = o.dynamic(); V dv = v; d.add_field("zz", 1); VT_SAME(dv, read(o), "w-dynamic:isolation"); break; }
    default: { typename P::object c = o; c.add_field("other", 1); VT_SAME(v, read(o), "w-copy:isolation"); break; }
  }
  VT_SAME(v, read(o), "w-value");
  VT_CHECK(o.size() == v.o.size() && o.empty() == v.o.empty(), "w-size", "");
}
template <class A>
static void warray(A& a, V& v, Hist& h) {
  using P = typename A::value_type;
  Rng& r = h.r; size_t n = v.a.size(), pos = r.below(n + 1); V x = h.g.value(1);
  switch (r.below(13)) {
    case 0: case 1: with_value<P>(x, h, [&](auto&& y) { a.push_back(std::forward<decltype(y)>(y)); }); v.a.push_back(x); count("w-push_back"); break;
    case 2: with_value<P>(x, h, [&](auto&& y) { a.push_front(std::forward<decltype(y)>(y)); }); v.a.insert(v.a.begin(), x); break;
    case 3: a.pop_back(); if (n) v.a.pop_back(); break;
    case 4: a.pop_front(); if (n) v.a.erase(v.a.begin()); break;
    case 5: { auto it = a.insert(pos, build<P>(x, r)); v.a.insert(v.a.begin() + static_cast<long>(pos), x); at_array(a, v, it, pos, "w-array-insert"); count("w-array-insert"); break; }
    case 6: if (pos < n) { auto it = a.set(pos, build<P>(x, r)); v.a[pos] = x; at_array(a, v, it, pos, "w-array-set"); count("w-array-set"); } else must_throw<std::out_of_range>([&] { a.set(pos, build<P>(x, r)); }, "w-array-set:past-end"); break;
    case 7: if (pos < n) { auto it = a.erase(pos); v.a.erase(v.a.begin() + static_cast<long>(pos)); at_array(a, v, it, pos, "w-array-erase"); count("w-array-erase"); } break;
    case 8: { size_t m = r.below(n + 5); a.resize(m, build<P>(x, r)); v.a.resize(m, x); count("w-resize"); break; }
    case 9: { size_t m = r.below(30); a.reserve(m); VT_CHECK(a.capacity() >= m, "w-reserve", ""); break; }
    case 10: if (r.chance(1, 5)) { a.clear(); v.a.clear(); } break;
    case 11: must_throw<std::out_of_range>([&] { a.insert(n + 1 + r.below(3), 1); }, "w-array-insert:past-end"); break;
    default: { A c = a; c.push_back(1); c.pop_front(); VT_SAME(v, read(a), "w-array-copy:isolation"); break; }
  }
  VT_SAME(v, read(a), "w-array-value");
  VT_CHECK(a.size() == v.a.size() && a.empty() == v.a.empty() && a.capacity() >= v.a.size(), "w-array-size", "");
}
template <class P>
static void run_w(Rng& r) {
  GenOpt o; o.depth = 2; o.width = 4; o.big = r.chance(1, 10);
  Gen g(r, o); Hist h(r, g);
  size_t n = 5 + r.below(30);
  if (r.chance(1, 2)) {
    V v = g.object(2); typename P::object w(build<P>(v, r));
    P shared = w; V sv_ = v;
    for (size_t s = 0; s < n; ++s) { wobject(w, v, h); seen(hash(v)); }
    VT_SAME(sv_, read(shared), "w-origin:isolation");
    count("w-objects");
  } else {
    V v = g.array(2); typename P::array w(build<P>(v, r));
    P shared = w; V sv_ = v;
    for (size_t s = 0; s < n; ++s) { warray(w, v, h); seen(hash(v)); }
    VT_SAME(sv_, read(shared), "w-origin:isolation");
    count("w-arrays");
  }
}
static void wl_heap(Rng& r) { run_w<dart::heap>(r); }
static void wl_packet(Rng& r) { run_w<dart::packet>(r); }
int main(int c, char** v) { return vt::main(c, v, {{"wheap", wl_heap}, {"wpacket", wl_packet}}); }
