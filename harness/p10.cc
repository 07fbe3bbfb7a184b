#include "p10.h"
using namespace vt;
static V gen(Rng& r, bool utf8 = true) {
  GenOpt o; o.utf8 = utf8; o.nonfinite = r.chance(1, 4); o.big = r.chance(1, 6); o.depth = 1 + static_cast<unsigned>(r.below(4)); o.width = 1 + static_cast<unsigned>(r.below(7));
  Gen g(r, o);
  return r.chance(1, 60) ? g.chain(static_cast<unsigned>(r.below(500))) : r.chance(1, 3) ? g.any() : g.aggregate();
}
#ifndef UNSAFE
static void wl_trees(Rng& r) {
  V v = gen(r);
  all_prints<dart::heap, dart::buffer, dart::packet>(v, r);
  seen(hash(v)); count("trees");
  if (want_sample() && finite(v)) sample(show(v, 150) + " printed as " + plain<dart::heap>(v).to_json().substr(0, 200));
}
// Bytes that are no UTF-8 keep the structure of the text
static void wl_bytes(Rng& r) {
  V v = gen(r, false);
  all_prints<dart::heap, dart::buffer, dart::packet>(v, r);
  seen(hash(v)); count("raw-bytes");
}
// Every escape, every number shape
static void wl_scalars(Rng& r) {
  V v = V::arr();
  GenOpt o; o.utf8 = true;
  Gen g(r, o);
  for (size_t n = 1 + r.below(6); n > 0; --n) {
    switch (r.below(4)) {
      case 0: v.a.push_back(V::decimal(g.decimal())); break;
      case 1: v.a.push_back(V::integer(g.integer())); break;
      case 2: { double d = std::ldexp(static_cast<double>(r.range(-1000000007, 1000000007)), static_cast<int>(r.range(-1070, 990))); if (std::isfinite(d)) v.a.push_back(V::decimal(d)); break; }
      default: { std::string s; for (size_t k = r.below(10); k > 0; --k) g.put_cp(s, static_cast<uint32_t>(r.chance(1, 2) ? r.below(0x90) : r.chance(1, 2) ? r.below(0xD800) : 0xE000 + r.below(0x102000))); v.a.push_back(V::str(s)); break; }
    }
  }
  all_prints<dart::heap, dart::buffer, dart::packet>(v, r);
  seen(hash(v)); count("scalars");
}
#else
static void wl_unsafe(Rng& r) {
  V v = gen(r);
  all_prints<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>(v, r);
  seen(hash(v)); count("unsafe");
}
static void wl_wrappers(Rng& r) {
  V v = gen(r);
  bool fin = finite(v);
  std::string t, tn;
  dart::heap h = build<dart::heap>(v, r); dart::packet p = build<dart::packet>(v, r);
  both(h, v, fin, t, tn, "heap");
  dart::buffer b = dart::heap::make_object("k", h).lower()["k"];
  dart::packet f = dart::packet::make_object("k", p).finalize()["k"];
  wrappers(v, h, t, tn, "wrapper:heap");
  wrappers(v, p, t, tn, "wrapper:packet");
  wrappers(v, b, t, tn, "wrapper:buffer");
  wrappers(v, f, t, tn, "wrapper:finalized");
  seen(hash(v));
}
#endif
#ifndef UNSAFE
int main(int c, char** v) { return vt::main(c, v, {{"trees", wl_trees}, {"bytes", wl_bytes}, {"scalars", wl_scalars}}); }
#else
int main(int c, char** v) { return vt::main(c, v, {{"unsafe", wl_unsafe}, {"wrappers", wl_wrappers}}); }
#endif
