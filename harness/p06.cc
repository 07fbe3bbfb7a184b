// P06: mutations follow the reference model.
#include "hist.h"

template <class P>
static void history(Rng& r) {
  GenOpt o; o.depth = 2; o.width = 4; o.big = r.chance(1, 10);
  Gen g(r, o);
  Hist h(r, g);
  V v = r.chance(1, 2) ? g.object(2) : g.array(2);
  P p = build<P>(v, r);
  if (want_sample()) sample("start " + show(v, 300));
  size_t n = 5 + r.below(40);
  std::vector<std::pair<P, V>> keep;
  for (size_t s = 0; s < n; ++s) {
    if (r.chance(1, 5)) keep.emplace_back(p, v);      // makes the next mutation copy
    if (keep.size() > 3) keep.erase(keep.begin());
    V before = v;
    step(p, v, h);
    consistent(p, v);
    seen(hash(v) ^ hash(before) * 5);
    if (r.chance(1, 8) && v.k == OBJ) { auto c = p; VT_CHECK(c == p, "equal-to-copy", ""); }
  }
  for (auto& k : keep) VT_SAME(k.second, read(k.first), "kept-copy");
}
static void wl_heap(Rng& r) { history<dart::heap>(r); count("heap"); }
static void wl_packet(Rng& r) { history<dart::packet>(r); count("packet"); }
static void wl_unsafe(Rng& r) { history<dart::unsafe_packet>(r); count("unsafe"); }
int main(int c, char** v) { return vt::main(c, v, {{"heap", wl_heap}, {"packet", wl_packet}, {"unsafe", wl_unsafe}}); }
