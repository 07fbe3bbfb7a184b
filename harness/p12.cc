#include "p12.h"
using namespace vt;
using Safe = Reps<dart::heap, dart::buffer, dart::packet>;
using Unsafe = Reps<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>;
#ifndef OTHER
#define OTHER Safe
#endif
static void wl_pairs(Rng& r) {
  Gen g(r, p12opts(r));
  V a = fixzero(r.chance(1, 3) ? g.any() : g.aggregate());
  V b = relative(a, r, g);
  Safe x(a, r); OTHER y(b, r);
  cross(x, y, a, b);
  seen(hash(a) * 3 + hash(b)); count("pairs");
  if (want_sample()) sample(show(a, 120) + " against " + show(b, 120));
}
// Copies that share storage, and copies changed after sharing it
template <class R>
static void wl_shared_impl(Rng& r) {
  Gen g(r, p12opts(r));
  V a = fixzero(g.aggregate());
  R x(a, r);
  R y = x;
  cross(x, y, a, a);
  V b = a;
  for (size_t n = 1 + r.below(2); n > 0; --n) {
    V e = fixzero(g.small_scalar());
    if (b.k == OBJ) {
      std::string k = !b.o.empty() && r.chance(2, 3) ? std::next(b.o.begin(), static_cast<long>(r.below(b.o.size())))->first : g.text(1 + r.below(3));
      if (b.o.count(k) && r.chance(1, 2)) { b.o.erase(k); y.h.erase(S(k)); y.p.erase(S(k)); }
      else { b.o[k] = e; y.h.insert(S(k), build<decltype(y.h)>(e, r)); y.p.insert(S(k), build<decltype(y.p)>(e, r)); }
    } else {
      if (!b.a.empty() && r.chance(1, 2)) { b.a.pop_back(); y.h.pop_back(); y.p.pop_back(); }
      else { b.a.push_back(e); y.h.push_back(build<decltype(y.h)>(e, r)); y.p.push_back(build<decltype(y.p)>(e, r)); }
    }
  }
  y.b = decltype(x.h)::make_object("z", y.h).lower()["z"]; y.f = decltype(x.p)::make_object("z", y.p).finalize()["z"];
  y.hv = y.h; y.bv = y.b; y.pv = y.p; y.fv = y.f;
  cross(x, y, a, b); cross(y, y, b, b); cross(x, x, a, a);
  seen(hash(a) * 5 + hash(b)); count("shared");
}
static void wl_shared(Rng& r) { wl_shared_impl<OTHER>(r); }
int main(int c, char** v) { return vt::main(c, v, {{"pairs", wl_pairs}, {"shared", wl_shared}}); }
