// P12: equality.
#pragma once
#include "dt.h"
#include "hist.h"

namespace vt {
  // The same value in every representation of one family of types
  template <class H, class B, class P>
  struct Reps {
    H h; B b; P p, f; typename H::view hv; typename B::view bv; typename P::view pv, fv;
    Reps(V const& v, Rng& r) {
      h = build<H>(v, r); p = build<P>(v, r);
      b = H::make_object("k", h).lower()["k"];
      f = P::make_object("kk", p).finalize()["kk"];
      if (v.k == OBJ && r.chance(1, 3)) { b = h.lower(); f = p; f.finalize(); }
      if (r.chance(1, 6)) { h = H(b.lift()); p = f; p.lift(); }
      hv = h; bv = b; pv = p; fv = f;
    }
  };
  inline V fixzero(V v) {
    if (v.k == DEC && (v.d == 0 || std::isnan(v.d))) v.d = 0.0;
    for (auto& e : v.a) e = fixzero(e);
    for (auto& e : v.o) e.second = fixzero(e.second);
    return v;
  }
  template <class X, class Y>
  void eq(X const& x, Y const& y, bool want, V const& a, V const& b, char const* kx, char const* ky) {
    eval(4);
    bool e1 = x == y, n1 = x != y, e2 = y == x, n2 = y != x;
    if (e1 != want || n1 == want || e2 != want || n2 == want) {
      Quiet q;
      fail(std::string("eq:") + kx + "," + ky, std::string("wanted ") + (want ? "equal" : "unequal") + ": ==" + (e1 ? "1" : "0") + " !=" + (n1 ? "1" : "0") + " reversed ==" + (e2 ? "1" : "0") + " !=" + (n2 ? "1" : "0") + " for " + show(a, 250) + " and " + show(b, 250) + " differing at " + first_difference(a, b).substr(0, 300));
    }
  }
  template <class X, class R>
  void against(X const& x, R const& o, bool want, V const& a, V const& b, char const* kx) {
    eq(x, o.h, want, a, b, kx, "heap"); eq(x, o.b, want, a, b, kx, "buffer"); eq(x, o.p, want, a, b, kx, "packet"); eq(x, o.f, want, a, b, kx, "finalized");
    eq(x, o.hv, want, a, b, kx, "heap-view"); eq(x, o.bv, want, a, b, kx, "buffer-view"); eq(x, o.pv, want, a, b, kx, "packet-view"); eq(x, o.fv, want, a, b, kx, "finalized-view");
  }
  template <class R, class Q>
  void cross(R const& x, Q const& y, V const& a, V const& b) {
    bool want = same(a, b);
    against(x.h, y, want, a, b, "heap"); against(x.b, y, want, a, b, "buffer"); against(x.p, y, want, a, b, "packet"); against(x.f, y, want, a, b, "finalized");
    against(x.hv, y, want, a, b, "heap-view"); against(x.bv, y, want, a, b, "buffer-view"); against(x.pv, y, want, a, b, "packet-view"); against(x.fv, y, want, a, b, "finalized-view");
    count(want ? "equal" : "unequal");
  }
  inline GenOpt p12opts(Rng& r) { GenOpt o; o.negzero = false; o.big = r.chance(1, 5); o.depth = 1 + static_cast<unsigned>(r.below(3)); o.width = 1 + static_cast<unsigned>(r.below(5)); return o; }
  // A value and another related to it in some awkward way
  inline V relative(V const& v, Rng& r, Gen& g) {
    switch (r.below(8)) {
      case 0: case 1: case 2: return v;
      case 3: case 4: case 5: return fixzero(g.mutate(v));
      case 6: { // same shape, other type of scalar
        V w = v;
        std::function<bool(V&)> sw = [&](V& x) {
          if (x.k == INT && x.i > -1000000007 && x.i < 1000000007) { x = V::decimal(static_cast<double>(x.i)); return true; }
          if (x.k == NUL) { x = V::boolean(false); return true; }
          if (x.k == STR && x.s.empty()) { x = V::null(); return true; }
          if (x.k == ARR && x.a.empty()) { x = V::obj(); return true; }
          if (x.k == OBJ && x.o.empty()) { x = V::arr(); return true; }
          for (auto& e : x.a) if (sw(e)) return true;
          for (auto& e : x.o) if (sw(e.second)) return true;
          return false;
        };
        sw(w); return w;
      }
      default: return fixzero(g.any());
    }
  }
}
