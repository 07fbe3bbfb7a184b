#include "p12.h"
using namespace vt;
// Typed wrappers against packets, wrappers and native values
template <class W, class R>
static void wrap_against(W const& w, R const& y, bool want, V const& a, V const& b, char const* k) {
  eq(w, y.h, want, a, b, k, "heap"); eq(w, y.b, want, a, b, k, "buffer"); eq(w, y.p, want, a, b, k, "packet"); eq(w, y.f, want, a, b, k, "finalized");
  count("wrapper");
}
template <template <class> class W, class R>
static void wraps(R const& x, R const& y, V const& a, V const& b) {
  bool want = same(a, b);
  W<dart::heap> h(x.h); W<dart::packet> p(x.p), f(x.f); W<dart::buffer> u(x.b);
  wrap_against(h, y, want, a, b, "wrapper:heap"); wrap_against(p, y, want, a, b, "wrapper:packet"); wrap_against(f, y, want, a, b, "wrapper:finalized"); wrap_against(u, y, want, a, b, "wrapper:buffer");
  if (a.k == b.k || (a.k == INT && b.k == DEC) || (a.k == DEC && b.k == INT)) {
    W<dart::heap> h2(y.h); W<dart::packet> p2(y.p), f2(y.f); W<dart::buffer> u2(y.b);
    eq(h, h2, want, a, b, "w:heap", "w:heap"); eq(p, p2, want, a, b, "w:packet", "w:packet"); eq(p, f2, want, a, b, "w:packet", "w:finalized"); eq(f, f2, want, a, b, "w:finalized", "w:finalized"); eq(u, u2, want, a, b, "w:buffer", "w:buffer");
    eq(h, p2, want, a, b, "w:heap", "w:packet"); eq(h, u2, want, a, b, "w:heap", "w:buffer"); eq(u, f2, want, a, b, "w:buffer", "w:finalized"); eq(u, p2, want, a, b, "w:buffer", "w:packet");
    count("wrapper-pair");
  }
}
using Safe = Reps<dart::heap, dart::buffer, dart::packet>;
static void wl_wrappers(Rng& r) {
  Gen g(r, p12opts(r));
  V a = fixzero(g.any()), b = relative(a, r, g);
  Safe x(a, r), y(b, r);
  switch (a.k) {
    case OBJ: wraps<dart::basic_object>(x, y, a, b); break;
    case ARR: wraps<dart::basic_array>(x, y, a, b); break;
    case STR: wraps<dart::basic_string>(x, y, a, b); break;
    case INT: case DEC: wraps<dart::basic_number>(x, y, a, b); break;
    case BOOL: wraps<dart::basic_flag>(x, y, a, b); break;
    case NUL: wraps<dart::basic_null>(x, y, a, b); break;
  }
  seen(hash(a) * 7 + hash(b));
}
template <class T, class R>
static void native(R const& x, T const& t, bool want, V const& a, V const& b, char const* k) {
  eq(x.h, t, want, a, b, "heap", k); eq(x.b, t, want, a, b, "buffer", k); eq(x.p, t, want, a, b, "packet", k); eq(x.f, t, want, a, b, "finalized", k);
  eq(x.pv, t, want, a, b, "packet-view", k); eq(x.bv, t, want, a, b, "buffer-view", k); eq(x.hv, t, want, a, b, "heap-view", k);
  count("native");
}
template <class I> static bool fits(int64_t i) { return static_cast<int64_t>(static_cast<I>(i)) == i; }
static void wl_native(Rng& r) {
  Gen g(r, p12opts(r)); g.o.depth = 1;
  V a = fixzero(r.chance(3, 4) ? g.scalar() : g.any()), b = relative(a, r, g);
  if (b.k == ARR || b.k == OBJ) b = fixzero(g.scalar());
  Safe x(a, r);
  auto num = [&](auto n) { return a.k == INT ? a.i == n : a.k == DEC ? a.d == n : false; };
  switch (b.k) {
    case NUL: native(x, nullptr, a.k == NUL, a, b, "nullptr"); break;
    case BOOL: native(x, b.b, a.k == BOOL && a.b == b.b, a, b, "bool"); break;
    case INT:
      native(x, b.i, num(b.i), a, b, "int64");
      if (fits<int>(b.i)) native(x, static_cast<int>(b.i), num(b.i), a, b, "int");
      if (fits<short>(b.i)) native(x, static_cast<short>(b.i), num(b.i), a, b, "short");
      if (fits<unsigned>(b.i)) native(x, static_cast<unsigned>(b.i), num(b.i), a, b, "unsigned");
      if (fits<signed char>(b.i)) native(x, static_cast<signed char>(b.i), num(b.i), a, b, "schar");
      if (fits<unsigned short>(b.i)) native(x, static_cast<unsigned short>(b.i), num(b.i), a, b, "ushort");
      if (b.i >= 0) native(x, static_cast<unsigned long>(b.i), num(b.i), a, b, "ulong");
      break;
    case DEC:
      native(x, b.d, num(b.d), a, b, "double");
      if (static_cast<double>(static_cast<float>(b.d)) == b.d) native(x, static_cast<float>(b.d), num(b.d), a, b, "float");
      break;
    case STR: {
      bool want = a.k == STR && a.s == b.s;
      native(x, b.s, want, a, b, "string"); native(x, S(b.s), want, a, b, "string_view");
      if (b.s.find('\0') == std::string::npos) native(x, b.s.c_str(), want, a, b, "cstr");
      break;
    }
    default: break;
  }
  seen(hash(a) * 11 + hash(b));
}
// Zeros of either sign and NaN: the recorded inconsistency, everything else still reported
static void wl_special(Rng& r) {
  double z = r.chance(1, 2) ? 0.0 : -0.0; bool nan = r.chance(1, 3);
  V a = V::decimal(nan ? std::numeric_limits<double>::quiet_NaN() : z), b = V::decimal(nan ? a.d : -z);
  Gen g(r, p12opts(r));
  if (r.chance(1, 2)) { a = [&] { V w = V::arr(); w.a.push_back(a); return w; }(); b = [&] { V w = V::arr(); w.a.push_back(b); return w; }(); }
  Safe x(a, r), y(b, r);
  // One answer for all representations
  bool dyn = x.h == y.h;
  VT_CHECK(dyn == (x.p == y.p) && dyn == !(x.h != y.h), "special:dynamic", "");
  VT_CHECK((x.b == y.b) == (x.f == y.f) && (x.b == y.b) == !(x.b != y.b), "special:finalized", "");
  if (dyn != (x.b == y.b)) report(nan ? "special:nan-heap-vs-buffer" : "special:zero-heap-vs-buffer", "two packets holding " + show(a) + " and " + show(b) + " compare " + (dyn ? "equal" : "unequal") + " when dynamic and " + (dyn ? "unequal" : "equal") + " when finalized");
  if (!nan) { VT_CHECK((x.h == y.b) == dyn && (x.p == y.f) == dyn, "special:mixed", ""); }
  count("special"); seen(bits(z) + nan);
}
int main(int c, char** v) { return vt::main(c, v, {{"wrappers", wl_wrappers}, {"native", wl_native}, {"special", wl_special}}); }
