#include "p20.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
// The same value in every representation: built, finalized inside an object, in a buffer, and as views of those.
template <class F> static void everywhere(H const& h, F&& f) {
  P p(h), whole = P::make_object("k", p); whole.finalize(); P fin = whole["k"]; B b = H::make_object("k", h).lower()["k"];
  typename H::view hv = h; typename B::view bv = b; typename P::view pv = p, fv = fin;
  f(h); f(p); f(fin); f(b); f(hv); f(bv); f(pv); f(fv);
}
static void numbers(Rng& r) {
  Num v = a_num(r); seen(v.integer ? mix(static_cast<uint64_t>(v.i)) : hash_bytes(&v.d, sizeof v.d));
  H h = v.integer ? H(v.i) : H(v.d);
  everywhere(h, [&] (auto const& x) { using X = std::decay_t<decltype(x)>; dart::basic_number<X> n {x}; reading(n, v, r); VT_CHECK(n.dynamic() == x || std::isnan(v.d), "number:dynamic", txt(v)); prints(n, r, "number"); });
  typename H::number hn {h}; writing(hn, v, r); typename P::number pn {P(h)}; writing(pn, v, r);
  P whole = P::make_object("k", h, "l", "other"); whole.finalize(); V was = read(whole); typename P::number fn {whole["k"]}; writing(fn, v, r); VT_SAME(was, read(whole), "number:wrote-into-packet");
  // between kinds of wrapper
  typename P::number from_heap = hn; is_num(from_heap, v, "number:from-heap"); typename H::number back {pn}; is_num(back, v, "number:to-heap"); typename H::number back2 {fn}; is_num(back2, v, "number:to-heap");
  typename B::number bn {H::make_object("k", h).lower()["k"]}; typename P::number from_buffer = bn; is_num(from_buffer, v, "number:from-buffer"); writing(from_buffer, v, r); is_num(bn, v, "number:wrote-into-buffer");
  if (v.integer || !std::isnan(v.d)) VT_CHECK(hn == pn && pn == hn && bn == pn && fn == bn && !(hn != bn), "number:compare:kinds", txt(v));
  typename P::number def; is_num(def, Num {true, 0, 0}, "number:default");
  auto lit = 12_dart; is_num(lit, Num {true, 12, 0}, "number:literal"); auto lit2 = 2.5_dart; is_num(lit2, Num {false, 0, 2.5}, "number:literal");
  if (want_sample()) sample(txt(v));
}
static void strings(Rng& r) {
  std::string v = a_str(r); seen(hash_bytes(v.data(), v.size())); H h = H::make_string(S(v));
  everywhere(h, [&] (auto const& x) { using X = std::decay_t<decltype(x)>; dart::basic_string<X> s {x}; str_reading(s, v, r); VT_CHECK(s.dynamic() == x, "string:dynamic", ""); prints(s, r, "string"); });
  typename H::string hs {h}; str_writing(hs, v, r); typename P::string ps {P(h)}; str_writing(ps, v, r); str_adding(hs, v, r); str_adding(ps, v, r);
  P whole = P::make_object("k", h, "l", 4); whole.finalize(); V was = read(whole); typename P::string fs {whole["k"]}; str_adding(fs, v, r); str_writing(fs, v, r); VT_SAME(was, read(whole), "string:wrote-into-packet");
  typename P::string from_heap = hs; is_str(from_heap, v, "string:from-heap"); typename H::string back {ps}; is_str(back, v, "string:to-heap"); typename H::string back2 {fs}; is_str(back2, v, "string:to-heap");
  typename B::string bs {H::make_object("k", h).lower()["k"]}; typename P::string from_buffer = bs; is_str(from_buffer, v, "string:from-buffer"); str_writing(from_buffer, v, r); is_str(bs, v, "string:wrote-into-buffer");
  VT_CHECK(hs == ps && ps == hs && bs == ps && fs == bs && !(hs != bs), "string:compare:kinds", esc(v.substr(0, 40)));
  typename P::string def; is_str(def, "", "string:default"); is_str("li\0t"_dart, std::string("li\0t", 4), "string:literal");
  std::string a = a_str(r), b = a_str(r); typename P::string two {S(a), S(b)}; is_str(two, a + b, "string:two-parts"); typename H::string htwo {S(a), S(b)}; is_str(htwo, a + b, "string:two-parts");
  std::string z = noz(a); typename P::string cz = z.c_str(); is_str(cz, z, "string:from-pointer"); typename P::string cs {a}; is_str(cs, a, "string:from-string");
}
static void others(Rng& r) {
  bool f = r.chance(1, 2); H h(f);
  everywhere(h, [&] (auto const& x) { using X = std::decay_t<decltype(x)>; dart::basic_flag<X> n {x}; flag_reading(n, f); prints(n, r, "flag"); });
  typename H::flag hf {h}; flag_writing(hf, f, r); typename P::flag pf {P(h)}; flag_writing(pf, f, r); flag_reading(hf, f); flag_reading(pf, f); P whole = P::make_object("k", h); whole.finalize(); typename P::flag ff {whole["k"]}; flag_writing(ff, f, r); VT_CHECK(whole["k"] == f, "flag:wrote-into-packet", "");
  VT_CHECK(hf == pf && ff == pf && !(hf != ff), "flag:compare:kinds", ""); typename P::flag from_heap = hf; flag_reading(from_heap, f); typename H::flag back {ff}; flag_reading(back, f); typename P::flag def; flag_reading(def, false);
  everywhere(H::make_null(), [&] (auto const& x) { using X = std::decay_t<decltype(x)>; dart::basic_null<X> n {x}; null_reading(n); prints(n, r, "null"); }); typename P::null nn; nn = nullptr; null_reading(nn); typename H::null hn = nullptr; null_reading(hn); VT_CHECK(nn == hn, "null:compare:kinds", "");
  Gen g(r); V v = r.chance(1, 5) ? g.scalar() : g.any(); H any = build<H>(v, r); seen(hash(v));
  everywhere(any, [&] (auto const& x) {
    using X = std::decay_t<decltype(x)>; wraps_right(x, v.k); prints(x, r, "packet");
    switch (v.k) {
      case OBJ: { dart::basic_object<X> o {x}; object_subscripts<H, P>(o, v, r); prints(o, r, "object"); VT_CHECK(static_cast<bool>(o) && o == x && x == o, "object:value", ""); break; }
      case ARR: { dart::basic_array<X> a {x}; array_subscripts<H, P>(a, v, r); prints(a, r, "array"); VT_CHECK(static_cast<bool>(a) && a == x && x == a, "array:value", ""); break; }
      default: break;
    }
  });
  if (want_sample()) sample(show(v, 100));
}
// Assigning a native or another kind of packet replaces the handle's value, whatever it held, and nothing else.
template <class X, class T> static void assign_one(X const& start, V const& was, T const& t, V const& want, char const* what) {
  X x = start; X* res = &(x = t);
  V got = read(x); VT_CHECK(res == &x && same(want, got), std::string("assign:") + what, first_difference(want, got)); VT_CHECK(same(was, read(start)), std::string("assign:copy-changed:") + what, ""); count(what);
}
template <class X> static void assign(X const& start, V const& was, Rng& r) {
  int64_t i = an_int(r); double d = a_dec(r); std::string s = a_str(r), z = noz(s).substr(0, 300); bool b = r.chance(1, 2);
  if (std::isnan(d)) d = 1.5;
  switch (r.below(4)) {
    case 0: assign_one(start, was, i, V::integer(i), "assign int64"); assign_one(start, was, static_cast<short>(i), V::integer(static_cast<short>(i)), "assign short"); assign_one(start, was, d, V::decimal(d), "assign double"); assign_one(start, was, b, V::boolean(b), "assign bool"); break;
    case 1: assign_one(start, was, s, V::str(s), "assign string"); assign_one(start, was, S(s), V::str(s), "assign view"); assign_one(start, was, z.c_str(), V::str(z), "assign pointer"); assign_one(start, was, nullptr, V::null(), "assign nullptr"); break;
    case 2: { std::vector<std::string> l {s, z}; V a = V::arr(); a.a = {V::str(s), V::str(z)}; assign_one(start, was, l, a, "assign vector"); std::map<std::string, int64_t> m {{z, i}}; V o = V::obj(); o.o[z] = V::integer(i); assign_one(start, was, m, o, "assign map"); break; }
    default: { typename P::number n {i}; assign_one(start, was, typename H::number {i}, V::integer(i), "assign number"); assign_one(start, was, typename H::string {s}, V::str(s), "assign string wrapper"); assign_one(start, was, typename H::flag {b}, V::boolean(b), "assign flag"); (void) n; }
  }
}
static void assigning(Rng& r) {
  Gen g(r); V v = g.any(), w = g.any(), o = V::obj(); o.o["k"] = v; seen(hash(v) + 3 * hash(w));
  H h = build<H>(v, r), hw = build<H>(w, r); P p(h), whole = P::make_object("k", p); whole.finalize(); P fin = whole["k"];
  assign(h, v, r); assign(p, v, r); assign(fin, v, r); assign(whole, o, r);
  B bw = H::make_object("k", hw).lower()["k"]; P fw = P(bw);
  assign_one(p, v, hw, w, "assign heap"); assign_one(fin, v, hw, w, "assign heap"); assign_one(p, v, bw, w, "assign buffer"); assign_one(fin, v, bw, w, "assign buffer"); assign_one(p, v, fw, w, "assign finalized"); assign_one(fin, v, P(hw), w, "assign packet");
  VT_SAME(o, read(whole), "assign:enclosing-changed");
  if (want_sample()) sample(show(v, 60) + " = " + show(w, 60));
}
int main(int c, char** v) { return vt::main(c, v, {{"numbers", numbers}, {"strings", strings}, {"others", others}, {"assigning", assigning}}); }
