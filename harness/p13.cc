#include "p13.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
static std::string raw(P const& p) { auto b = p.get_bytes(); return std::string(reinterpret_cast<char const*>(b.data()), static_cast<size_t>(b.size())); }
#if PART == 0
static void wl_heap(Rng& r) {
  V v = p13_value(r);
  H h = build<H>(v, r);
  accessors(h, v, r, "heap"); defaults(h, v, r, "heap");
  typename H::view hv = h; accessors(hv, v, r, "heap-view");
  mutators(h, v, false, r, "heap");
  wrappers(h, v, "heap");
  if (v.k == OBJ) { B b = h.lower(); H l(b.lift()); accessors(l, v, r, "lifted-heap"); }
  else expect_outcome(O_TYPE | O_STATE, "heap", "lower", v, [&] { (void) h.lower(); });
  VT_SAME(v, read(h), "changed-by-reading");
  if (want_sample()) sample(show(v, 120));
  count("heap");
}
int main(int c, char** v) { return vt::main(c, v, {{"heap", wl_heap}}); }
#elif PART == 1
static void wl_buffer(Rng& r) {
  V v = p13_value(r);
  H h = build<H>(v, r);
  B b = v.k == OBJ && r.chance(1, 2) ? h.lower() : H::make_object("k", h, "l", r.chance(1, 2) ? "x" : "longer").lower()["k"];
  accessors(b, v, r, "buffer");
  typename B::view bv = b; accessors(bv, v, r, "buffer-view");
  wrappers(b, v, "buffer");
  if (want_sample()) sample(show(v, 120));
  count("buffer");
}
int main(int c, char** v) { return vt::main(c, v, {{"buffer", wl_buffer}}); }
#else
static void wl_packet(Rng& r) {
  V v = p13_value(r);
  P p = build<P>(v, r);
  bool fin = r.chance(1, 2);
  if (fin) {
    if (v.k == OBJ && r.chance(1, 2)) p.finalize();
    else p = P::make_object("k", p).finalize()["k"];
    count("finalized");
  } else count("dynamic");
  char const* rep = fin ? "finalized" : "packet";
  eval(); if (p.is_finalized() != fin) fail("is_finalized", "");
  accessors(p, v, r, rep); defaults(p, v, r, rep);
  typename P::view pv = p; accessors(pv, v, r, fin ? "finalized-view" : "packet-view");
  wrappers(p, v, rep);
  std::string before; bool root = fin && v.k == OBJ;
  if (root) before = raw(p);
  mutators(p, v, fin, r, rep);
  if (root) { eval(); if (raw(p) != before) fail("finalized-bytes-changed", show(v, 200)); }
  if (fin && v.k == OBJ) {
    // inject and project leave a finalized packet as it is
    auto x = p.inject("zz", 1); std::vector<std::string> ks {"zz"}; auto y = x.project(ks);
    VT_SAME(v, read(p), "changed-by-inject");
    eval(); if (raw(p) != before) fail("finalized-bytes-changed-by-inject", show(v, 200));
  }
  // finalize only takes objects
  P q = p;
  if (v.k != OBJ && !fin) { expect_outcome(O_TYPE | O_STATE, rep, "finalize", v, [&] { q.finalize(); }); VT_SAME(v, read(q), "failed-finalize-changed"); }
  // get_bytes and friends of a dynamic packet
  if (!fin) { expect_outcome(O_STATE, rep, "get_bytes", v, [&] { (void) p.get_bytes(); }); expect_outcome(O_STATE, rep, "dup_bytes", v, [&] { (void) p.dup_bytes(); }); VT_SAME(v, read(p), "changed"); }
  // handing the packet over as heap or as buffer
  expect_outcome(O_OK, rep, "operator heap", v, [&] { H h = static_cast<H>(p); VT_SAME(v, read(h), "as-heap"); });
  if (fin || v.k == OBJ) expect_outcome(O_OK, rep, "operator buffer", v, [&] { B b = static_cast<B>(p); VT_SAME(v, read(b), "as-buffer"); });
  else expect_outcome(O_TYPE | O_STATE, rep, "operator buffer", v, [&] { B b = static_cast<B>(p); });
  VT_SAME(v, read(p), "changed-by-conversion");
  eval(); if (p.is_finalized() != fin) fail("is_finalized-changed", "");
  if (want_sample()) sample(std::string(rep) + " " + show(v, 120));
  count("packet");
}
// Wrappers of one type made from wrappers of another representation
template <class A, class Bx, class F> static void cross_wrap(A const& a, V const& v, bool ok, char const* name, F&&) {
  expect_outcome(ok ? O_OK : O_TYPE, "cross", name, v, [&] { Bx b {a}; VT_SAME(v, read(b.dynamic()), name); });
}
static void wl_cross(Rng& r) {
  V v = p13_value(r);
  H h = build<H>(v, r);
  P p = h;
  // A dynamic heap wrapper widened to a packet wrapper, and narrowed back, keeps type and value
  auto go = [&](auto hw, auto pw_tag) {
    using PW = decltype(pw_tag);
    PW pw(hw);
    VT_SAME(v, read(pw.dynamic()), "widened");
    expect_outcome(O_OK, "cross", "narrow", v, [&] { decltype(hw) back(pw); VT_SAME(v, read(back.dynamic()), "narrowed"); });
    typename PW::view view = pw; VT_SAME(v, read(view.dynamic()), "wrapper-view");
    PW copy = pw; PW moved = std::move(copy); VT_SAME(v, read(moved.dynamic()), "wrapper-moved");
    P out = moved; VT_SAME(v, read(out), "wrapper-to-packet");
    // assigning a value of the wrong type to a packet slot changes the slot's type, never the wrapper's
    out = P(1); VT_SAME(v, read(moved.dynamic()), "wrapper-after-assign");
  };
  switch (v.k) {
    case OBJ: go(H::object(h), P::object()); break;
    case ARR: go(H::array(h), P::array()); break;
    case STR: go(H::string(h), P::string()); break;
    case INT: case DEC: go(H::number(h), P::number()); break;
    case BOOL: go(H::flag(h), P::flag()); break;
    case NUL: go(H::null(h), P::null()); break;
  }
  count("cross");
}
int main(int c, char** v) { return vt::main(c, v, {{"packet", wl_packet}, {"cross", wl_cross}}); }
#endif
