// P01: representation conversions preserve the value.
#include "dt.h"
using namespace vt;

static GenOpt opts(Rng& r) {
  GenOpt o;
  o.nonfinite = true;
  o.depth = 1 + static_cast<unsigned>(r.below(4));
  o.width = 1 + static_cast<unsigned>(r.below(8));
  return o;
}
static void note(V const& v) {
  if (nodes(v) > 1) seen(hash(v));
  count("nodes", nodes(v));
  if (depth(v) >= 5) count("deep");
  if (want_sample()) sample(show(v));
}
// Walk all nodes counting classes of values that took part
static void classes(V const& v) {
  static char const* ints[] = {"int16", "int32", "int64"};
  switch (v.k) {
    case INT: count(ints[v.i >= INT16_MIN && v.i <= INT16_MAX ? 0 : v.i >= INT32_MIN && v.i <= INT32_MAX ? 1 : 2]); break;
    case DEC: count(static_cast<double>(static_cast<float>(v.d)) == v.d ? "float" : "double"); break;
    case STR: count(v.s.size() > 65535 ? "bigstr" : v.s.size() > 14 ? "str" : "sso"); break;
    case ARR: if (v.a.empty()) count("empty-array"); break;
    case OBJ: if (v.o.empty()) count("empty-object"); break;
    default: break;
  }
  for (auto& e : v.a) classes(e);
  for (auto& e : v.o) { if (e.first.size() >= 255) count("long-key"); classes(e.second); }
}

template <class H, class B, class P>
static void roundtrip(V const& v, Rng& r) {
  // heap
  H h = build<H>(v, r);
  VT_SAME(v, read(h), "heap:build");
  H copy = h;
  // dynamic -> finalized; only aggregates with object root can be finalized standalone
  if (v.k == OBJ) {
    B b = r.chance(1, 2) ? h.finalize() : h.lower();
    VT_SAME(v, read(b), "heap->buffer");
    VT_SAME(v, read(h), "heap->buffer:source");
    VT_CHECK(b.is_finalized(), "buffer:is_finalized", "");
    typename B::view bv = b;
    VT_SAME(v, read(bv), "buffer->view");
    H back = r.chance(1, 2) ? b.lift() : b.definalize();
    VT_SAME(v, read(back), "buffer->heap");
    VT_SAME(v, read(b), "buffer->heap:source");
    // again: the second generation must agree as well
    B again = back.lower();
    VT_SAME(v, read(again), "heap->buffer:second");
    H conv(static_cast<H>(b));
    VT_SAME(v, read(conv), "buffer->heap:cast");
    B conv2(static_cast<B>(h));
    VT_SAME(v, read(conv2), "heap->buffer:cast");
    // packet
    P p = build<P>(v, r);
    VT_SAME(v, read(p), "packet:build");
    P q = p;
    q.finalize();
    VT_CHECK(q.is_finalized() && !p.is_finalized(), "packet:finalized-flag", "");
    VT_SAME(v, read(q), "packet->finalized");
    VT_SAME(v, read(p), "packet->finalized:source");
    P d = q;
    d.definalize();
    VT_CHECK(!d.is_finalized() && q.is_finalized(), "packet:definalized-flag", "");
    VT_SAME(v, read(d), "packet->definalized");
    VT_SAME(v, read(q), "packet->definalized:source");
    d.lower(); VT_SAME(v, read(d), "packet:lower");
    d.lift(); VT_SAME(v, read(d), "packet:lift");
    P fh(h), fb(b);
    VT_SAME(v, read(fh), "heap->packet");
    VT_SAME(v, read(fb), "buffer->packet");
    typename P::view pv = q, pv2 = p;
    VT_SAME(v, read(pv), "packet->view");
    VT_SAME(v, read(pv2), "packet->view:dynamic");
    H hp(static_cast<H>(q)); VT_SAME(v, read(hp), "packet->heap");
    B bp(static_cast<B>(p)); VT_SAME(v, read(bp), "packet->buffer");
    // rebuilding from bytes
    auto bytes = b.get_bytes();
    std::vector<gsl::byte> raw(bytes.data(), bytes.data() + bytes.size());
    B rebuilt(gsl::span<gsl::byte const>(raw.data(), static_cast<std::ptrdiff_t>(raw.size())));
    raw.assign(raw.size(), static_cast<gsl::byte>(0x5a));
    VT_SAME(v, read(rebuilt), "bytes->buffer");
    P rebuiltp(gsl::span<gsl::byte const>(bytes.data(), bytes.size()));
    VT_SAME(v, read(rebuiltp), "bytes->packet");
    auto dup = b.dup_bytes();
    B taken(std::move(dup));
    VT_SAME(v, read(taken), "dup_bytes->buffer");
    auto dup2 = q.dup_bytes();
    P takenp(std::move(dup2));
    VT_SAME(v, read(takenp), "dup_bytes->packet");
    size_t len = 0;
    auto dup3 = b.dup_bytes(len);
    VT_CHECK(len == static_cast<size_t>(bytes.size()) && memcmp(dup3.get(), bytes.data(), len) == 0, "dup_bytes:content", "");
    // children of a finalized packet keep their value when lifted on their own
    for (auto& e : v.o) {
      if (r.chance(1, 3)) {
        auto child = b[S(e.first)];
        VT_SAME(e.second, read(child), "buffer:child");
        H lifted = child.lift();
        VT_SAME(e.second, read(lifted), "buffer:child-lift");
        if (e.second.k == OBJ) {
          B sub = lifted.lower();
          VT_SAME(e.second, read(sub), "buffer:child-relower");
          auto cb = child.get_bytes();
          (void) cb;
        }
        P pc(child);
        pc.lift();
        VT_SAME(e.second, read(pc), "packet:child-lift");
        // embed the finalized child into a dynamic object, then finalize that
        P host = P::make_object();
        host.add_field("x", P(child)).add_field("yy", h[S(e.first)]);
        V hv = V::obj(); hv.o["x"] = e.second; hv.o["yy"] = e.second;
        VT_SAME(hv, read(host), "packet:embed-finalized");
        host.finalize();
        VT_SAME(hv, read(host), "packet:embed-finalized-lower");
        count("embedded");
      }
    }
    count("finalized");
  } else {
    P p = build<P>(v, r);
    VT_SAME(v, read(p), "packet:build");
    // other types finalize only inside of an object
    V w = V::obj(); w.o["k"] = v;
    P q = P::make_object("k", p).finalize();
    VT_SAME(w, read(q), "packet:wrapped");
    P c = q["k"];
    VT_SAME(v, read(c), "packet:wrapped-child");
    c.lift();
    VT_SAME(v, read(c), "packet:wrapped-child-lift");
    typename H::view hv = h;
    VT_SAME(v, read(hv), "heap->view");
    VT_SAME(v, read(P(h)), "heap->packet");
    count("wrapped");
  }
  VT_SAME(v, read(copy), "copy-untouched");
}

using SH = dart::heap; using SB = dart::buffer; using SP = dart::packet;
using UH = dart::unsafe_heap; using UB = dart::unsafe_buffer; using UP = dart::unsafe_packet;

static void wl_trees(Rng& r) {
  Gen g(r, opts(r));
  V v = r.chance(4, 5) ? g.root_object() : g.any();
  note(v); classes(v);
  if (r.chance(2, 3)) roundtrip<SH, SB, SP>(v, r);
  else roundtrip<UH, UB, UP>(v, r);
}

// Conversion between reference counters
static void wl_counters(Rng& r) {
  Gen g(r, opts(r));
  V v = g.root_object();
  note(v);
  SH h = build<SH>(v, r);
  UH u = SH::transmogrify<dart::unsafe_ptr>(h);
  VT_SAME(v, read(u), "transmogrify:heap");
  VT_SAME(v, read(h), "transmogrify:heap-source");
  SH s2 = UH::transmogrify<std::shared_ptr>(u);
  VT_SAME(v, read(s2), "transmogrify:heap-back");
  SB b = h.lower();
  UB ub = SB::transmogrify<dart::unsafe_ptr>(b);
  VT_SAME(v, read(ub), "transmogrify:buffer");
  VT_SAME(v, read(b), "transmogrify:buffer-source");
  auto kb = SB::transmogrify<dart::skinny_ptr>(b);
  VT_SAME(v, read(kb), "transmogrify:buffer-skinny");
  auto kh = SH::transmogrify<dart::skinny_ptr>(h);
  VT_SAME(v, read(kh), "transmogrify:heap-skinny");
  VT_SAME(v, read(kh.lower()), "transmogrify:heap-skinny-lower");
  for (int fin = 0; fin < 2; ++fin) {
    SP p(h);
    if (fin) p.finalize();
    UP up = SP::transmogrify<dart::unsafe_ptr>(p);
    VT_SAME(v, read(up), "transmogrify:packet");
    VT_CHECK(up.is_finalized() == p.is_finalized(), "transmogrify:packet-form", "");
    SP sp = UP::transmogrify<std::shared_ptr>(up);
    VT_SAME(v, read(sp), "transmogrify:packet-back");
    VT_SAME(v, read(p), "transmogrify:packet-source");
    if (fin) up.definalize(); else up.finalize();
    VT_SAME(v, read(up), "transmogrify:packet-convert");
    // Children carry over too
    if (!v.o.empty()) {
      auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size())));
      if (fin && it->second.k != OBJ) continue; SP c = p[S(it->first)];
      UP uc = SP::transmogrify<dart::unsafe_ptr>(c);
      VT_SAME(it->second, read(uc), "transmogrify:packet-child");
    }
  }
  count("transmogrified");
}

// Deep chains and wide aggregates
static void wl_shapes(Rng& r) {
  GenOpt o = opts(r);
  Gen g(r, o);
  V v = V::obj();
  if (r.chance(1, 2)) {
    v.o[g.text(1 + r.below(3))] = g.chain(5 + static_cast<unsigned>(r.below(150)));
    count("deep");
  } else {
    size_t n = 1 + r.below(1500);
    V a = V::arr();
    for (size_t x = 0; x < n; ++x) a.a.push_back(g.small_scalar());
    v.o["arr"] = a;
    V ob = V::obj();
    for (auto& k : g.keys(r.below(600))) ob.o[k] = g.small_scalar();
    v.o["object"] = ob;
    count("wide");
  }
  note(v); classes(v);
  roundtrip<SH, SB, SP>(v, r);
}

// Every integer/double class next to every alignment: a scalar behind strings of all lengths mod 8
static void wl_align(Rng& r) {
  Gen g(r, opts(r));
  V v = V::obj();
  size_t n = 2 + r.below(10);
  bool arr = r.chance(1, 2);
  V a = V::arr();
  for (size_t x = 0; x < n; ++x) {
    V e = r.chance(1, 3) ? V::str(g.text(r.below(17))) : r.chance(1, 2) ? V::integer(g.integer()) : r.chance(1, 2) ? V::decimal(g.decimal()) : r.chance(1, 2) ? V::boolean(r.chance(1, 2)) : V::null();
    if (arr) a.a.push_back(e); else v.o[g.text(1 + r.below(9))] = e;
  }
  if (arr) v.o[g.text(1 + r.below(9))] = a;
  // what follows must be found at the right place
  v.o["zzzzzzzzzzzzzzzz"] = r.chance(1, 2) ? V::integer(g.integer()) : V::decimal(g.decimal());
  note(v); classes(v);
  count("aligned");
  roundtrip<SH, SB, SP>(v, r);
}

// Typed wrappers convert too
static void wl_typed(Rng& r) {
  Gen g(r, opts(r));
  V v = g.root_object();
  note(v);
  SP p = build<SP>(v, r);
  dart::object o(p);
  VT_SAME(v, read(o), "object:build");
  dart::object fo = o;
  fo.finalize();
  VT_CHECK(fo.is_finalized() && !o.is_finalized(), "object:finalized", "");
  VT_SAME(v, read(fo), "object:finalize");
  dart::object lo = fo;
  lo.lift();
  VT_SAME(v, read(lo), "object:lift");
  VT_CHECK(!lo.is_finalized(), "object:lifted", "");
  dart::buffer::object bo = dart::buffer::object(dart::heap::object(build<SH>(v, r)).lower());
  VT_SAME(v, read(bo), "buffer::object");
  dart::buffer b = dart::buffer(bo);
  VT_SAME(v, read(b), "buffer::object->buffer");
  SP pp(fo);
  VT_SAME(v, read(pp), "object->packet");
  for (auto& e : v.o) {
    SP c = fo[S(e.first)];
    switch (e.second.k) {
      case OBJ: VT_SAME(e.second, read(dart::object(c)), "wrap:object"); VT_SAME(e.second, read(dart::object(c).lift()), "wrap:object-lift"); break;
      case ARR: VT_SAME(e.second, read(dart::array(c)), "wrap:array");  break;
      case STR: VT_CHECK(str(dart::string(c).strv()) == e.second.s, "wrap:string", ""); break;
      case INT: VT_CHECK(dart::number(c).integer() == e.second.i, "wrap:number", ""); break;
      case DEC: VT_CHECK(bits(dart::number(c).decimal()) == bits(e.second.d), "wrap:number", ""); break;
      case BOOL: VT_CHECK(dart::flag(c).boolean() == e.second.b, "wrap:flag", ""); break;
      case NUL: VT_CHECK(dart::null(c).is_null(), "wrap:null", ""); break;
    }
    count("wrapped-typed");
  }
}

int main(int argc, char** argv) {
  return vt::main(argc, argv, {{"trees", wl_trees}, {"counters", wl_counters}, {"shapes", wl_shapes}, {"align", wl_align}, {"typed", wl_typed}});
}
