// P07: byte ownership, and everything in P05's pools once more with a watched reference counter and the leak monitor.
#include "p05.h"
#include "probe.h"
#include "p07.h"

struct Log { int called = 0; void const* with = nullptr; };
struct Del {
  Log* log; std::vector<uint64_t>* mem;
  void operator ()(gsl::byte const* p) const { ++log->called; log->with = p; delete mem; }
};
template <class P> static typename std::enable_if<true, P>::type obj_of(V const& v) { return P(plain<dart::basic_heap<std::shared_ptr>>(v).lower()); }

template <class P> static P make_from(unsigned route, gsl::byte const* at, Del d) {
  switch (route) {
    case 0: return P(std::shared_ptr<gsl::byte const>(at, d));
    case 1: return P(dart::shareable_ptr<std::shared_ptr<gsl::byte const>>(at, d));
    case 2: return P(std::unique_ptr<gsl::byte const[], Del>(at, d));
    case 3: return P(std::unique_ptr<gsl::byte const, Del>(at, d));
    default: return P(std::unique_ptr<gsl::byte, Del>(const_cast<gsl::byte*>(at), d));
  }
}
template <class P> static void bytes(Rng& r) {
  GenOpt o; o.big = false; Gen g(r, o);
  V v = g.root_object();
  dart::buffer src = plain<dart::heap>(v).lower();
  auto s = src.get_bytes();
  size_t len = static_cast<size_t>(s.size());
  unsigned route = static_cast<unsigned>(r.below(5));
  Log log;
  auto* mem = new std::vector<uint64_t>(len / 8 + 2);
  auto* at = reinterpret_cast<gsl::byte*>(mem->data());
  memcpy(at, s.data(), len);
  unsigned bad = r.chance(1, 5) ? 1 + static_cast<unsigned>(r.below(7)) : 0;
  if (bad) { // misaligned: refused, and still released exactly once
    bool t = throws<std::invalid_argument>([&] { make_from<P>(route, at + bad, Del{&log, mem}); }, "bytes:misaligned");
    VT_CHECK(t, "bytes:misaligned-accepted", "");
    VT_CHECK(log.called == 1 && log.with == at + bad, "bytes:refused-release", std::to_string(log.called) + " releases");
    count("refused"); return;
  }
  {
    P p = make_from<P>(route, at, Del{&log, mem});
    VT_CHECK(p.get_bytes().data() == at, "bytes:copied", "");
    std::vector<P> more;
    std::shared_ptr<gsl::byte const> share;
    size_t owners = 1;
    for (size_t n = r.below(12); n; --n) {
      switch (r.below(6)) {
        case 0: more.push_back(p); ++owners; break;
        case 1: if (!v.o.empty()) { auto x = p[S(v.o.begin()->first)]; if (!x.is_null()) ++owners; more.push_back(x); } break;
        case 2: { bool had = static_cast<bool>(share); size_t got = p.share_bytes(share); VT_CHECK(got == len && share.get() == at, "share_bytes", std::to_string(got)); if (!had) ++owners; count("share_bytes"); break; }
        case 3: { size_t n2 = 0; auto dup = p.dup_bytes(n2); VT_CHECK(n2 == len && dup.get() != at && !memcmp(dup.get(), at, len), "dup_bytes", ""); P q(std::move(dup)); VT_SAME(v, read(q), "dup_bytes:value"); count("dup_bytes"); break; }
        case 4: if (!more.empty()) { if (!more.back().is_null()) --owners; more.pop_back(); } break;
        default: if (share) { share.reset(); --owners; } break;
      }
      VT_CHECK(p.refcount() == owners, "bytes:refcount", std::to_string(p.refcount()) + " not " + std::to_string(owners));
      VT_CHECK(log.called == 0, "bytes:released-early", "");
    }
    // whatever remains keeps the bytes alive
    p = P();
    if (owners > 1) VT_CHECK(log.called == 0, "bytes:released-early", "an owner is left");
    for (auto& m : more) read(m);
    if (share) { P again(share); VT_SAME(v, read(again), "share_bytes:value"); }
    { // nested objects can be taken out as bytes of their own
      for (auto& e : v.o) if (e.second.k == OBJ && share) { P root(share); P c = root[S(e.first)]; P own(c.get_bytes()); VT_SAME(e.second, read(own), "bytes:nested"); VT_CHECK(own.refcount() == 1, "bytes:nested-refcount", ""); count("nested-bytes"); }
    }
  }
  VT_CHECK(log.called == 1 && log.with == at, "bytes:release", std::to_string(log.called) + " releases");
  count("released"); seen(hash(v) + route);
}
static void wl_bytes(Rng& r) { bytes<dart::buffer>(r); bytes<dart::packet>(r); }

static void wl_pool(Rng& r) { { isolation<dart::basic_packet<probe_ptr>>(r, "pool"); } probe_balance(); }

// Ownership when things go wrong half way
static void wl_errors(Rng& r) {
  { using P = dart::basic_packet<probe_ptr>;
    GenOpt o; o.big = false; Gen g(r, o);
    Hist h(r, g);
    for (int n = 0; n < 6; ++n) {
      V v = g.any(); P p = build<P>(v, r);
      try { switch (r.below(12)) {
        case 0: { typename P::object w(p); } break; case 1: { typename P::array w(p); } break; case 2: { typename P::string w(p); } break; case 3: { typename P::number w(p); } break;
        case 4: P::make_object(p, p, p, 1); break; case 5: p.add_field("k", p).push_back(p); break; case 6: p.finalize(); p.add_field("x", 1); break;
        case 7: p.get_bytes(); break; case 8: { P q = p; P(std::move(q)).at("nope"); break; } case 9: p.insert(h.key(v), p); p.insert(99999, p); break;
        case 10: p.inject("a", p, "b", P(1)); break; default: p.integer(); p.strv(); break;
      } } catch (std::exception const&) { count("error"); }
      try { switch (r.below(4)) { case 0: P::from_json("{\"a\":[1,2,{\"b\":"); break; case 1: P::from_json("[{\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":1},tru]", true); break; case 2: P::from_yaml("a: [1, 2\nb: 3", true); break; default: P::from_yaml("a: {x: &b 1}\nc: *b\n", false); break; } } catch (std::exception const&) { count("parse-error"); }
    }
  }
  probe_balance();
}
int main(int c, char** v) { return vt::main(c, v, {{"bytes", wl_bytes}, {"pool", wl_pool}, {"errors", wl_errors}}); }
