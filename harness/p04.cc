// P04: finalized bytes are canonical.
#include "dt.h"
using namespace vt;
namespace vt { namespace alloc { void fill(unsigned char); } }

template <class T> static std::string raw(T const& p) { auto s = p.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }
static void dirty(Rng& r) { alloc::fill(static_cast<unsigned char>(r.next() | 1)); }

static std::string where(std::string const& a, std::string const& b) {
  if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t n = 0; n < a.size(); ++n) if (a[n] != b[n]) { char t[80]; snprintf(t, sizeof t, "byte %zu of %zu: %02x and %02x", n, a.size(), static_cast<unsigned char>(a[n]), static_cast<unsigned char>(b[n])); return t; }
  return "";
}
static void same_bytes(std::string const& want, std::string const& got, char const* key, V const& v) {
  VT_CHECK(want == got, key, where(want, got) + " for " + show(v, 500));
}

// Reach v through detours: surplus members that go away again, values that are replaced, late insertions.
template <class P>
static P detour(V const& v, Rng& r, Gen& g) {
  if (v.k == OBJ) {
    P p = P::make_object();
    std::vector<std::string> ks, extra;
    for (auto& e : v.o) ks.push_back(e.first);
    for (size_t n = r.below(4); n; --n) { auto k = g.key(); if (!v.o.count(k)) { extra.push_back(k); } }
    std::vector<std::string> all = ks; all.insert(all.end(), extra.begin(), extra.end());
    r.shuffle(all);
    for (auto& k : all) {
      auto f = v.o.find(k);
      if (f == v.o.end()) p.add_field(S(k), plain<P>(g.small_scalar()));
      else if (r.chance(1, 4)) { p.add_field(S(k), plain<P>(g.small_scalar())); p.add_field(S(k), detour<P>(f->second, r, g)); }
      else p.insert(S(k), detour<P>(f->second, r, g));
    }
    for (auto& k : extra) p.remove_field(S(k));
    if (r.chance(1, 6)) { P q = p; q.add_field("zzz", 1); }   // a copy goes its own way
    count("detour-object");
    return p;
  }
  if (v.k == ARR) {
    P p = P::make_array();
    if (r.chance(1, 3)) p.reserve(r.below(30));
    for (auto& e : v.a) { p.push_back(detour<P>(e, r, g)); if (r.chance(1, 6)) { p.push_back(plain<P>(g.small_scalar())); p.pop_back(); } }
    if (r.chance(1, 4)) { p.push_front(P::make_null()); p.pop_front(); }
    if (r.chance(1, 4) && !v.a.empty()) { size_t at = r.below(v.a.size()); p.insert(at, plain<P>(g.small_scalar())); p.erase(at); }
    if (r.chance(1, 5)) { p.resize(v.a.size() + 3); p.resize(v.a.size()); }
    return p;
  }
  return build<P>(v, r);
}

template <class H, class B, class P>
static void routes(V const& v, Rng& r, Gen& g, std::string const& want) {
  dirty(r);
  switch (r.below(9)) {
    case 0: { same_bytes(want, raw(build<H>(v, r).lower()), "bytes:heap", v); break; }
    case 1: { same_bytes(want, raw(detour<H>(v, r, g).finalize()), "bytes:heap-detour", v); break; }
    case 2: { P p = build<P>(v, r); p.finalize(); same_bytes(want, raw(p), "bytes:packet", v); break; }
    case 3: { P p = detour<P>(v, r, g); dirty(r); p.lower(); same_bytes(want, raw(p), "bytes:packet-detour", v); break; }
    case 4: { P p = build<P>(v, r).finalize(); dirty(r); p.lift(); dirty(r); p.lower(); same_bytes(want, raw(p), "bytes:lift-lower", v); break; }
    case 5: { B b = plain<H>(v).lower(); dirty(r); H h = b.lift(); dirty(r); same_bytes(want, raw(h.lower()), "bytes:buffer-lift-lower", v); break; }
    case 6: { typename P::object o(detour<P>(v, r, g)); dirty(r); o.finalize(); same_bytes(want, raw(o), "bytes:wrapper", v); break; }
    case 7: { // nested members that are finalized themselves
      P p = P::make_object();
      for (auto& e : v.o) {
        P x = build<P>(e.second, r);
        if (r.chance(1, 2)) { dirty(r); x = P(P::make_object("a", 1, "val", x).finalize()["val"]); }
        p.add_field(S(e.first), x);
      }
      dirty(r); p.finalize(); same_bytes(want, raw(p), "bytes:finalized-members", v); count("finalized-members"); break;
    }
    default: { // the merged pairs constructor
      std::vector<P> pairs;
      for (auto& e : v.o) { pairs.push_back(P::make_string(S(e.first))); pairs.push_back(build<P>(e.second, r)); }
      dirty(r);
      if (pairs.empty()) break;
      P p = P::make_object(gsl::span<P const>(pairs.data(), static_cast<std::ptrdiff_t>(pairs.size()))); p.finalize(); same_bytes(want, raw(p), "bytes:make_object", v); break;
    }
  }
  count("routes");
}

static GenOpt opts(Rng& r) { GenOpt o; o.nonfinite = true; o.depth = 1 + static_cast<unsigned>(r.below(4)); o.width = 1 + static_cast<unsigned>(r.below(8)); return o; }
static void classes(V const& v) { if (v.k == DEC) count("decimal"); if (v.k == INT) count("integer"); for (auto& e : v.a) classes(e); for (auto& e : v.o) classes(e.second); }

static void wl_routes(Rng& r) {
  Gen g(r, opts(r));
  V v = g.root_object();
  if (want_sample()) sample(show(v));
  seen(hash(v)); classes(v);
  dirty(r);
  std::string want = raw(plain<dart::heap>(v).lower());
  for (int n = 0; n < 4; ++n) {
    if (r.chance(3, 4)) routes<dart::heap, dart::buffer, dart::packet>(v, r, g, want);
    else { routes<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>(v, r, g, want); count("unsafe"); }
  }
}

// Through JSON
static V normal(V const& v) { // what JSON can express: no NaN
  V w = v;
  if (w.k == DEC && !std::isfinite(w.d)) w = V::decimal(0.25);
  for (auto& e : w.a) e = normal(e);
  for (auto& e : w.o) e.second = normal(e.second);
  return w;
}
static void wl_json(Rng& r) {
  GenOpt o = opts(r); o.nonfinite = false; o.utf8 = true;
  Gen g(r, o);
  V v = normal(g.root_object());
  dirty(r);
  std::string js = plain<dart::packet>(v).to_json();
  dirty(r);
  dart::packet f = dart::packet::from_json(S(js), true);
  V w = read(f);                      // the value the parser saw
  dirty(r);
  std::string want = raw(plain<dart::heap>(w).lower());
  same_bytes(want, raw(f), "bytes:json", w);
  dirty(r);
  same_bytes(want, raw(dart::buffer::from_json(S(js))), "bytes:json-buffer", w);
  dirty(r);
  dart::packet d = dart::packet::from_json(S(js)); dirty(r); d.finalize();
  same_bytes(want, raw(d), "bytes:json-dynamic", w);
  seen(hash(w)); count("json");
}

// Through inject and project
static void wl_merge(Rng& r) {
  Gen g(r, opts(r));
  V v = g.root_object();
  if (v.o.size() < 2) for (auto& k : g.keys(6)) v.o[k] = g.small_scalar();
  std::string want = raw(plain<dart::heap>(v).lower());
  V a = V::obj(), b = V::obj();
  for (auto& e : v.o) { unsigned w = static_cast<unsigned>(r.below(3)); if (w != 0) b.o[e.first] = e.second; if (w == 0) a.o[e.first] = e.second; if (w == 2) a.o[e.first] = g.small_scalar(); }
  dirty(r);
  dart::packet base = plain<dart::packet>(a).finalize();
  std::vector<dart::packet> pairs;
  bool fin = r.chance(1, 2);
  std::vector<std::string> bk; for (auto& e : b.o) bk.push_back(e.first);
  r.shuffle(bk);
  for (auto& k : bk) { pairs.push_back(dart::packet::make_string(S(k))); dart::packet x = build<dart::packet>(b.o[k], r); if (fin) x = dart::packet(dart::packet::make_object("qq", x).finalize()["qq"]); pairs.push_back(x); }
  dirty(r);
  dart::packet m = base.inject(gsl::span<dart::packet const>(pairs.data(), static_cast<std::ptrdiff_t>(pairs.size())));
  VT_SAME(v, read(m), "inject:value");
  VT_CHECK(m.is_finalized(), "inject:form", "");
  same_bytes(want, raw(m), "bytes:inject", v);
  dart::buffer bb = plain<dart::heap>(a).lower();
  // project
  V sup = v; std::vector<std::string> ks;
  for (auto& e : v.o) ks.push_back(e.first);
  for (auto& k : g.keys(1 + r.below(5))) if (!v.o.count(k)) sup.o[k] = g.value(1);
  r.shuffle(ks);
  dirty(r);
  dart::buffer sb = plain<dart::heap>(sup).lower();
  dirty(r);
  dart::buffer pr = sb.project(gsl::span<std::string const>(ks.data(), static_cast<std::ptrdiff_t>(ks.size())));
  same_bytes(want, raw(pr), "bytes:project", v);
  seen(hash(v) ^ hash(a)); count("merged"); count("projected");
}

// Position independence
static void wl_moved(Rng& r) {
  Gen g(r, opts(r));
  V v = g.root_object();
  dart::buffer b = plain<dart::heap>(v).lower();
  std::string s = raw(b);
  size_t off = 8 * r.below(9);
  std::vector<uint64_t> mem((s.size() + off) / 8 + 4, r.next());
  char* at = reinterpret_cast<char*>(mem.data()) + off;
  memcpy(at, s.data(), s.size());
  auto own = std::shared_ptr<gsl::byte const>(reinterpret_cast<gsl::byte const*>(at), [](gsl::byte const*) {});
  dart::buffer c(own);
  VT_SAME(v, read(c), "moved:value");
  auto find_nan = [](V const& x, auto& self) -> bool { if (x.k == DEC && std::isnan(x.d)) return true; for (auto& e : x.a) if (self(e, self)) return true; for (auto& e : x.o) if (self(e.second, self)) return true; return false; };
  (void) find_nan;
  VT_CHECK(c == b && !(c != b) && b == c, "moved:equal", show(v, 500));
  same_bytes(s, raw(c), "moved:bytes", v);
  same_bytes(s, raw(c.lift().lower()), "moved:lift-lower", v);
  for (auto& e : v.o) { auto x = c[S(e.first)]; VT_SAME(e.second, read(x), "moved:child"); auto y = b[S(e.first)]; VT_CHECK(x == y, "moved:child-equal", ""); }
  VT_CHECK(memcmp(at, s.data(), s.size()) == 0, "moved:modified", "");
  seen(hash(v) + off); count("moved"); if (off % 64) count("moved-offset");
}

int main(int c, char** v) { return vt::main(c, v, {{"routes", wl_routes}, {"json", wl_json}, {"merge", wl_merge}, {"moved", wl_moved}}); }
