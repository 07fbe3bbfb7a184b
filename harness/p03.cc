// P03: validation makes untrusted bytes safe to read.
#include "dt.h"
#include <time.h>
using namespace vt;
using B = dart::buffer; using H = dart::heap; using P = dart::packet;

static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }

// Exactly n bytes of heap memory, so that one byte further is poisoned.
struct Exact {
  unsigned char* p; size_t n;
  explicit Exact(std::string const& s) : p(static_cast<unsigned char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(Exact const&) = delete;
  gsl::byte const* bytes() const { return reinterpret_cast<gsl::byte const*>(p); }
};

static uint64_t sink = 0;
struct Budget { uint64_t left; };

// Read everything there is to read.
template <class T>
static void explore(T const& p, Rng& r, Budget& b, int dep) {
  if (!b.left || dep > 3000) return;
  --b.left;
  switch (p.get_type()) {
    case dtype::object: {
      size_t n = p.size(), seen_n = 0;
      auto kv = p.kvbegin();
      auto& k = std::get<0>(kv); auto& v = std::get<1>(kv);
      auto end = p.end();
      while (v != end && b.left) {
        if (seen_n++ >= n) fail("explore:object-overrun", "");
        auto key = *k;
        auto kv_ = key.strv();
        sink += hash_bytes(kv_.data(), kv_.size());
        sink += static_cast<unsigned char>(kv_.data()[kv_.size()]);
        explore(*v, r, b, dep + 1);
        if (r.chance(1, 3)) {
          sink += p.has_key(kv_);
          auto x = p.get(kv_);
          sink += static_cast<uint64_t>(x.get_type());
          auto it = p.find(kv_);
          if (it != end) { auto y = *it; sink += static_cast<uint64_t>(y.get_type()); }
        }
        ++k; ++v;
      }
      std::string probe;
      for (int q = 0; q < 4; ++q) { size_t len = r.chance(1, 8) ? 250 + r.below(10) : r.below(6); probe.clear(); while (probe.size() < len) probe += static_cast<char>(r.next()); sink += p.has_key(S(probe)); auto x = p.get(S(probe)); sink += static_cast<uint64_t>(x.get_type()); }
      break;
    }
    case dtype::array: {
      size_t n = p.size();
      for (size_t i = 0; i < n && b.left; ++i) { auto x = p[i]; explore(x, r, b, dep + 1); }
      if (n) { auto f = p.front(); auto l = p.back(); sink += static_cast<uint64_t>(f.get_type()) + static_cast<uint64_t>(l.get_type()); }
      auto x = p.get(n); VT_CHECK(x.is_null(), "explore:past-end", "");
      break;
    }
    case dtype::string: { auto s = p.strv(); sink += hash_bytes(s.data(), s.size()); sink += strlen(p.str()); break; }
    case dtype::integer: sink += static_cast<uint64_t>(p.integer()); break;
    case dtype::decimal: { double d = p.decimal(); sink += bits(d); break; }
    case dtype::boolean: { bool t = p.boolean(); if (t) sink += 3; break; }
    case dtype::null: break;
  }
}

static void use(std::string const& s, Rng& r, bool full) {
  // Straight out of the given bytes, no copy in between
  {
    Exact e(s);
    auto own = std::shared_ptr<gsl::byte const>(e.bytes(), [](gsl::byte const*) {});
    B b(own);
    Budget bud {20000};
    explore(B::view(b), r, bud, 0);
    Budget bud2 {2000};
    explore(b, r, bud2, 0);
    if (full) {
      auto by = b.get_bytes();
      VT_CHECK(static_cast<size_t>(by.size()) <= s.size(), "get_bytes:larger-than-input", "");
      sink += hash_bytes(by.data(), static_cast<size_t>(by.size()));
      B c(by);
      VT_CHECK(c == b, "copy:unequal", "");
      H h = b.lift();
      Budget bud3 {2000};
      explore(h, r, bud3, 0);
      (void) (h == b);
      try { auto j = b.to_json(); sink += j.size(); } catch (std::invalid_argument const&) { count("not-json"); }
      auto dup = b.dup_bytes();
      P p(b); p.lift();
      (void) (p == b);
      sink += b.keys().size() + b.values().size();
      for (auto it = b.rbegin(); it != b.rend(); ++it) { auto x = *it; sink += static_cast<uint64_t>(x.get_type()); }
    }
  }
  // A packet built from the bytes
  if (full) {
    Exact e(s);
    P p(gsl::span<gsl::byte const>(e.bytes(), static_cast<std::ptrdiff_t>(s.size())));
    Budget bud {2000};
    explore(p, r, bud, 0);
  }
}

// Ask the validator in all of its forms; they have to agree.
static bool valid(std::string const& s) {
  Exact e(s);
  double t0 = cpu();
  bool ok = dart::is_valid(e.bytes(), s.size());
  double t = cpu() - t0;
  VT_CHECK(t < 5, "is_valid:slow", std::to_string(t) + " s for " + std::to_string(s.size()) + " bytes");
  bool ok2 = dart::is_valid(gsl::span<gsl::byte const>(e.bytes(), static_cast<std::ptrdiff_t>(s.size())));
  bool ok3 = true;
  try { dart::validate(e.bytes(), s.size()); } catch (dart::validation_error const&) { ok3 = false; }
  bool ok4 = true;
  try { dart::validate(gsl::span<gsl::byte const>(e.bytes(), static_cast<std::ptrdiff_t>(s.size()))); } catch (dart::validation_error const&) { ok4 = false; }
  VT_CHECK(ok == ok2 && ok == ok3 && ok == ok4, "is_valid:variants-disagree", std::to_string(ok) + std::to_string(ok2) + std::to_string(ok3) + std::to_string(ok4));
  VT_CHECK(memcmp(e.p, s.data(), s.size()) == 0, "is_valid:modifies", "");
  return ok;
}

static V small_value(Rng& r, bool big) {
  GenOpt o; o.depth = 1 + static_cast<unsigned>(r.below(3)); o.width = 1 + static_cast<unsigned>(r.below(5)); o.big = big; o.nonfinite = true;
  Gen g(r, o);
  V v = r.chance(1, 12) ? V::obj() : g.root_object();
  if (r.chance(1, 8)) { v = V::obj(); v.o["c"] = g.chain(1 + static_cast<unsigned>(r.below(30))); }
  return v;
}
template <class T> static std::string raw(T const& p) { auto s = p.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }
// A buffer with exactly this value, by one of the ways the library has of making one
static std::string bytes_of(V const& v, Rng& r) {
  if (r.chance(1, 4) && !v.o.empty()) { // merge
    V a = V::obj(), b = V::obj();
    for (auto& e : v.o) { bool second = r.chance(1, 2); (second ? b : a).o[e.first] = e.second; if (second && r.chance(1, 3)) a.o[e.first] = V::integer(7); }
    P base = plain<P>(a).finalize();
    std::vector<P> pairs;
    bool fin = r.chance(1, 2);
    for (auto& e : b.o) { pairs.push_back(P::make_string(S(e.first))); P x = plain<P>(e.second); if (fin) x = P(P::make_object("x", x).finalize()["x"]); pairs.push_back(x); }
    P m = base.inject(gsl::span<P const>(pairs.data(), static_cast<std::ptrdiff_t>(pairs.size())));
    count("made-by-inject");
    return raw(m);
  }
  if (r.chance(1, 4)) { // project
    V a = v; std::vector<std::string> ks;
    for (auto& e : v.o) ks.push_back(e.first);
    for (int n = 0; n < 4; ++n) { std::string k(1 + r.below(5), static_cast<char>('a' + r.below(26))); if (!v.o.count(k)) a.o[k] = V::str("gone"); }
    r.shuffle(ks);
    P m = plain<P>(a).finalize().project(gsl::span<std::string const>(ks.data(), static_cast<std::ptrdiff_t>(ks.size())));
    count("made-by-project");
    return raw(m);
  }
  if (r.chance(1, 6)) { // JSON
    std::string js;
    try { js = plain<P>(v).to_json(); } catch (std::exception const&) {}
    if (!js.empty()) { try { std::string out = raw(P::from_json(S(js), true)); count("made-by-json"); return out; } catch (std::exception const&) {} }
  }
  if (r.chance(1, 2)) { B b = plain<H>(v).lower(); auto s = b.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }
  P p = plain<P>(v); p.finalize(); auto s = p.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size()));
}

// Genuine buffers are accepted, their truncations are not.
static void wl_genuine(Rng& r) {
  V v = small_value(r, true);
  std::string s = bytes_of(v, r);
  if (want_sample()) sample(show(v));
  VT_CHECK(valid(s), "genuine:rejected", show(v, 1500));
  count("genuine"); seen(hash(v));
  use(s, r, true);
  // followed by something else
  std::string t = s + std::string(r.below(40), static_cast<char>(r.next()));
  VT_CHECK(valid(t), "genuine:rejected-with-trailer", "");
  size_t step = s.size() > 600 ? s.size() / 300 : 1;
  for (size_t n = r.below(step); n < s.size(); n += step) {
    std::string u = s.substr(0, n);
    VT_CHECK(!valid(u), "truncated:accepted", std::to_string(n) + " of " + std::to_string(s.size()));
    count("truncated");
  }
  VT_CHECK(!valid(s.substr(0, s.size() - 1)), "truncated:accepted", "by one byte");
}

static void put32(std::string& s, size_t at, uint32_t x) { if (at + 4 <= s.size()) for (int k = 0; k < 4; ++k) s[at + static_cast<size_t>(k)] = static_cast<char>(x >> (8 * k)); }
static uint32_t get32(std::string const& s, size_t at) { uint32_t x = 0; for (int k = 3; k >= 0; --k) x = x << 8 | static_cast<unsigned char>(at + static_cast<size_t>(k) < s.size() ? s[at + static_cast<size_t>(k)] : 0); return x; }

static void mutate(std::string& s, Rng& r) {
  if (s.empty()) return;
  size_t n = s.size();
  auto near = [&](uint32_t x) -> uint32_t {
    switch (r.below(14)) {
      case 0: return 0; case 1: return 1; case 2: return x + 1; case 3: return x - 1; case 4: return x + 8; case 5: return x - 8;
      case 6: return static_cast<uint32_t>(n); case 7: return static_cast<uint32_t>(n - 8 + r.below(17)); case 8: return 0xffffffffu - static_cast<uint32_t>(r.below(9));
      case 9: return 0x7fffffffu + static_cast<uint32_t>(r.below(3)); case 10: return x ^ (1u << r.below(32)); case 11: return static_cast<uint32_t>(r.below(n + 16));
      case 12: return x * 2; default: return static_cast<uint32_t>(r.below(n)) & ~7u;
    }
  };
  switch (r.below(12)) {
    case 0: case 1: case 2: { size_t at = r.below(n) & ~size_t(3); put32(s, at, near(get32(s, at))); break; }             // sizes, counts, offsets
    case 3: { size_t at = r.below(std::min<size_t>(n, 64)) & ~size_t(3); put32(s, at, near(get32(s, at))); break; }       // near the root
    case 4: { size_t at = (r.below(n) & ~size_t(7)) + 4; if (at < n) s[at] = static_cast<char>(r.below(r.chance(1, 2) ? 12 : 256)); break; }  // types
    case 5: s[r.below(n)] = static_cast<char>(r.next()); break;
    case 6: s[r.below(n)] ^= static_cast<char>(1 << r.below(8)); break;
    case 7: { size_t a = r.below(n), b = r.below(n), l = 1 + r.below(16); for (size_t k = 0; k < l && a + k < n && b + k < n; ++k) s[a + k] = s[b + k]; break; }
    case 8: { size_t a = r.below(n) & ~size_t(7), b = r.below(n) & ~size_t(7); for (size_t k = 0; k < 8 && a + k < n && b + k < n; ++k) std::swap(s[a + k], s[b + k]); break; } // swap vtable entries
    case 9: { // strings: length and terminator
      size_t at = r.below(n); for (size_t k = at; k < n && k < at + 64; ++k) if (!s[k]) { s[k] = static_cast<char>(1 + r.below(255)); break; } break; }
    case 10: s.resize(r.below(n + 1)); break;
    default: { size_t at = r.below(n) & ~size_t(1); if (at + 1 < n) { unsigned x = static_cast<unsigned>(r.below(3)) == 0 ? 0xffff : static_cast<unsigned>(r.below(n)); s[at] = static_cast<char>(x); s[at + 1] = static_cast<char>(x >> 8); } break; }
  }
}
static void judge(std::string const& s, Rng& r, bool full) {
  if (valid(s)) {
    count("accepted");
    seen(hash_bytes(s.data(), s.size()));
    use(s, r, full);
  } else count("rejected");
}
static void wl_mutated(Rng& r) {
  std::string base = bytes_of(small_value(r, r.chance(1, 20)), r);
  for (int rep = 0; rep < 30; ++rep) {
    std::string s = base;
    size_t m = 1 + r.below(r.chance(1, 3) ? 6 : 2);
    for (size_t k = 0; k < m; ++k) mutate(s, r);
    judge(s, r, r.chance(1, 3));
  }
}
// Keeps what is still accepted and mutates that further, so that many small edits add up
static void wl_drift(Rng& r) {
  std::string s = bytes_of(small_value(r, false), r);
  int ok = 0;
  for (int rep = 0; rep < 60; ++rep) {
    std::string t = s;
    mutate(t, r);
    if (valid(t)) { s = t; ++ok; seen(hash_bytes(t.data(), t.size())); use(t, r, rep % 8 == 0); count("accepted"); } else count("rejected");
  }
  if (ok > 5) count("drifted");
}
static void wl_random(Rng& r) {
  for (int rep = 0; rep < 40; ++rep) {
    size_t n = r.below(r.chance(1, 10) ? 2000 : 96);
    std::string s(n, 0);
    unsigned mode = static_cast<unsigned>(r.below(3));
    for (auto& c : s) c = static_cast<char>(mode == 0 ? r.next() : mode == 1 ? (r.chance(1, 4) ? r.below(n + 1) : 0) : r.below(16));
    if (n >= 8 && r.chance(2, 3)) { put32(s, 0, static_cast<uint32_t>(r.chance(1, 2) ? n : r.below(n + 1))); put32(s, 4, static_cast<uint32_t>(r.below(n / 8 + 1))); }
    judge(s, r, r.chance(1, 4));
    count("random");
  }
}

// Children that overlap: valid on their own, but reachable along exponentially many paths.
static void wl_overlap(Rng& r) {
  // Find the encoded types of an object and an array by looking at genuine buffers
  auto type_byte = [&](V v) { V o = V::obj(); o.o["k"] = std::move(v); std::string s = bytes_of(o, r); return s[12]; };
  char tarr = type_byte(V::arr());
  size_t n = 28 + r.below(12);
  // Nodes 0..n-1: node i is an array of all later nodes; each claims everything up to the end.
  std::vector<size_t> at(n);
  size_t pos = 0;
  for (size_t i = 0; i < n; ++i) { at[i] = pos; pos += 8 + 8 * (n - 1 - i); }
  std::string body(pos, 0);
  for (size_t i = 0; i < n; ++i) {
    put32(body, at[i], static_cast<uint32_t>(pos - at[i]));
    put32(body, at[i] + 4, static_cast<uint32_t>(n - 1 - i));
    for (size_t j = i + 1; j < n; ++j) { size_t e = at[i] + 8 + 8 * (j - i - 1); put32(body, e, static_cast<uint32_t>(at[j] - at[i])); body[e + 4] = tarr; }
  }
  // Root object: {"k": node 0}
  V o = V::obj(); o.o["k"] = V::arr();
  std::string root = bytes_of(o, r);
  std::string s = root.substr(0, root.size() - 8) + body;
  put32(s, 0, static_cast<uint32_t>(s.size()));
  count("overlap"); seen(n + r.below(1000) * 0);
  if (valid(s)) { count("overlap-accepted"); double t0 = cpu(); use(s, r, false); VT_CHECK(cpu() - t0 < 20, "overlap:slow", ""); }
}

int main(int c, char** v) { return vt::main(c, v, {{"genuine", wl_genuine}, {"mutated", wl_mutated}, {"drift", wl_drift}, {"random", wl_random}, {"overlap", wl_overlap}}); }
