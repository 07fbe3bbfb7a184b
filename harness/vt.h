// Common part of all harnesses: PRNG, reference values, generators, reporting, case loop.
// Nothing in here depends on dart.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_set>

namespace vt {

  // ---------- PRNG ----------
  inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
  };

  // ---------- reference values ----------
  // The documented key order: shorter keys first, then unsigned byte order.
  struct KeyLess {
    bool operator ()(std::string const& a, std::string const& b) const {
      if (a.size() != b.size()) return a.size() < b.size();
      return memcmp(a.data(), b.data(), a.size()) < 0;
    }
  };
  enum Kind { NUL = 0, BOOL, INT, DEC, STR, ARR, OBJ };
  inline char const* kind_name(int k) {
    static char const* n[] = {"null", "bool", "int", "dec", "str", "arr", "obj"};
    return k >= 0 && k <= 6 ? n[k] : "?";
  }
  struct V;
  using Obj = std::map<std::string, V, KeyLess>;
  struct V {
    Kind k = NUL;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<V> a;
    Obj o;
    V() {}
    static V null() { return V(); }
    static V boolean(bool x) { V v; v.k = BOOL; v.b = x; return v; }
    static V integer(int64_t x) { V v; v.k = INT; v.i = x; return v; }
    static V decimal(double x) { V v; v.k = DEC; v.d = x; return v; }
    static V str(std::string x) { V v; v.k = STR; v.s = std::move(x); return v; }
    static V arr() { V v; v.k = ARR; return v; }
    static V obj() { V v; v.k = OBJ; return v; }
  };
  inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
  // Bit for bit identity.
  inline bool same(V const& x, V const& y) {
    if (x.k != y.k) return false;
    switch (x.k) {
      case NUL: return true;
      case BOOL: return x.b == y.b;
      case INT: return x.i == y.i;
      case DEC: return bits(x.d) == bits(y.d) || (std::isnan(x.d) && std::isnan(y.d));
      case STR: return x.s == y.s;
      case ARR:
        if (x.a.size() != y.a.size()) return false;
        for (size_t n = 0; n < x.a.size(); ++n) if (!same(x.a[n], y.a[n])) return false;
        return true;
      case OBJ: {
        if (x.o.size() != y.o.size()) return false;
        auto p = x.o.begin(); auto q = y.o.begin();
        for (; p != x.o.end(); ++p, ++q) if (p->first != q->first || !same(p->second, q->second)) return false;
        return true;
      }
    }
    return false;
  }
  inline std::string esc(std::string const& s, size_t cap = 48) {
    std::string r = "\"";
    char buf[8];
    for (size_t n = 0; n < s.size() && n < cap; ++n) {
      unsigned char c = static_cast<unsigned char>(s[n]);
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
      else r += static_cast<char>(c);
    }
    r += '"';
    if (s.size() > cap) r += "(len " + std::to_string(s.size()) + ")";
    return r;
  }
  inline void show_to(V const& v, std::string& r, size_t cap) {
    if (r.size() > cap) { return; }
    char buf[64];
    switch (v.k) {
      case NUL: r += "null"; break;
      case BOOL: r += v.b ? "true" : "false"; break;
      case INT: r += std::to_string(v.i); break;
      case DEC: snprintf(buf, sizeof buf, "%.17g(d)", v.d); r += buf; break;
      case STR: r += esc(v.s); break;
      case ARR: r += '['; for (auto& e : v.a) { if (r.size() > cap) { r += ".."; break; } show_to(e, r, cap); r += ','; } r += ']'; break;
      case OBJ: r += '{'; for (auto& e : v.o) { if (r.size() > cap) { r += ".."; break; } r += esc(e.first); r += ':'; show_to(e.second, r, cap); r += ','; } r += '}'; break;
    }
  }
  inline std::string show(V const& v, size_t cap = 600) { std::string r; show_to(v, r, cap); return r; }
  inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto* c = static_cast<unsigned char const*>(p);
    for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ULL;
    return mix(h ^ n);
  }
  inline uint64_t hash(V const& v) {
    uint64_t h = mix(static_cast<uint64_t>(v.k) + 77);
    switch (v.k) {
      case NUL: break;
      case BOOL: h = mix(h ^ (v.b ? 3 : 5)); break;
      case INT: h = mix(h ^ static_cast<uint64_t>(v.i)); break;
      case DEC: h = mix(h ^ bits(v.d)); break;
      case STR: h = hash_bytes(v.s.data(), v.s.size(), h); break;
      case ARR: for (auto& e : v.a) h = mix(h * 31 + hash(e)); break;
      case OBJ: for (auto& e : v.o) { h = hash_bytes(e.first.data(), e.first.size(), h); h = mix(h * 31 + hash(e.second)); } break;
    }
    return h;
  }
  inline size_t nodes(V const& v) {
    size_t n = 1;
    for (auto& e : v.a) n += nodes(e);
    for (auto& e : v.o) n += nodes(e.second);
    return n;
  }
  inline size_t depth(V const& v) {
    size_t n = 0;
    for (auto& e : v.a) n = std::max(n, depth(e));
    for (auto& e : v.o) n = std::max(n, depth(e.second));
    return n + 1;
  }

  // ---------- generators ----------
  struct GenOpt {
    unsigned depth = 3, width = 6;
    bool nonfinite = false;    // NaN/inf
    bool nul = true;           // embedded NUL in strings and keys
    bool utf8 = false;         // only valid UTF-8
    bool ascii = false;        // only printable ASCII without quotes
    bool big = true;           // rarely: strings around 64K, long keys, wide aggregates
    bool negzero = true;
  };
  struct Gen {
    Rng& r;
    GenOpt o;
    Gen(Rng& rng, GenOpt opt = GenOpt()) : r(rng), o(opt) {}

    void put_cp(std::string& s, uint32_t c) {
      if (c < 0x80) s += static_cast<char>(c);
      else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
      else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
      else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    // Exactly n bytes
    std::string text(size_t n) {
      std::string s;
      unsigned mode = static_cast<unsigned>(r.below(5));
      if (o.ascii) {
        while (s.size() < n) s += static_cast<char>("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789_ -"[r.below(49)]);
        return s;
      }
      while (s.size() < n) {
        switch (mode) {
          case 0: s += static_cast<char>('a' + r.below(4)); break;
          case 1: s += static_cast<char>(32 + r.below(95)); break;
          case 2:
            if (o.utf8) {
              size_t room = n - s.size();
              uint32_t c = room >= 4 && r.chance(1, 4) ? static_cast<uint32_t>(0x10000 + r.below(0x100000))
                : room >= 3 && r.chance(1, 3) ? static_cast<uint32_t>(0x800 + r.below(0xC000))
                : room >= 2 && r.chance(1, 2) ? static_cast<uint32_t>(0x80 + r.below(0x780))
                : static_cast<uint32_t>((o.nul ? 0 : 1) + r.below(0x7f));
              put_cp(s, c);
            } else {
              unsigned char c = static_cast<unsigned char>(r.below(256));
              if (!o.nul && !c) c = 1;
              s += static_cast<char>(c);
            }
            break;
          case 3: {
            static char const tricky[] = "\"\\/\b\f\n\r\t\x01\x1f\x7f";
            s += tricky[r.below(sizeof(tricky) - 1)];
            break;
          }
          default:
            if (o.utf8) s += static_cast<char>(r.chance(1, 5) && o.nul ? 0 : 'a' + r.below(26));
            else if (r.chance(1, 6) && o.nul) s += '\0';
            else s += static_cast<char>(r.chance(1, 3) ? 0x7e + r.below(6) : 'a' + r.below(3));
            break;
        }
      }
      return s;
    }
    size_t strlen_pick() {
      switch (r.below(10)) {
        case 0: return 0;
        case 1: case 2: case 3: return 1 + r.below(6);
        case 4: case 5: return 8 + r.below(16);     // small string boundary
        case 6: return r.below(64);
        case 7: return 250 + r.below(12);
        case 8: return r.below(8);
        default:
          if (o.big && r.chance(1, 12)) return 65530 + r.below(12);
          if (o.big && r.chance(1, 12)) return 66000 + r.below(70000);
          return r.below(300);
      }
    }
    std::string string() { return text(strlen_pick()); }
    std::string key() {
      size_t n;
      switch (r.below(14)) {
        case 0: n = r.below(2); break;
        case 1: n = 253 + r.below(6); break;
        case 2: n = r.below(40); break;
        case 3: n = o.big && r.chance(1, 20) ? 65530 + r.below(6) : r.below(4); break;
        default: n = 1 + r.below(5); break;
      }
      return text(n);
    }
    // A set of keys with nasty relations among them
    std::vector<std::string> keys(size_t n) {
      std::set<std::string> ks;
      unsigned mode = static_cast<unsigned>(r.below(7));
      std::string pre = text(r.below(3));
      std::string lng = text(250 + r.below(10));
      for (size_t tries = 0; ks.size() < n && tries < n * 8 + 16; ++tries) {
        switch (mode) {
          case 0: ks.insert(key()); break;
          case 1: ks.insert(pre + text(1 + r.below(2))); break;                        // shared prefix, short
          case 2: { auto k = lng; k += text(r.below(8)); ks.insert(k); break; }        // around the length cache cap
          case 3: { auto k = text(2); ks.insert(k + std::string(r.below(4), 'x')); break; } // equal prefixes, varied lengths
          case 4: ks.insert(text(3)); break;                                            // equal lengths
          case 5: { // around the cap, different prefixes
            size_t len = 252 + r.below(8);
            auto k = text(2); k.resize(2); k += std::string(len - 2, static_cast<char>('a' + r.below(2)));
            if (o.utf8 && !valid_utf8(k)) k = std::string(len, static_cast<char>('a' + r.below(20)));
            ks.insert(k);
            break;
          }
          default: ks.insert(r.chance(1, 2) ? key() : pre + text(1 + r.below(3))); break;
        }
      }
      std::vector<std::string> v(ks.begin(), ks.end());
      r.shuffle(v);
      return v;
    }
    static bool valid_utf8(std::string const& s) {
      size_t i = 0;
      while (i < s.size()) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        size_t n = c < 0x80 ? 1 : (c >= 0xC2 && c < 0xE0) ? 2 : (c >= 0xE0 && c < 0xF0) ? 3 : (c >= 0xF0 && c < 0xF5) ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (size_t k = 1; k < n; ++k) if ((static_cast<unsigned char>(s[i + k]) & 0xC0) != 0x80) return false;
        i += n;
      }
      return true;
    }
    int64_t integer() {
      static int64_t const edge[] = {0, 1, -1, 127, 128, -128, -129, 255, 256, 32766, 32767, 32768, -32767, -32768, -32769, 65535, 65536,
        2147483646LL, 2147483647LL, 2147483648LL, -2147483647LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
        9007199254740991LL, 9007199254740993LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
      switch (r.below(4)) {
        case 0: return edge[r.below(sizeof edge / sizeof *edge)];
        case 1: return r.range(-100, 100);
        case 2: { int sh = static_cast<int>(r.below(64)); int64_t x = static_cast<int64_t>(r.next() >> sh); return r.chance(1, 2) ? x : -(x & INT64_MAX); }
        default: return static_cast<int64_t>(static_cast<int16_t>(r.next()));
      }
    }
    double decimal() {
      static double const edge[] = {0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1.5, 3.4028234663852886e38, 3.4028235e38, 3.41e38, -3.5e38, 1.17549435e-38, 1e-45, 4.9e-324,
        2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e300, 16777216.0, 16777217.0, 9007199254740993.0, 3.141592653589793, 2.5, 1e22, 1e21, 123456789012345680.0};
      double d;
      switch (r.below(6)) {
        case 0: d = edge[r.below(sizeof edge / sizeof *edge)]; break;
        case 1: d = static_cast<double>(static_cast<float>(r.range(-1000000, 1000000)) / 64.0f); break;
        case 2: { uint64_t u = r.next(); memcpy(&d, &u, 8); break; }
        case 3: d = static_cast<double>(r.range(-100000, 100000)) / 1000.0; break;
        case 4: { uint32_t u = static_cast<uint32_t>(r.next()); float f; memcpy(&f, &u, 4); d = f; break; }
        default: d = static_cast<double>(r.range(-50, 50)); break;
      }
      if (o.nonfinite && r.chance(1, 10)) {
        unsigned w = static_cast<unsigned>(r.below(3));
        d = w == 0 ? std::numeric_limits<double>::quiet_NaN() : w == 1 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      } else if (!std::isfinite(d) && !o.nonfinite) d = 1.25;
      if (std::isnan(d)) d = o.nonfinite ? std::numeric_limits<double>::quiet_NaN() : 2.25;
      if (d == 0) d = o.negzero && r.chance(1, 2) ? -0.0 : 0.0;
      return d;
    }
    V scalar() {
      switch (r.below(9)) {
        case 0: return V::null();
        case 1: return V::boolean(r.chance(1, 2));
        case 2: case 3: case 4: return V::integer(integer());
        case 5: case 6: return V::decimal(decimal());
        default: return V::str(string());
      }
    }
    size_t width() {
      if (o.big && r.chance(1, 60)) return 20 + r.below(300);
      return r.below(o.width + 1);
    }
    V object(unsigned dep) {
      V v = V::obj();
      size_t n = width();
      bool wide = n > 20;
      for (auto& k : keys(n)) v.o[k] = wide ? small_scalar() : value(dep ? dep - 1 : 0);
      return v;
    }
    V array(unsigned dep) {
      V v = V::arr();
      size_t n = width();
      bool wide = n > 20;
      for (size_t x = 0; x < n; ++x) v.a.push_back(wide ? small_scalar() : value(dep ? dep - 1 : 0));
      return v;
    }
    V small_scalar() {
      switch (r.below(5)) {
        case 0: return V::null();
        case 1: return V::boolean(r.chance(1, 2));
        case 2: return V::integer(integer());
        case 3: return V::decimal(decimal());
        default: return V::str(text(r.below(20)));
      }
    }
    V value(unsigned dep) {
      if (dep == 0) return scalar();
      switch (r.below(5)) {
        case 0: case 1: return object(dep);
        case 2: return array(dep);
        default: return scalar();
      }
    }
    V aggregate() { return r.chance(1, 2) ? object(o.depth) : array(o.depth); }
    V root_object() { return object(o.depth); }
    V any() { return value(o.depth); }
    // Structured "deep" value
    V chain(unsigned n) {
      V v = scalar();
      for (unsigned x = 0; x < n; ++x) {
        if (r.chance(1, 2)) { V a = V::arr(); if (r.chance(1, 3)) a.a.push_back(small_scalar()); a.a.push_back(std::move(v)); v = std::move(a); }
        else { V ob = V::obj(); if (r.chance(1, 3)) ob.o["zz"] = small_scalar(); ob.o[text(1 + r.below(3))] = std::move(v); v = std::move(ob); }
      }
      return v;
    }
    // Small local change, different from the original value
    V mutate(V v) {
      switch (v.k) {
        case NUL: return r.chance(1, 2) ? V::boolean(false) : V::integer(0);
        case BOOL: return r.chance(1, 3) ? V::integer(v.b) : V::boolean(!v.b);
        case INT:
          if (r.chance(1, 4)) return V::boolean(v.i != 0);
          v.i = static_cast<int64_t>(static_cast<uint64_t>(v.i) ^ (1ULL << r.below(64)));
          return v;
        case DEC: {
          double d = v.d;
          if (std::isnan(d)) return V::decimal(1.0);
          v.d = r.chance(1, 2) ? std::nextafter(d, d > 0 ? -1e308 : 1e308) : (d == 0 ? 1.0 : -d);
          if (!std::isfinite(v.d) || v.d == d) v.d = d == 7.5 ? 8.5 : 7.5;
          return v;
        }
        case STR:
          if (v.s.empty() || r.chance(1, 4)) { v.s += r.chance(1, 2) && o.nul ? '\0' : 'q'; return v; }
          if (r.chance(1, 3)) { v.s.pop_back(); while (o.utf8 && !valid_utf8(v.s)) v.s.pop_back(); return v; }
          { size_t p = r.below(v.s.size()); if (o.utf8 || o.ascii) { v.s.insert(0, "k"); } else v.s[p] = static_cast<char>(v.s[p] ^ (1 << r.below(8))); if (!o.nul) for (auto& c : v.s) if (!c) c = 2; }
          return v;
        case ARR:
          if (v.a.empty() || r.chance(1, 5)) { v.a.push_back(small_scalar()); return v; }
          if (r.chance(1, 5)) { v.a.pop_back(); return v; }
          if (v.a.size() > 1 && r.chance(1, 5)) { size_t x = r.below(v.a.size() - 1); if (!same(v.a[x], v.a[x + 1])) { std::swap(v.a[x], v.a[x + 1]); return v; } }
          { size_t p = r.below(v.a.size()); v.a[p] = mutate(v.a[p]); }
          return v;
        case OBJ:
          if (v.o.empty() || r.chance(1, 5)) { std::string k = key(); if (!v.o.count(k)) v.o[k] = r.chance(1, 2) ? V::null() : small_scalar(); else v.o[k] = mutate(v.o[k]); return v; }
          { auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size())));
            if (r.chance(1, 5)) { v.o.erase(it); return v; }
            if (r.chance(1, 4)) { // rename a key, keeping value and count
              std::string k = it->first; V val = it->second;
              std::string nk = key(); if (!v.o.count(nk)) { v.o.erase(k); v.o[nk] = val; return v; }
            }
            it->second = mutate(it->second); }
          return v;
      }
      return v;
    }
  };

  // ---------- reporting and the case loop ----------
  struct Abort {};
  struct Ctx {
    uint64_t seed = 1, kase = 0;
    std::string workload;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0;
    uint64_t fails = 0;
    std::map<std::string, uint64_t> known;   // keys of recorded findings: reported once, not counted as failures
    volatile uint64_t* state = nullptr;   // current case number, shared with the driver
    bool verbose = false;
  };
  // Worker threads point this at a context of their own, merged after they are joined (absorb).
  inline Ctx*& thread_ctx() { static thread_local Ctx* c = nullptr; return c; }
  inline Ctx& main_ctx() { static Ctx c; return c; }
  inline Ctx& ctx() { Ctx* c = thread_ctx(); return c ? *c : main_ctx(); }
  // Hook for suspending allocation accounting inside the harness' own bookkeeping.
  inline int& no_account() { static thread_local int n = 0; return n; }
  struct Quiet { Quiet() { ++no_account(); } ~Quiet() { --no_account(); } };

  inline void count(char const* name, uint64_t n = 1) { Quiet q; ctx().counters[name] += n; }
  inline void seen(uint64_t h) { Quiet q; ctx().distinct.insert(h); }
  inline void eval(uint64_t n = 1) { ctx().evals += n; }
  inline void sample(std::string const& s) { Quiet q; if (ctx().samples.size() < 3) ctx().samples.push_back(s); }
  inline bool want_sample() { return ctx().samples.size() < 3; }

  inline std::string clean(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
  // Soft failure: record and go on.
  inline void report(std::string const& key, std::string const& detail) {
    Quiet q;
    auto kn = ctx().known.find(clean(key));
    if (kn != ctx().known.end()) { if (kn->second++) return; }
    else ++ctx().fails;
    printf("FAIL\t%s\t%llu\t%s\t%s\n", ctx().workload.c_str(), static_cast<unsigned long long>(ctx().kase), clean(key).c_str(), clean(detail).c_str());
    fflush(stdout);
  }
  [[noreturn]] inline void fail(std::string const& key, std::string const& detail) { report(key, detail); throw Abort(); }
  inline void check(bool ok, char const* key, std::function<std::string()> const& detail) { eval(); if (!ok) fail(key, detail()); }
#define VT_CHECK(cond, key, detail) do { ::vt::eval(); if (!(cond)) { ::vt::Quiet vt_q; ::vt::fail((key), (detail)); } } while (0)

  // A worker's context: made by the parent, used by one thread, merged by the parent after join.
  struct Worker {
    Ctx c;
    Worker() { Quiet q; c.seed = ctx().seed; c.kase = ctx().kase; c.workload = ctx().workload; for (auto& k : ctx().known) c.known[k.first] = 1; for (auto& k : ctx().known) if (!k.second) c.known[k.first] = 0; }
    template <class F> void run(F&& f) {
      thread_ctx() = &c;
      try { f(); }
      catch (Abort const&) {}
      catch (std::exception const& e) { report(std::string("thread-exception"), e.what()); }
      thread_ctx() = nullptr;
    }
    void merge() {
      Quiet q; Ctx& m = main_ctx();
      for (auto& x : c.counters) m.counters[x.first] += x.second;
      m.distinct.insert(c.distinct.begin(), c.distinct.end());
      m.evals += c.evals; m.fails += c.fails;
      for (auto& k : c.known) if (k.second) m.known[k.first] += k.second;
    }
  };

  struct Workload { char const* name; void (*fn)(Rng&); };
  int main(int argc, char** argv, std::vector<Workload> const& ws);
}
