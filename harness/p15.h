// P15: injection and projection.
#pragma once
#include "dt.h"
#include "hist.h"

namespace vt {
  using Pairs = std::vector<std::pair<std::string, V>>;
  inline V overlay(V v, Pairs const& ps) { for (auto& e : ps) v.o[e.first] = e.second; return v; }
  inline V restrict_to(V const& v, std::vector<std::string> const& ks) { V o = V::obj(); for (auto& k : ks) { auto it = v.o.find(k); if (it != v.o.end()) o.o[k] = it->second; } return o; }
  inline bool duplicated(Pairs const& ps) { std::set<std::string> s; for (auto& e : ps) if (!s.insert(e.first).second) return true; return false; }
  inline size_t overlap(V const& v, Pairs const& ps) { size_t n = 0; for (auto& e : ps) n += v.o.count(e.first); return n; }
  inline std::string near_key(V const& v, Rng& r, Gen& g) {
    if (!v.o.empty() && r.chance(3, 4)) {
      std::string k = std::next(v.o.begin(), static_cast<long>(r.below(v.o.size())))->first;
      if (k.size() > 60000 || r.chance(1, 3)) return k;
      switch (r.below(4)) {
        case 0: return k + "x";
        case 1: if (!k.empty()) k.pop_back(); return k;
        case 2: if (!k.empty()) k[r.below(k.size())] = static_cast<char>('a' + r.below(26)); return k;
        default: if (!k.empty()) k.back() = static_cast<char>(k.back() + (r.chance(1, 2) ? 1 : -1)); return k;
      }
    }
    return g.key();
  }
  inline Pairs pairs_for(V const& v, Rng& r, Gen& g) {
    Pairs ps; std::set<std::string> have;
    size_t n = r.chance(1, 20) ? 0 : r.chance(1, 30) ? 40 + r.below(200) : 1 + r.below(5);
    for (size_t x = 0; x < n; ++x) {
      std::string k = near_key(v, r, g);
      V w;
      auto it = v.o.find(k);
      if (it != v.o.end() && r.chance(1, 4)) w = it->second;            // same value again
      else if (it != v.o.end() && r.chance(1, 3)) w = g.mutate(it->second);
      else if (r.chance(1, 6)) w = V::null();
      else if (n > 20) w = g.small_scalar();
      else w = g.value(r.chance(1, 3) ? 2 : 0);
      if (!have.insert(k).second && !r.chance(1, 8)) continue;
      ps.emplace_back(k, w);
    }
    return ps;
  }
  inline std::vector<std::string> keys_for(V const& v, Rng& r, Gen& g) {
    std::vector<std::string> ks;
    unsigned mode = static_cast<unsigned>(r.below(8));
    if (mode == 0) return ks;
    if (mode == 1) { for (auto& e : v.o) ks.push_back(e.first); r.shuffle(ks); count("project-all"); }
    else {
      for (auto& e : v.o) if (r.chance(1, 2)) ks.push_back(e.first);
      for (size_t n = r.below(4); n > 0; --n) ks.push_back(near_key(v, r, g));
      if (mode == 2 && !ks.empty()) { for (size_t n = 1 + r.below(3); n > 0; --n) ks.push_back(r.pick(ks)); count("project-repeated"); }
      if (mode != 3) r.shuffle(ks);
    }
    return ks;
  }
  template <class X>
  std::string bytes_of(X const& x) { auto s = x.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }
  template <template <class> class RC> std::string bytes_of(dart::basic_heap<RC> const&) { return ""; }
  template <template <class> class RC> void well_formed(dart::basic_heap<RC> const&, V const&, char const*) {}
  // A finalized result is a well formed finalized packet in its own right
  template <class X>
  void well_formed(X const& x, V const& v, char const* key) {
    auto s = x.get_bytes();
    VT_CHECK(dart::is_valid(s), std::string(key) + ":invalid", show(v, 300));
    size_t len = 0; auto d = x.dup_bytes(len);
    VT_CHECK(len == static_cast<size_t>(s.size()), std::string(key) + ":length", show(v, 200));
    X again(gsl::span<gsl::byte const>(d.get(), static_cast<std::ptrdiff_t>(len)));
    VT_SAME(v, read(again), std::string(key) + ":rebuilt");
    // and every key is found by lookup as well as by iteration
    for (auto& e : v.o) VT_SAME(e.second, read(again[S(e.first)]), std::string(key) + ":lookup");
    count("well-formed");
  }
  template <class T> gsl::span<T const> span_of(std::vector<T> const& v) { return gsl::span<T const>(v.data(), static_cast<std::ptrdiff_t>(v.size())); }
  template <class T, class F>
  std::vector<T> flat(Pairs const& ps, F&& mk) { std::vector<T> out; out.reserve(ps.size() * 2); for (auto& e : ps) { out.push_back(mk(V::str(e.first))); out.push_back(mk(e.second)); } return out; }

  // Result of injecting into x through a random overload; H, B, P are the family of x
  template <class H, class B, class P, class X>
  X inject_any(X const& x, Pairs const& ps, Rng& r) {
    auto asB = [&](V const& v) { return B(H::make_object("k", build<H>(v, r)).lower()["k"]); };
    auto asF = [&](V const& v) { P p = build<P>(v, r); if (r.chance(1, 2)) return P(P::make_object("kk", p).finalize()["kk"]); return p; };
    switch (r.below(ps.size() <= 3 ? 5 : 3)) {
      case 0: { auto s = flat<H>(ps, [&](V const& v) { return build<H>(v, r); }); count("span-heap"); return x.inject(span_of(s)); }
      case 1: { auto s = flat<B>(ps, asB); count("span-buffer"); return x.inject(span_of(s)); }
      case 2: { auto s = flat<P>(ps, asF); count("span-packet"); return x.inject(span_of(s)); }
      default: {
        count("variadic");
        if (ps.empty()) return x.inject();
        auto v = [&](size_t n) { return build<H>(ps[n].second, r); };
        if (ps.size() == 1) return r.chance(1, 2) ? X(x.inject(S(ps[0].first), v(0))) : X(x.inject(ps[0].first, v(0)));
        if (ps.size() == 2) return x.inject(S(ps[0].first), v(0), S(ps[1].first), v(1));
        return x.inject(S(ps[0].first), v(0), H::make_string(S(ps[1].first)), v(1), ps[2].first, v(2));
      }
    }
  }
  template <class X>
  X project_any(X const& x, std::vector<std::string> const& ks, Rng& r) {
    std::vector<sv> vs; for (auto& k : ks) vs.push_back(S(k));
    switch (r.below(ks.size() <= 3 ? 4 : 2)) {
      case 0: count("project-strings"); return x.project(span_of(ks));
      case 1: count("project-views"); return x.project(span_of(vs));
      default:
        count("project-list");
        if (ks.empty()) return x.project(std::initializer_list<sv> {});
        if (ks.size() == 1) return x.project({vs[0]});
        if (ks.size() == 2) return x.project({vs[0], vs[1]});
        return x.project({vs[0], vs[1], vs[2]});
    }
  }
  template <bool Fin, class H, class B, class P, class X>
  void one(X x, V const& base, Rng& r, Gen& g, char const* rep) {
    std::string key = rep;
    std::string raw0; if (Fin) raw0 = bytes_of(x);
    X keep = x;
    V cur = base;
    // chains of operations
    size_t steps = 1 + r.below(4);
    for (size_t n = 0; n < steps; ++n) {
      if (r.chance(3, 5)) {
        Pairs ps = pairs_for(cur, r, g);
        bool dup = duplicated(ps);
        if (Fin && dup) {
          // A finalized packet is built from the pairs first, which have to be distinct
          VT_CHECK(throws<std::exception>([&] { inject_any<H, B, P>(x, ps, r); }, "inject:duplicates"), key + ":inject-duplicates", "accepted " + show(cur, 200));
          VT_SAME(cur, read(x), key + ":inject-base"); count("duplicates");
          continue;
        }
        V want = overlay(cur, ps);
        if (overlap(cur, ps)) count("inject-replaces");
        if (want.o.size() > cur.o.size()) count("inject-adds");
        if (ps.empty()) count("inject-nothing");
        X y = inject_any<H, B, P>(x, ps, r);
        VT_SAME(want, read(y), key + ":inject");
        VT_SAME(cur, read(x), key + ":inject-base");
        if (Fin) well_formed(y, want, "inject");
        x = y; cur = want;
      } else {
        auto ks = keys_for(cur, r, g);
        V want = restrict_to(cur, ks);
        if (want.o.size() < std::set<std::string>(ks.begin(), ks.end()).size()) count("project-missing");
        if (want.o.empty()) count("project-empty");
        X y = project_any(x, ks, r);
        VT_SAME(want, read(y), key + ":project");
        VT_SAME(cur, read(x), key + ":project-base");
        if (Fin) well_formed(y, want, "project");
        if (r.chance(1, 2)) { x = y; cur = want; }
      }
    }
    if (Fin) VT_CHECK(bytes_of(keep) == raw0, key + ":base-bytes", show(base, 200));
    VT_SAME(base, read(keep), key + ":base");
    seen(mix(hash(base) ^ hash(cur) * 7)); count(rep);
    if (want_sample()) sample(show(base, 100) + " to " + show(cur, 100));
  }
  inline V p15_base(Rng& r, Gen& g) { V v = r.chance(1, 15) ? V::obj() : g.object(g.o.depth); return v; }
  inline GenOpt p15_opts(Rng& r) { GenOpt o; o.big = r.chance(1, 8); o.depth = 1 + static_cast<unsigned>(r.below(3)); o.width = 1 + static_cast<unsigned>(r.below(9)); return o; }
}
