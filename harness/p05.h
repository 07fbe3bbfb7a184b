// P05: copies are isolated. A pool of handles sharing storage; after every step every live handle still has its own value.
#pragma once
#include "hist.h"

template <class P>
struct Pool {
  struct Handle { P p; V v; std::string via; };
  Rng& r; Gen& g; Hist h;
  std::vector<Handle> hs;
  Pool(Rng& rng, Gen& gen) : r(rng), g(gen), h(rng, gen) { h.failing = false; }

  size_t pick() { return r.below(hs.size()); }
  void add(P p, V v, char const* via) {
    if (nodes(v) > 400) return;
    if (hs.size() < 9) hs.push_back({std::move(p), std::move(v), via});
    else { auto& x = hs[pick()]; x.p = std::move(p); x.v = std::move(v); x.via = via; }
  }
  void verify(char const* op) {
    for (auto& x : hs) {
      eval();
      V got = read(x.p);
      if (!same(x.v, got)) { Quiet q; fail(std::string("isolation:") + op, "handle obtained by " + x.via + " changed: " + first_difference(x.v, got)); }
      if (r.chance(1, 6) && x.v.k == OBJ) for (auto& e : x.v.o) { P c = x.p[S(e.first)]; VT_SAME(e.second, read(c), "isolation:subscript"); }
    }
  }
  static bool finalized(dart::heap const&) { return false; }
  static bool finalized(dart::unsafe_heap const&) { return false; }
  template <template <class> class RC> static bool finalized(dart::basic_packet<RC> const& p) { return p.is_finalized(); }

  // Some child of a value
  bool child(Handle const& x, P& out, V& v, char const*& via) {
    if (x.v.k == OBJ && !x.v.o.empty()) {
      auto it = x.v.o.begin(); std::advance(it, static_cast<long>(r.below(x.v.o.size()))); v = it->second;
      switch (r.below(6)) {
        case 0: out = x.p[S(it->first)]; via = "subscript"; break;
        case 1: out = x.p.get(S(it->first)); via = "get"; break;
        case 2: out = x.p.at(S(it->first)); via = "at"; break;
        case 3: out = *x.p.find(S(it->first)); via = "iterator"; break;
        case 4: { auto vals = x.p.values(); auto ks = x.p.keys(); size_t n = 0; for (; n < ks.size(); ++n) if (str(ks[n].strv()) == it->first) break; VT_CHECK(n < ks.size() && n < vals.size(), "values:missing", ""); out = vals[n]; via = "values"; break; }
        default: { P kp = P::make_string(S(it->first)); out = x.p.get_or(typename P::string(kp), 1); via = "get_or"; break; }
      }
      return true;
    }
    if (x.v.k == ARR && !x.v.a.empty()) {
      size_t n = r.below(x.v.a.size()); v = x.v.a[n];
      switch (r.below(6)) {
        case 0: out = x.p[n]; via = "index"; break;
        case 1: out = x.p.get(n); via = "get index"; break;
        case 2: { auto it = x.p.begin(); for (size_t k = 0; k < n; ++k) ++it; out = *it; via = "array iterator"; break; }
        case 3: v = x.v.a.front(); out = x.p.front(); via = "front"; break;
        case 4: v = x.v.a.back(); out = x.p.back(); via = "back"; break;
        default: { auto vals = x.p.values(); VT_CHECK(vals.size() == x.v.a.size(), "values:size", ""); out = vals[n]; via = "array values"; break; }
      }
      return true;
    }
    return false;
  }

  void op() {
    if (hs.empty()) { V v = g.value(2); P p = build<P>(v, r); add(std::move(p), v, "build"); return; }
    size_t i = pick(), j = pick();
    switch (r.below(20)) {
      case 0: { V v = g.aggregate(); P p = build<P>(v, r); add(std::move(p), v, "build"); count("build"); break; }
      case 1: { P p(hs[i].p); V v = hs[i].v; add(std::move(p), v, "copy"); count("copy"); break; }
      case 2: { auto v = hs[j].v; hs[i].p = hs[j].p; hs[i].v = v; hs[i].via = "assignment"; count("assign"); break; }
      case 3: { // move, the source is given a new value
        P p(std::move(hs[i].p)); V v = hs[i].v; V nv = g.value(1); hs[i].p = build<P>(nv, r); hs[i].v = nv; hs[i].via = "reassigned after move";
        add(std::move(p), v, "move"); count("move"); break;
      }
      case 4: case 5: { P c; V v; char const* via = ""; if (child(hs[i], c, v, via)) { add(std::move(c), v, via); count("child"); } break; }
      case 6: case 7: { // store one handle inside another
        if (finalized(hs[i].p)) break;
        V w = hs[j].v; if (nodes(w) + nodes(hs[i].v) > 300) break;
        V nv = hs[i].v;
        if (nv.k == OBJ) { auto k = h.key(nv); nv.o[k] = w; if (r.chance(1, 2)) hs[i].p.add_field(S(k), hs[j].p); else hs[i].p.insert(S(k), hs[j].p); }
        else if (nv.k == ARR) { size_t n = r.below(nv.a.size() + 1); nv.a.insert(nv.a.begin() + static_cast<long>(n), w); if (n == 0 && r.chance(1, 2)) hs[i].p.push_front(hs[j].p); else if (n == nv.a.size() - 1 && r.chance(1, 2)) hs[i].p.push_back(hs[j].p); else hs[i].p.insert(n, hs[j].p); }
        else break;
        hs[i].v = nv; count(i == j ? "self-insert" : "insert-handle"); break;
      }
      case 8: { // set an existing member to another handle
        if (finalized(hs[i].p)) break;
        V w = hs[j].v; if (nodes(w) + nodes(hs[i].v) > 300) break;
        if (hs[i].v.k == OBJ && !hs[i].v.o.empty()) { auto it = hs[i].v.o.begin(); std::advance(it, static_cast<long>(r.below(hs[i].v.o.size()))); hs[i].p.set(S(it->first), hs[j].p); it->second = w; count("set-handle"); }
        else if (hs[i].v.k == ARR && !hs[i].v.a.empty()) { size_t n = r.below(hs[i].v.a.size()); hs[i].p.set(n, hs[j].p); hs[i].v.a[n] = w; count("set-handle"); }
        break;
      }
      case 9: wrapper(i); break;
      case 10: special(i); break;
      case 11: if (hs.size() > 2) { hs.erase(hs.begin() + static_cast<long>(i)); count("destroy"); } break;
      case 12: { using std::swap; if (i != j) { swap(hs[i].p, hs[j].p); std::swap(hs[i].v, hs[j].v); count("swap"); } break; }
      case 13: { // resize with a shared filler
        if (finalized(hs[i].p) || hs[i].v.k != ARR) break;
        V w = hs[j].v; size_t n = r.below(hs[i].v.a.size() + 4); if (nodes(w) * 4 + nodes(hs[i].v) > 300) break;
        hs[i].p.resize(n, hs[j].p); hs[i].v.a.resize(n, w); count("resize-shared"); break;
      }
      case 14: { // inject and project give independent objects
        if (hs[i].v.k != OBJ) break;
        V v = hs[i].v;
        if (r.chance(1, 2)) { V w = hs[j].v; if (nodes(w) + nodes(v) > 300) break; P p = hs[i].p.inject("injected", hs[j].p); v.o["injected"] = w; add(std::move(p), v, "inject"); count("inject"); }
        else if (!v.o.empty()) { auto k = v.o.begin()->first; V o = V::obj(); o.o[k] = v.o.begin()->second; std::vector<sv> ks {S(k)}; P p = hs[i].p.project(gsl::span<sv const>(ks.data(), 1)); add(std::move(p), o, "project"); count("project"); }
        break;
      }
      default: // mutate
        if (finalized(hs[i].p)) break;
        step(hs[i].p, hs[i].v, h); count("mutate"); break;
    }
  }
  // Mutation through typed wrappers of a handle's storage
  void wrapper(size_t i) {
    auto v = hs[i].v;
    if (finalized(hs[i].p)) return;
    if (v.k == OBJ) {
      typename P::object o(hs[i].p); typename P::object o2 = o;
      auto k = h.key(v); V x = g.value(1);
      switch (r.below(4)) {
        case 0: o.add_field(S(k), build<P>(x, r)); v.o[k] = x; break;
        case 1: o.insert(S(k), build<P>(x, r)); v.o[k] = x; break;
        case 2: o.remove_field(S(k)); v.o.erase(k); break;
        default: o.clear(); v.o.clear(); break;
      }
      VT_SAME(hs[i].v, read(o2), "isolation:wrapper-copy");
      VT_SAME(v, read(o), "wrapper:value");
      V d = v; P p = o.dynamic(); add(p, d, "object wrapper"); count("wrapper-object");
    } else if (v.k == ARR) {
      typename P::array a(hs[i].p); typename P::array a2 = a;
      V x = g.value(1);
      switch (r.below(6)) {
        case 0: a.push_back(build<P>(x, r)); v.a.push_back(x); break;
        case 1: a.push_front(build<P>(x, r)); v.a.insert(v.a.begin(), x); break;
        case 2: a.pop_back(); if (!v.a.empty()) v.a.pop_back(); break;
        case 3: a.pop_front(); if (!v.a.empty()) v.a.erase(v.a.begin()); break;
        case 4: { size_t n = r.below(v.a.size() + 3); a.resize(n, build<P>(x, r)); v.a.resize(n, x); break; }
        default: a.clear(); v.a.clear(); break;
      }
      VT_SAME(hs[i].v, read(a2), "isolation:wrapper-copy");
      VT_SAME(v, read(a), "wrapper:value");
      P p = a.dynamic(); add(p, v, "array wrapper"); count("wrapper-array");
    } else if (v.k == STR) {
      typename P::string s(hs[i].p); typename P::string s2 = s;
      s += S(std::string("xy")); v.s += "xy";
      VT_SAME(hs[i].v, read(s2), "isolation:wrapper-copy");
      add(P(s.dynamic()), v, "string wrapper"); count("wrapper-string");
    } else if (v.k == INT && v.i > -1000000 && v.i < 1000000) {
      typename P::number s(hs[i].p); typename P::number s2 = s;
      s += 3; v.i += 3;
      VT_SAME(hs[i].v, read(s2), "isolation:wrapper-copy");
      VT_CHECK(s.numeric() == static_cast<double>(v.i), "wrapper:number", ""); count("wrapper-number");
    }
  }
  template <template <class> class RC> void special_impl(dart::basic_packet<RC>&, size_t i) {
    auto& x = hs[i];
    if (x.v.k != OBJ) return;
    switch (r.below(4)) {
      case 0: x.p.finalize(); x.via += ", finalized"; count("finalize"); break;
      case 1: if (x.p.is_finalized()) { x.p.lift(); x.via += ", lifted"; count("lift"); } break;
      case 2: { P f = x.p; f.finalize(); add(f, x.v, "finalized copy"); count("finalized-copy"); break; }
      default:
        if (x.p.is_finalized()) { // refused mutation changes nothing
          bool t = throws<dart::state_error>([&] { if (r.chance(1, 2)) x.p.add_field("a", 1); else x.p.clear(); }, "finalized:mutation");
          VT_CHECK(t, "finalized:mutation-accepted", ""); count("finalized-refused");
        } break;
    }
  }
  template <template <class> class RC> void special_impl(dart::basic_heap<RC>&, size_t i) {
    auto& x = hs[i];
    if (x.v.k != OBJ) return;
    auto b = x.p.lower(); P back = b.lift(); add(back, x.v, "lowered and lifted"); count("finalize");
  }
  void special(size_t i) { special_impl(hs[i].p, i); }
};

template <class P>
static void isolation(Rng& r, char const* tag) {
  GenOpt o; o.depth = 3; o.width = 4; o.big = false;
  Gen g(r, o);
  Pool<P> pool(r, g);
  size_t n = 15 + r.below(60);
  for (size_t k = 0; k < n; ++k) {
    pool.op();
    pool.verify("step");
    for (auto& x : pool.hs) seen(hash(x.v) + hash_bytes(x.via.data(), x.via.size()));
  }
  if (want_sample()) { std::string s; for (auto& x : pool.hs) s += x.via + ": " + show(x.v, 120) + " | "; sample(s); }
  count(tag);
}
