// P14: iteration.
#pragma once
#include "dt.h"
#include "hist.h"

namespace vt {
  // The members of an aggregate in the order they have to be visited
  inline std::vector<V> members(V const& v) {
    if (v.k == ARR) return v.a;
    std::vector<V> m;
    for (auto& e : v.o) m.push_back(e.second);
    return m;
  }
  inline std::vector<V> keys_of(V const& v) {
    std::vector<V> m;
    for (auto& e : v.o) m.push_back(V::str(e.first));
    return m;
  }
  inline std::vector<V> reversed(std::vector<V> m) { std::reverse(m.begin(), m.end()); return m; }
  inline void match(std::vector<V> const& want, std::vector<V> const& got, char const* rep, char const* route) {
    eval();
    bool ok = want.size() == got.size();
    for (size_t n = 0; ok && n < want.size(); ++n) ok = same(want[n], got[n]);
    if (!ok) {
      Quiet q;
      V a = V::arr(), b = V::arr(); a.a = want; b.a = got;
      fail(std::string("order:") + route, std::string(rep) + " " + first_difference(a, b));
    }
    count("walks");
  }
  template <class It>
  std::vector<V> gather(It a, It b, size_t limit, char const* route) {
    std::vector<V> out;
    for (; a != b; ++a) {
      if (out.size() > limit) fail(std::string("overrun:") + route, "more steps than size()");
      out.push_back(read(*a));
    }
    eval(); if (!(a == b)) fail(std::string("end:") + route, "!= and == disagree at the end");
    return out;
  }
  // A random walk over the positions, checked against the index it should be at.
  template <class It>
  void wander(It const& first, It const& last, std::vector<V> const& m, Rng& r, char const* rep, char const* route) {
    auto bad = [&](char const* what, size_t at) { Quiet q; fail(std::string(what) + ":" + route, std::string(rep) + " at " + std::to_string(at) + " of " + std::to_string(m.size())); };
    bool back = r.chance(1, 2);
    size_t at = back ? m.size() : 0;
    It it = back ? last : first;
    std::vector<std::pair<It, size_t>> marks;
    for (size_t n = 6 + r.below(20); n > 0; --n) {
      eval();
      if ((it == last) != (at == m.size()) || (it != last) == (at == m.size())) bad("at-end", at);
      if ((it == first) != (at == 0)) bad("at-begin", at);
      if (at < m.size() && !same(read(*it), m[at])) bad("deref", at);
      if (at < m.size() && r.chance(1, 4) && !same(read(it.operator ->()), m[at])) bad("arrow", at);
      for (auto& k : marks) if ((k.first == it) != (k.second == at) || (k.first != it) == (k.second == at)) bad("compare", at);
      unsigned op = static_cast<unsigned>(r.below(7));
      if (op < 3 && at < m.size()) {
        if (r.chance(1, 2)) { auto& q = ++it; if (&q != &it) bad("preinc-ref", at); ++at; }
        else { auto old = it++; if (!same(read(*old), m[at])) bad("postinc", at); ++at; }
      } else if (op < 5 && at > 0) {
        if (r.chance(1, 2)) { auto& q = --it; if (&q != &it) bad("predec-ref", at); --at; }
        else { auto old = it--; if (!(old != it)) bad("postdec", at); if (at < m.size() && !same(read(*old), m[at])) bad("postdec-value", at); --at; }
      } else if (op == 5) {
        if (marks.size() < 6) marks.emplace_back(it, at);
        It c; c = it; it = std::move(c);
      } else if (!marks.empty()) {
        auto& k = r.pick(marks); it = k.first; at = k.second;
      }
      count("steps");
    }
  }
  template <class X>
  void walk(X const& x, V const& v, Rng& r, char const* rep) {
    auto m = members(v); size_t n = m.size(), lim = n + 1;
    eval(); if (x.size() != n || x.empty() != (n == 0)) fail("size", rep);
    match(m, gather(x.begin(), x.end(), lim, "begin"), rep, "begin");
    match(m, gather(x.cbegin(), x.cend(), lim, "cbegin"), rep, "cbegin");
    match(reversed(m), gather(x.rbegin(), x.rend(), lim, "rbegin"), rep, "rbegin");
    match(reversed(m), gather(x.crbegin(), x.crend(), lim, "crbegin"), rep, "crbegin");
    { std::vector<V> out; for (auto e : x) { if (out.size() > lim) fail("overrun:range-for", rep); out.push_back(read(e)); } match(m, out, rep, "range-for"); }
    { std::vector<V> out; auto i = x.end(); auto b = x.begin(); while (i != b) { if (out.size() > lim) fail("overrun:backwards", rep); --i; out.push_back(read(*i)); } match(reversed(m), out, rep, "backwards"); }
    { std::vector<V> out; for (auto& e : x.values()) out.push_back(read(e)); match(m, out, rep, "values"); }
    eval(); if (static_cast<size_t>(std::distance(x.begin(), x.end())) != n) fail("distance", rep);
    wander(x.begin(), x.end(), m, r, rep, "values");
  }
  template <class X>
  void walk_keys(X const& x, V const& v, Rng& r, char const* rep) {
    auto m = members(v), ks = keys_of(v); size_t n = m.size(), lim = n + 1;
    match(ks, gather(x.key_begin(), x.key_end(), lim, "key_begin"), rep, "key_begin");
    match(reversed(ks), gather(x.rkey_begin(), x.rkey_end(), lim, "rkey_begin"), rep, "rkey_begin");
    { std::vector<V> out; for (auto& e : x.keys()) out.push_back(read(e)); match(ks, out, rep, "keys"); }
    wander(x.key_begin(), x.key_end(), ks, r, rep, "keys");
    // keys and values in step, both ways, and each pair looked up again
    {
      auto a = x.kvbegin(); auto b = x.kvend(); std::vector<V> ko, vo;
      while (std::get<0>(a) != std::get<0>(b)) {
        if (ko.size() > lim) fail("overrun:kvbegin", rep);
        eval(); if (std::get<1>(a) == std::get<1>(b)) fail("kv:values-end-early", rep);
        ko.push_back(read(*std::get<0>(a))); vo.push_back(read(*std::get<1>(a)));
        if (r.chance(1, 3)) VT_SAME(vo.back(), read(x[S(ko.back().s)]), "kv:lookup");
        ++std::get<0>(a); ++std::get<1>(a);
      }
      eval(); if (std::get<1>(a) != std::get<1>(b)) fail("kv:values-end-late", rep);
      match(ks, ko, rep, "kv-keys"); match(m, vo, rep, "kv-values");
    }
    {
      auto a = x.rkvbegin(); auto b = x.rkvend(); std::vector<V> ko, vo;
      while (std::get<0>(a) != std::get<0>(b)) {
        if (ko.size() > lim) fail("overrun:rkvbegin", rep);
        ko.push_back(read(*std::get<0>(a))); vo.push_back(read(*std::get<1>(a)));
        ++std::get<0>(a); ++std::get<1>(a);
      }
      eval(); if (std::get<1>(a) != std::get<1>(b)) fail("rkv:values-end", rep);
      match(reversed(ks), ko, rep, "rkv-keys"); match(reversed(m), vo, rep, "rkv-values");
    }
    // a search lands where iteration would
    if (n) {
      size_t at = r.below(n);
      auto it = x.find(S(ks[at].s)); auto kt = x.find_key(S(ks[at].s));
      std::vector<V> tail(m.begin() + static_cast<long>(at), m.end()), ktail(ks.begin() + static_cast<long>(at), ks.end());
      match(tail, gather(it, x.end(), lim, "find"), rep, "find"); match(ktail, gather(kt, x.key_end(), lim, "find_key"), rep, "find_key");
      std::vector<V> head; auto b = x.begin(); while (it != b) { if (head.size() > lim) fail("overrun:find-back", rep); --it; head.push_back(read(*it)); }
      match(reversed(std::vector<V>(m.begin(), m.begin() + static_cast<long>(at))), head, rep, "find-back");
    }
  }
  template <class X>
  void both(X const& x, V const& v, Rng& r, char const* rep) {
    walk(x, v, r, rep);
    if (v.k == OBJ) walk_keys(x, v, r, rep);
    if (v.k == OBJ) { dart::basic_object<X> w(x); walk(w, v, r, rep); walk_keys(w, v, r, rep); count("wrapper"); }
    else { dart::basic_array<X> w(x); walk(w, v, r, rep); count("wrapper"); }
    seen(mix(hash(v) ^ hash_bytes(rep, strlen(rep)))); count(rep);
  }
  inline V p14_value(Rng& r) {
    GenOpt o; o.big = r.chance(1, 8); o.depth = 1 + static_cast<unsigned>(r.below(2)); o.width = 1 + static_cast<unsigned>(r.below(12));
    Gen g(r, o);
    V v = g.aggregate();
    count(v.k == OBJ ? "object" : "array");
    if (members(v).empty()) count("empty");
    if (members(v).size() > 20) count("wide");
    return v;
  }
}
