// Histories of mutations on dynamic packets, in step with a reference value.
#pragma once
#include "dt.h"
using namespace vt;

struct Hist {
  Rng& r; Gen& g;
  std::vector<std::string> pool;   // keys that recur
  bool failing = true;             // also try operations that have to fail
  explicit Hist(Rng& rng, Gen& gen) : r(rng), g(gen) {
    for (int n = 0; n < 5; ++n) pool.push_back(g.key());
    pool.push_back("a"); pool.push_back("bb"); pool.push_back("");
  }
  std::string key(V const& v) {
    if (v.k == OBJ && !v.o.empty() && r.chance(1, 2)) { auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size()))); return it->first; }
    return r.chance(3, 4) ? r.pick(pool) : g.key();
  }
};

// After an operation on p that returned iterator it: it denotes the member at position f of the model
template <class P, class It>
static void at_object(P const& p, V const& v, It it, Obj::const_iterator f, char const* key, bool keys = false) {
  auto end = keys ? p.key_end() : p.end();
  for (int n = 0; n < 3; ++n) {
    VT_CHECK((it == end) == (f == v.o.end()), key, std::string("iterator end: ") + (it == end ? "at end" : "not at end"));
    if (f == v.o.end()) return;
    auto x = *it;
    if (keys) VT_CHECK(str(x.strv()) == f->first, key, "wrong key at returned iterator");
    else VT_SAME(f->second, read(x), key);
    ++it; ++f;
  }
}
template <class P, class It>
static void at_array(P const& p, V const& v, It it, size_t pos, char const* key) {
  auto end = p.end();
  for (int n = 0; n < 3; ++n) {
    VT_CHECK((it == end) == (pos >= v.a.size()), key, "iterator end");
    if (pos >= v.a.size()) return;
    VT_SAME(v.a[pos], read(*it), key);
    ++it; ++pos;
  }
}

template <class E, class F> static void must_throw(F&& fn, char const* key) {
  bool t = throws<E>(fn, key);
  VT_CHECK(t, key, "accepted");
  count("failing");
}

// Hand a value over in one of many shapes; f is called with something convertible to P that denotes v.
template <class P, class F>
static void with_value(V const& v, Hist& h, F&& f) {
  Rng& r = h.r;
  switch (v.k) {
    case NUL: if (r.chance(1, 2)) { f(nullptr); return; } break;
    case BOOL: if (r.chance(1, 2)) { f(v.b); return; } break;
    case INT: if (r.chance(1, 2)) { f(v.i); return; } break;
    case DEC: if (r.chance(1, 2)) { f(v.d); return; } break;
    case STR:
      if (r.chance(1, 3)) { f(v.s); return; }
      if (r.chance(1, 3)) { f(S(v.s)); return; }
      if (r.chance(1, 4)) { f(typename P::string(P::make_string(S(v.s)))); return; }
      break;
    case ARR: if (r.chance(1, 3)) { f(typename P::array(build<P>(v, r))); return; } break;
    case OBJ: if (r.chance(1, 3)) { f(typename P::object(build<P>(v, r))); return; } break;
  }
  if (r.chance(1, 2)) { f(build<P>(v, r)); return; }
  P x = build<P>(v, r);
  f(x);
  VT_SAME(v, read(x), "argument:changed");
}

// One random mutation of an object
template <class P>
static void step_object(P& p, V& v, Hist& h) {
  Rng& r = h.r;
  std::string k = h.key(v);
  switch (r.below(h.failing ? 17 : 12)) {
    case 0: { V x = h.g.value(1); with_value<P>(x, h, [&](auto&& y) { p.add_field(S(k), std::forward<decltype(y)>(y)); }); v.o[k] = x; count("add_field"); break; }
    case 1: { V x = h.g.value(1); with_value<P>(x, h, [&](auto&& y) { p.add_field(k, std::forward<decltype(y)>(y)); }); v.o[k] = x; count("add_field"); break; }
    case 2: { V x = h.g.value(1); P kp = P::make_string(S(k)); with_value<P>(x, h, [&](auto&& y) { auto it = p.insert(kp, std::forward<decltype(y)>(y)); v.o[k] = x; at_object(p, v, it, v.o.find(k), "insert:iterator"); }); VT_CHECK(str(kp.strv()) == k, "insert:key-changed", ""); count("insert"); break; }
    case 3: { V x = h.g.value(1); with_value<P>(x, h, [&](auto&& y) { auto it = p.insert(S(k), std::forward<decltype(y)>(y)); v.o[k] = x; at_object(p, v, it, v.o.find(k), "insert:iterator"); }); count("insert"); break; }
    case 4: case 5: {
      auto f = v.o.find(k); V x = h.g.value(1);
      if (f == v.o.end()) { must_throw<std::out_of_range>([&] { p.set(S(k), build<P>(x, r)); }, "set:missing"); break; }
      if (r.chance(1, 3)) { auto it = p.set(p.find(S(k)), build<P>(x, r)); f->second = x; at_object(p, v, it, f, "set:by-iterator"); count("set-iterator"); }
      else with_value<P>(x, h, [&](auto&& y) { auto it = p.set(S(k), std::forward<decltype(y)>(y)); f->second = x; at_object(p, v, it, f, "set:iterator"); });
      count("set"); break;
    }
    case 6: case 7: {
      auto f = v.o.find(k); auto nx = f == v.o.end() ? f : std::next(f);
      if (f != v.o.end() && r.chance(1, 3)) {
        bool bykey = r.chance(1, 3);
        auto it = bykey ? p.erase(p.find_key(S(k))) : p.erase(p.find(S(k)));
        v.o.erase(f); at_object(p, v, it, nx, "erase:by-iterator", bykey); count("erase-iterator");
      } else {
        auto it = p.erase(S(k));
        if (f != v.o.end()) v.o.erase(f);
        at_object(p, v, it, nx, "erase:iterator");
      }
      count("erase"); break;
    }
    case 8: { p.remove_field(S(k)); v.o.erase(k); count("remove_field"); break; }
    case 9: if (r.chance(1, 6)) { p.clear(); v.o.clear(); count("clear"); } else { P t = P::make_string(S(k)); p.remove_field(typename P::string(t)); v.o.erase(k); } break;
    case 10: { // chained, on a temporary
      V x = h.g.scalar(), y = h.g.scalar(); std::string k2 = h.key(v);
      p = std::move(p).add_field(S(k), build<P>(x, r)).add_field(S(k2), build<P>(y, r)).remove_field(S(k));
      v.o[k] = x; v.o[k2] = y; v.o.erase(k); count("chained"); break;
    }
    case 11: { // a nested member is taken out, changed and put back
      if (v.o.empty()) break;
      auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size())));
      if (it->second.k != OBJ && it->second.k != ARR) break;
      P c = p[S(it->first)]; V old = it->second, nv = old;
      if (nv.k == OBJ) { c.add_field("n", 5); nv.o["n"] = V::integer(5); } else { c.push_back(5); nv.a.push_back(V::integer(5)); }
      VT_SAME(v, read(p), "nested:isolation");
      p.set(S(it->first), c); it->second = nv; count("nested"); break;
    }
    // Errors leave everything as it was
    case 12: must_throw<dart::type_error>([&] { p.push_back(1); }, "object:push_back"); break;
    case 13: if (r.chance(1, 2)) must_throw<dart::type_error>([&] { p.insert(7, "x"); }, "object:insert-index"); else must_throw<dart::type_error>([&] { p.insert(P::make_null(), "x"); }, "object:insert-null-key"); break;
    case 14: if (r.chance(1, 2)) must_throw<dart::type_error>([&] { p.erase(size_t(0)); }, "object:erase-index"); else must_throw<dart::type_error>([&] { p.set(0, "x"); }, "object:set-index"); break;
    case 15: if (r.chance(1, 2)) must_throw<dart::type_error>([&] { p.reserve(3); }, "object:reserve"); else must_throw<dart::type_error>([&] { p.resize(3); }, "object:resize"); break;
    default: { std::string big(65536 + r.below(3), 'k'); must_throw<std::invalid_argument>([&] { p.add_field(S(big), 1); }, "object:oversized-key"); break; }
  }
}

template <class P>
static void step_array(P& p, V& v, Hist& h) {
  Rng& r = h.r;
  size_t n = v.a.size();
  size_t pos = r.below(n + 1);
  V x = h.g.value(1);
  switch (r.below(h.failing ? 22 : 16)) {
    case 0: case 1: with_value<P>(x, h, [&](auto&& y) { p.push_back(std::forward<decltype(y)>(y)); }); v.a.push_back(x); count("push_back"); break;
    case 2: with_value<P>(x, h, [&](auto&& y) { p.push_front(std::forward<decltype(y)>(y)); }); v.a.insert(v.a.begin(), x); count("push_front"); break;
    case 3: p.pop_back(); if (n) v.a.pop_back(); else count("pop-empty"); count("pop_back"); break;
    case 4: p.pop_front(); if (n) v.a.erase(v.a.begin()); else count("pop-empty"); count("pop_front"); break;
    case 5: case 6:
      with_value<P>(x, h, [&](auto&& y) { auto it = p.insert(pos, std::forward<decltype(y)>(y)); v.a.insert(v.a.begin() + static_cast<long>(pos), x); at_array(p, v, it, pos, "array-insert:iterator"); });
      count("array-insert"); break;
    case 7: { auto it = p.begin(); for (size_t k = 0; k < pos; ++k) ++it; auto ret = p.insert(it, build<P>(x, r)); v.a.insert(v.a.begin() + static_cast<long>(pos), x); at_array(p, v, ret, pos, "array-insert:by-iterator"); count("array-insert-iterator"); break; }
    case 8: case 9:
      if (pos < n) with_value<P>(x, h, [&](auto&& y) { auto it = p.set(pos, std::forward<decltype(y)>(y)); v.a[pos] = x; at_array(p, v, it, pos, "array-set:iterator"); });
      count("array-set"); break;
    case 10: if (pos < n) { auto it = p.begin(); for (size_t k = 0; k < pos; ++k) ++it; auto ret = p.set(it, build<P>(x, r)); v.a[pos] = x; at_array(p, v, ret, pos, "array-set:by-iterator"); } break;
    case 11: case 12: {
      size_t e = r.chance(1, 6) ? n + r.below(3) : pos;
      auto it = p.erase(e);
      if (e < n) { v.a.erase(v.a.begin() + static_cast<long>(e)); at_array(p, v, it, e, "array-erase:iterator"); } else VT_CHECK(it == p.end(), "array-erase:past-end", "");
      count("array-erase"); break;
    }
    case 13: if (pos < n) { auto it = p.begin(); for (size_t k = 0; k < pos; ++k) ++it; auto ret = p.erase(it); v.a.erase(v.a.begin() + static_cast<long>(pos)); at_array(p, v, ret, pos, "array-erase:by-iterator"); count("array-erase-iterator"); } break;
    case 14: {
      size_t m = r.below(n + 6);
      if (r.chance(1, 2)) { p.resize(m); v.a.resize(m); } else { p.resize(m, build<P>(x, r)); v.a.resize(m, x); }
      count("resize"); break;
    }
    case 15:
      if (r.chance(1, 5)) { p.clear(); v.a.clear(); count("array-clear"); }
      else if (r.chance(1, 2)) { size_t c = r.below(50); p.reserve(c); VT_CHECK(p.capacity() >= c, "reserve:capacity", std::to_string(p.capacity()) + " < " + std::to_string(c)); count("reserve"); }
      else { p = std::move(p).push_back(build<P>(x, r)).push_front(1).pop_back().push_back(build<P>(x, r)); v.a.push_back(x); v.a.insert(v.a.begin(), V::integer(1)); count("array-chained"); }
      break;
    case 16: must_throw<std::out_of_range>([&] { p.insert(n + 1 + r.below(4), build<P>(x, r)); }, "array:insert-past-end"); break;
    case 17: must_throw<std::out_of_range>([&] { p.set(n + r.below(4), build<P>(x, r)); }, "array:set-past-end"); break;
    case 18: must_throw<dart::type_error>([&] { p.add_field("a", 1); }, "array:add_field"); break;
    case 19: must_throw<dart::type_error>([&] { p.set("a", 1); }, "array:set-key"); break;
    case 20: must_throw<dart::type_error>([&] { p.erase(sv("a")); }, "array:erase-key"); break;
    default: must_throw<dart::type_error>([&] { p.insert(P::make_boolean(true), 1); }, "array:insert-bool-index"); break;
  }
}
template <class P>
static void step(P& p, V& v, Hist& h) {
  if (v.k == OBJ) step_object(p, v, h);
  else if (v.k == ARR) step_array(p, v, h);
  else { // scalars: everything structural is refused
    Rng& r = h.r;
    switch (r.below(8)) {
      case 0: must_throw<dart::type_error>([&] { p.add_field("a", 1); }, "scalar:add_field"); break;
      case 1: must_throw<dart::type_error>([&] { p.push_back(1); }, "scalar:push_back"); break;
      case 2: must_throw<dart::type_error>([&] { p.erase(sv("a")); }, "scalar:erase"); break;
      case 3: must_throw<dart::type_error>([&] { p.clear(); }, "scalar:clear"); break;
      case 4: must_throw<dart::type_error>([&] { p.reserve(1); }, "scalar:reserve"); break;
      default: { V x = h.g.value(2); p = build<P>(x, r); v = x; count("reassign"); break; }
    }
  }
}
// Consistency of the queries with the model
template <class P>
static void consistent(P const& p, V const& v) {
  VT_SAME(v, read(p), "value");
  if (v.k == OBJ) VT_CHECK(p.size() == v.o.size() && p.empty() == v.o.empty(), "size", "");
  if (v.k == ARR) VT_CHECK(p.size() == v.a.size() && p.empty() == v.a.empty() && p.capacity() >= v.a.size(), "size", "");
}
