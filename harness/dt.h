// Adapters between reference values and the library's types.
#pragma once
#include "vt.h"
#include <dart.h>

namespace vt {
  using sv = dart::shim::string_view;
  inline sv S(std::string const& s) { return sv(s.data(), s.size()); }
  inline std::string str(sv s) { return std::string(s.data(), s.size()); }

  using dtype = dart::detail::type;
  inline dtype type_of(Kind k) {
    switch (k) {
      case NUL: return dtype::null; case BOOL: return dtype::boolean; case INT: return dtype::integer; case DEC: return dtype::decimal;
      case STR: return dtype::string; case ARR: return dtype::array; default: return dtype::object;
    }
  }

  // Read the value of any packet-like object through iteration and typed accessors.
  template <class P> V read(P const& p, int lim = 4000);
  template <class P> V read_object(P const& p, int lim = 4000) {
        V v = V::obj();
        auto kv = p.kvbegin();
        auto& k = std::get<0>(kv); auto& x = std::get<1>(kv);
        auto end = p.end();
        size_t n = 0, size = p.size();
        while (x != end) {
          if (n++ >= size) fail("read:object-overrun", "iteration passes size()");
          auto kp = *k;
          std::string key = str(kp.strv());
          V val = read(*x, lim - 1);
          if (!v.o.emplace(std::move(key), std::move(val)).second) fail("read:duplicate-key", "object iterates the same key twice");
          ++k; ++x;
        }
        if (n != size) fail("read:object-size", "iterated " + std::to_string(n) + " of " + std::to_string(size));
        return v;
  }
  template <class P> V read_array(P const& p, int lim = 4000) {
        V v = V::arr();
        size_t n = 0, size = p.size();
        auto end = p.end();
        for (auto it = p.begin(); it != end; ++it) {
          if (n++ >= size) fail("read:array-overrun", "iteration passes size()");
          v.a.push_back(read(*it, lim - 1));
        }
        if (n != size) fail("read:array-size", "iterated " + std::to_string(n) + " of " + std::to_string(size));
        return v;
  }
  template <class P> V read(dart::basic_object<P> const& p, int lim = 4000) { return read_object(p, lim); }
  template <class P> V read(dart::basic_array<P> const& p, int lim = 4000) { return read_array(p, lim); }
  template <class P> V read(dart::basic_string<P> const& p, int = 4000) { return V::str(str(p.strv())); }
  template <class P> V read(dart::basic_number<P> const& p, int = 4000) { return p.is_integer() ? V::integer(p.integer()) : V::decimal(p.decimal()); }
  template <class P> V read(dart::basic_flag<P> const& p, int = 4000) { return V::boolean(p.boolean()); }
  template <class P> V read(dart::basic_null<P> const&, int = 4000) { return V::null(); }
  template <class P>
  V read(P const& p, int lim) {
    if (lim <= 0) fail("read:depth", "nesting deeper than anything that was built");
    switch (p.get_type()) {
      case dtype::object: return read_object(p, lim);
      case dtype::array: return read_array(p, lim);
      case dtype::string: return V::str(str(p.strv()));
      case dtype::integer: return V::integer(p.integer());
      case dtype::decimal: return V::decimal(p.decimal());
      case dtype::boolean: return V::boolean(p.boolean());
      case dtype::null: return V::null();
    }
    fail("read:type", "get_type returned an unknown type");
  }

  // Same by subscript / keyed lookup.
  template <class P>
  V read_idx(P const& p, V const& shape) {
    switch (p.get_type()) {
      case dtype::object: {
        V v = V::obj();
        if (shape.k != OBJ) return read(p);
        for (auto& e : shape.o) {
          auto x = p[S(e.first)];
          v.o[e.first] = read_idx(x, e.second);
        }
        return v;
      }
      case dtype::array: {
        V v = V::arr();
        size_t n = p.size();
        for (size_t i = 0; i < n; ++i) {
          auto x = p[i];
          v.a.push_back(read_idx(x, shape.k == ARR && i < shape.a.size() ? shape.a[i] : V::null()));
        }
        return v;
      }
      default: return read(p);
    }
  }

  // Build with a random mixture of routes. P is heap or packet of any counter.
  template <class P>
  P build(V const& v, Rng& r) {
    switch (v.k) {
      case NUL: return r.chance(1, 2) ? P::make_null() : P {};
      case BOOL: return r.chance(1, 2) ? P::make_boolean(v.b) : P(v.b);
      case INT: return r.chance(1, 2) ? P::make_integer(v.i) : P(v.i);
      case DEC: return r.chance(1, 2) ? P::make_decimal(v.d) : P(v.d);
      case STR: {
        switch (r.below(3)) {
          case 0: return P::make_string(S(v.s));
          case 1: { size_t cut = r.below(v.s.size() + 1); return P::make_string(sv(v.s.data(), cut), sv(v.s.data() + cut, v.s.size() - cut)); }
          default: return P(v.s);
        }
      }
      case ARR: {
        auto p = P::make_array();
        if (r.chance(1, 4)) p.reserve(v.a.size() + r.below(4));
        if (r.chance(1, 4)) {
          for (size_t n = v.a.size(); n > 0; --n) p.push_front(build<P>(v.a[n - 1], r));
        } else if (r.chance(1, 4)) {
          for (size_t n = 0; n < v.a.size(); ++n) p.insert(n, build<P>(v.a[n], r));
        } else {
          for (auto& e : v.a) p.push_back(build<P>(e, r));
        }
        return p;
      }
      case OBJ: {
        auto p = P::make_object();
        std::vector<std::string const*> ks;
        for (auto& e : v.o) ks.push_back(&e.first);
        r.shuffle(ks);
        for (auto* k : ks) {
          auto& e = v.o.find(*k)->second;
          switch (r.below(4)) {
            case 0: p.insert(S(*k), build<P>(e, r)); break;
            case 1: p.add_field(S(*k), build<P>(e, r)); break;
            case 2: { auto kp = P::make_string(S(*k)); p.add_field(kp, build<P>(e, r)); break; }
            default: { p.add_field(S(*k), P::make_null()); p.set(S(*k), build<P>(e, r)); break; }
          }
        }
        return p;
      }
    }
    return P {};
  }
  // Plain, single-route build
  template <class P>
  P plain(V const& v) {
    switch (v.k) {
      case NUL: return P::make_null();
      case BOOL: return P::make_boolean(v.b);
      case INT: return P::make_integer(v.i);
      case DEC: return P::make_decimal(v.d);
      case STR: return P::make_string(S(v.s));
      case ARR: { auto p = P::make_array(); for (auto& e : v.a) p.push_back(plain<P>(e)); return p; }
      case OBJ: { auto p = P::make_object(); for (auto& e : v.o) p.add_field(S(e.first), plain<P>(e.second)); return p; }
    }
    return P {};
  }

  inline void expect(V const& want, V const& got, char const* key) {
    eval();
    if (!same(want, got)) { Quiet q; fail(key, "expected " + show(want, 700) + " got " + show(got, 700)); }
  }
  inline std::string first_difference(V const& a, V const& b, std::string path = "$") {
    if (same(a, b)) return "";
    if (a.k != b.k) return path + ": " + kind_name(a.k) + " vs " + kind_name(b.k) + " (" + show(a, 80) + " vs " + show(b, 80) + ")";
    if (a.k == ARR) {
      for (size_t n = 0; n < a.a.size() && n < b.a.size(); ++n) { auto d = first_difference(a.a[n], b.a[n], path + "[" + std::to_string(n) + "]"); if (!d.empty()) return d; }
      return path + ": lengths " + std::to_string(a.a.size()) + " vs " + std::to_string(b.a.size());
    }
    if (a.k == OBJ) {
      for (auto& e : a.o) { auto it = b.o.find(e.first); if (it == b.o.end()) return path + ": missing key " + esc(e.first); auto d = first_difference(e.second, it->second, path + "." + esc(e.first, 20)); if (!d.empty()) return d; }
      for (auto& e : b.o) if (!a.o.count(e.first)) return path + ": extra key " + esc(e.first);
    }
    return path + ": " + show(a, 200) + " vs " + show(b, 200);
  }
#define VT_SAME(want, got, key) do { ::vt::eval(); auto&& vt_w = (want); auto&& vt_g = (got); if (!::vt::same(vt_w, vt_g)) { ::vt::Quiet vt_q; ::vt::fail((key), ::vt::first_difference(vt_w, vt_g)); } } while (0)

  // Does fn throw an E (or derived)? Anything else thrown is a failure.
  template <class E, class F>
  bool throws(F&& fn, char const* key) {
    eval();
    try { fn(); }
    catch (E const&) { return true; }
    catch (Abort const&) { throw; }
    catch (std::exception const& e) { fail(key, std::string("threw another exception: ") + e.what()); }
    return false;
  }
  template <class F>
  bool throws_any(F&& fn) {
    eval();
    try { fn(); } catch (Abort const&) { throw; } catch (std::exception const&) { return true; }
    return false;
  }
}
