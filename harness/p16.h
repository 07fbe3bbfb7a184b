// P16: conversions between packets and native values.
// Nat<T> is an independent description of how T is denoted: make, val (the denoted value), eq (does T denote v), cast (read v as T, or refuse).
#pragma once
#include "dt.h"
#include "hist.h"
#include <array>
#include <deque>
#include <list>
#include <forward_list>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <tuple>
#include <chrono>
#include <ctime>

namespace vt {
  inline bool& vague() { static bool b = false; return b; }     // the last cast has no defined outcome
  template <class T, class = void> struct Nat;
  template <class T> using Ptr = std::unique_ptr<T>;
  template <class T> Ptr<T> some(T t) { return Ptr<T>(new T(std::move(t))); }
  struct Refuse {};
  struct Name;

  template <class T>
  struct Nat<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static T make(Rng& r, Gen& g) {
      switch (r.below(4)) { case 0: return std::numeric_limits<T>::min(); case 1: return static_cast<T>(static_cast<uint64_t>(std::numeric_limits<T>::max()) > static_cast<uint64_t>(INT64_MAX) ? static_cast<T>(INT64_MAX) : std::numeric_limits<T>::max()); case 2: return static_cast<T>(r.below(100)); default: break; }
      int64_t x = g.integer(); T t = static_cast<T>(x); if (std::is_same<T, uint64_t>::value && x < 0) t = static_cast<T>(-(x + 1)); return t;
    }
    static V val(T t) { return V::integer(static_cast<int64_t>(t)); }
    static bool eq(T t, V const& v) { return v.k == INT ? v.i == static_cast<int64_t>(t) : v.k == DEC ? v.d == static_cast<double>(static_cast<int64_t>(t)) : false; }
    static T cast(V const& v) { if (v.k != INT) throw Refuse {}; if (static_cast<int64_t>(static_cast<T>(v.i)) != v.i || (v.i < 0) != (static_cast<T>(v.i) < T(0))) vague() = true; return static_cast<T>(v.i); }
  };
  template <class T>
  struct Nat<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T make(Rng&, Gen& g) { double d = g.decimal(); if (std::fabs(d) > static_cast<double>(std::numeric_limits<T>::max())) d = 0.5; T t = static_cast<T>(d); return t == 0 ? T(0) : t; }
    static V val(T t) { return V::decimal(static_cast<double>(t)); }
    static bool eq(T t, V const& v) { return v.k == INT ? static_cast<double>(v.i) == static_cast<double>(t) : v.k == DEC ? v.d == static_cast<double>(t) : false; }
    static T cast(V const& v) { if (v.k != DEC) throw Refuse {}; if (std::fabs(v.d) > static_cast<double>(std::numeric_limits<T>::max())) { vague() = true; return T(); } return static_cast<T>(v.d); }
  };
  template <> struct Nat<bool> {
    static bool make(Rng& r, Gen&) { return r.chance(1, 2); }
    static V val(bool t) { return V::boolean(t); }
    static bool eq(bool t, V const& v) { return v.k == BOOL && v.b == t; }
    static bool cast(V const& v) { return v.k == BOOL ? v.b : v.k != NUL; }     // truthiness, as everywhere in the library
  };
  template <> struct Nat<std::string> {
    static std::string make(Rng&, Gen& g) { return g.string(); }
    static V val(std::string const& t) { return V::str(t); }
    static bool eq(std::string const& t, V const& v) { return v.k == STR && v.s == t; }
    static std::string cast(V const& v) { if (v.k != STR) throw Refuse {}; return v.s; }
  };
  template <> struct Nat<std::nullptr_t> {
    static std::nullptr_t make(Rng&, Gen&) { return nullptr; }
    static V val(std::nullptr_t) { return V::null(); }
    static bool eq(std::nullptr_t, V const& v) { return v.k == NUL; }
    static std::nullptr_t cast(V const& v) { if (v.k != NUL) throw Refuse {}; return nullptr; }
  };
  // Sequences
  template <class C> struct Seq {
    using E = typename C::value_type;
    static C make(Rng& r, Gen& g) { std::vector<E> m; for (size_t n = r.below(5); n > 0; --n) m.push_back(Nat<E>::make(r, g)); return C(m.begin(), m.end()); }
    static V val(C const& c) { V v = V::arr(); for (auto& e : c) v.a.push_back(Nat<E>::val(e)); return v; }
    static bool eq(C const& c, V const& v) { if (v.k != ARR) return false; auto i = c.begin(); for (auto& e : v.a) { if (i == c.end() || !Nat<E>::eq(*i, e)) return false; ++i; } return i == c.end(); }
    static C cast(V const& v) { if (v.k != ARR) throw Refuse {}; std::vector<E> m; for (auto& e : v.a) m.push_back(Nat<E>::cast(e)); return C(m.begin(), m.end()); }
  };
  template <class T> struct Nat<std::vector<T>> : Seq<std::vector<T>> {};
  template <class T> struct Nat<std::deque<T>> : Seq<std::deque<T>> {};
  template <class T> struct Nat<std::list<T>> : Seq<std::list<T>> {};
  template <class T> struct Nat<std::forward_list<T>> : Seq<std::forward_list<T>> {};
  template <class T, size_t N> struct Nat<std::array<T, N>> {
    static std::array<T, N> make(Rng& r, Gen& g) { std::array<T, N> a; for (auto& e : a) e = Nat<T>::make(r, g); return a; }
    static V val(std::array<T, N> const& c) { V v = V::arr(); for (auto& e : c) v.a.push_back(Nat<T>::val(e)); return v; }
    static bool eq(std::array<T, N> const& c, V const& v) { if (v.k != ARR || v.a.size() != N) return false; for (size_t n = 0; n < N; ++n) if (!Nat<T>::eq(c[n], v.a[n])) return false; return true; }
    static std::array<T, N> cast(V const& v) { if (v.k != ARR || v.a.size() != N) throw Refuse {}; std::array<T, N> a; for (size_t n = 0; n < N; ++n) a[n] = Nat<T>::cast(v.a[n]); return a; }
  };
  // Sets: an array holding the members, in whatever order
  template <class C> struct Bag : Seq<C> {
    using E = typename C::value_type;
    static bool eq(C const& c, V const& v) {
      if (v.k != ARR) return false;
      std::vector<bool> used(v.a.size()); size_t n = 0;
      for (auto& e : c) { size_t i = 0; while (i < v.a.size() && (used[i] || !Nat<E>::eq(e, v.a[i]))) ++i; if (i == v.a.size()) return false; used[i] = true; ++n; }
      return n == v.a.size();
    }
  };
  template <class T> struct Nat<std::set<T>> : Bag<std::set<T>> {};
  template <class T> struct Nat<std::unordered_set<T>> : Bag<std::unordered_set<T>> {};
  template <class T> struct Nat<std::multiset<T>> : Bag<std::multiset<T>> {};
  template <class T> struct Nat<std::unordered_multiset<T>> : Bag<std::unordered_multiset<T>> {};
  // Maps
  template <class M> struct Dict {
    using T = typename M::mapped_type;
    static M make(Rng& r, Gen& g) { M m; for (auto& k : g.keys(r.below(5))) m.emplace(k, Nat<T>::make(r, g)); return m; }
    static V val(M const& m) { V v = V::obj(); for (auto& e : m) v.o[e.first] = Nat<T>::val(e.second); return v; }
    static bool eq(M const& m, V const& v) { if (v.k != OBJ || v.o.size() != m.size()) return false; for (auto& e : m) { auto it = v.o.find(e.first); if (it == v.o.end() || !Nat<T>::eq(e.second, it->second)) return false; } return true; }
    static M cast(V const& v) { if (v.k != OBJ) throw Refuse {}; M m; for (auto& e : v.o) m.emplace(e.first, Nat<T>::cast(e.second)); return m; }
  };
  template <class M> struct Named : Dict<std::map<std::string, typename M::mapped_type>> {
    using Plain = Dict<std::map<std::string, typename M::mapped_type>>; using PM = std::map<std::string, typename M::mapped_type>;
    static PM down(M const& m) { PM o; for (auto& e : m) o.emplace(e.first.s, e.second); return o; }
    static M up(PM const& m) { M o; for (auto& e : m) o.emplace(Name {e.first}, e.second); return o; }
    static M make(Rng& r, Gen& g) { return up(Plain::make(r, g)); }
    static V val(M const& m) { return Plain::val(down(m)); }
    static bool eq(M const& m, V const& v) { return Plain::eq(down(m), v); }
    static M cast(V const& v) { return up(Plain::cast(v)); }
  };
  template <class T> struct Nat<std::map<std::string, T>> : Dict<std::map<std::string, T>> {};
  template <class T> struct Nat<std::unordered_map<std::string, T>> : Dict<std::unordered_map<std::string, T>> {};
  template <class M> struct Multi {
    using T = typename M::mapped_type;
    static M make(Rng& r, Gen& g) { M m; for (auto& k : g.keys(r.below(4))) for (size_t n = 1 + r.below(3); n > 0; --n) m.emplace(k, Nat<T>::make(r, g)); return m; }
    static V val(M const& m) { V v = V::obj(); for (auto& e : m) { auto& a = v.o[e.first]; if (a.k != ARR) a = V::arr(); a.a.push_back(Nat<T>::val(e.second)); } return v; }
    static bool eq(M const& m, V const& v) {
      if (v.k != OBJ) return false;
      for (auto& o : v.o) {
        if (o.second.k != ARR) return false;
        auto range = m.equal_range(o.first); std::vector<bool> used(o.second.a.size()); size_t n = 0;
        for (auto it = range.first; it != range.second; ++it, ++n) { size_t i = 0; while (i < used.size() && (used[i] || !Nat<T>::eq(it->second, o.second.a[i]))) ++i; if (i == used.size()) return false; used[i] = true; }
        if (n != used.size()) return false;
        if (!n) return false;      // a key the map does not have
      }
      for (auto& e : m) if (!v.o.count(e.first)) return false;
      return true;
    }
    static M cast(V const& v) { if (v.k != OBJ) throw Refuse {}; M m; for (auto& e : v.o) { if (e.second.k == ARR) for (auto& x : e.second.a) m.emplace(e.first, Nat<T>::cast(x)); else m.emplace(e.first, Nat<T>::cast(e.second)); } return m; }
  };
  template <class T> struct Nat<std::multimap<std::string, T>> : Multi<std::multimap<std::string, T>> {};
  template <class T> struct Nat<std::unordered_multimap<std::string, T>> : Multi<std::unordered_multimap<std::string, T>> {};
  // Products and sums
  template <class A, class B> struct Nat<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static T make(Rng& r, Gen& g) { A a = Nat<A>::make(r, g); return T(a, Nat<B>::make(r, g)); }
    static V val(T const& t) { V v = V::arr(); v.a.push_back(Nat<A>::val(t.first)); v.a.push_back(Nat<B>::val(t.second)); return v; }
    static bool eq(T const& t, V const& v) { return v.k == ARR && v.a.size() == 2 && Nat<A>::eq(t.first, v.a[0]) && Nat<B>::eq(t.second, v.a[1]); }
    static T cast(V const& v) { if (v.k != ARR || v.a.size() != 2) throw Refuse {}; return T(Nat<A>::cast(v.a[0]), Nat<B>::cast(v.a[1])); }
  };
  template <class A, class B, class C> struct Nat<std::tuple<A, B, C>> {
    using T = std::tuple<A, B, C>;
    static T make(Rng& r, Gen& g) { A a = Nat<A>::make(r, g); B b = Nat<B>::make(r, g); return T(a, b, Nat<C>::make(r, g)); }
    static V val(T const& t) { V v = V::arr(); v.a.push_back(Nat<A>::val(std::get<0>(t))); v.a.push_back(Nat<B>::val(std::get<1>(t))); v.a.push_back(Nat<C>::val(std::get<2>(t))); return v; }
    static bool eq(T const& t, V const& v) { return v.k == ARR && v.a.size() == 3 && Nat<A>::eq(std::get<0>(t), v.a[0]) && Nat<B>::eq(std::get<1>(t), v.a[1]) && Nat<C>::eq(std::get<2>(t), v.a[2]); }
    static T cast(V const& v) { if (v.k != ARR || v.a.size() != 3) throw Refuse {}; return T(Nat<A>::cast(v.a[0]), Nat<B>::cast(v.a[1]), Nat<C>::cast(v.a[2])); }
  };
  template <class A> struct Nat<dart::shim::optional<A>> {
    using T = dart::shim::optional<A>;
    static T make(Rng& r, Gen& g) { if (r.chance(1, 3)) return T(); return T(Nat<A>::make(r, g)); }
    static V val(T const& t) { return t ? Nat<A>::val(*t) : V::null(); }
    static bool eq(T const& t, V const& v) { return t ? Nat<A>::eq(*t, v) : v.k == NUL; }
    static T cast(V const& v) { if (v.k == NUL) return T(); return T(Nat<A>::cast(v)); }
  };
  template <class A, class B, class C> struct Nat<dart::shim::variant<A, B, C>> {
    using T = dart::shim::variant<A, B, C>;
    static T make(Rng& r, Gen& g) { switch (r.below(3)) { case 0: return T(Nat<A>::make(r, g)); case 1: return T(Nat<B>::make(r, g)); default: return T(Nat<C>::make(r, g)); } }
    static V val(T const& t) { if (auto* a = dart::shim::get_if<A>(&t)) return Nat<A>::val(*a); if (auto* b = dart::shim::get_if<B>(&t)) return Nat<B>::val(*b); return Nat<C>::val(*dart::shim::get_if<C>(&t)); }
    static bool eq(T const& t, V const& v) { if (auto* a = dart::shim::get_if<A>(&t)) return Nat<A>::eq(*a, v); if (auto* b = dart::shim::get_if<B>(&t)) return Nat<B>::eq(*b, v); return Nat<C>::eq(*dart::shim::get_if<C>(&t), v); }
    static T cast(V const& v) { try { return T(Nat<A>::cast(v)); } catch (Refuse) {} try { return T(Nat<B>::cast(v)); } catch (Refuse) {} return T(Nat<C>::cast(v)); }
  };
  // Points in time, to the second
  template <class D> struct Nat<std::chrono::time_point<std::chrono::system_clock, D>> {
    using T = std::chrono::time_point<std::chrono::system_clock, D>;
    static T make(Rng& r, Gen&) {
      std::chrono::seconds s(r.chance(1, 4) ? r.range(-86400 * 3, 86400 * 3) : r.range(-9000000000LL, 9000000000LL));
      return T(std::chrono::duration_cast<D>(s));
    }
    template <class U> static std::string text(U t) {
      // civil date from days, by the usual calendar arithmetic
      int64_t s = std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count();
      int64_t days = s / 86400, sec = s % 86400; if (sec < 0) { sec += 86400; --days; }
      int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
      int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
      char b[96]; snprintf(b, sizeof b, "%04lld-%02lld-%02lldT%02lld:%02lld:%02lld.000Z", static_cast<long long>(y), static_cast<long long>(m), static_cast<long long>(d), static_cast<long long>(sec / 3600), static_cast<long long>(sec / 60 % 60), static_cast<long long>(sec % 60));
      return b;
    }
    static V val(T t) { return V::str(text(t)); }
    static bool eq(T t, V const& v) { return v.k == STR && v.s == text(t); }
    static T cast(V const& v) {
      if (v.k != STR) throw Refuse {};
      int y, mo, d, h, mi, s; char z;
      if (sscanf(v.s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d.000%c", &y, &mo, &d, &h, &mi, &s, &z) != 7 || z != 'Z' || v.s.size() != 24) { vague() = true; return T(); }
      for (int64_t lo = -10000000000LL, hi = 10000000000LL; lo <= hi;) {      // search rather than compute
        int64_t mid = lo + (hi - lo) / 2;
        std::string x = text(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>(std::chrono::seconds(mid)));
        if (x == v.s) { if (mid > 9200000000LL || mid < -9200000000LL) break; return T {std::chrono::duration_cast<D>(std::chrono::seconds(mid))}; } if (x < v.s) lo = mid + 1; else hi = mid - 1;
      }
      vague() = true; return T();
    }
  };
  template <class I, I N> struct Nat<std::integral_constant<I, N>> {
    using T = std::integral_constant<I, N>;
    static T make(Rng&, Gen&) { return T(); }
    static V val(T) { return Nat<I>::val(N); }
    static bool eq(T, V const& v) { if (v.k == DEC) vague() = true; return Nat<I>::eq(N, v); }      // whether 7.0 is 7 is left open
    static T cast(V const& v) { if (!eq(T(), v)) throw Refuse {}; return T(); }
  };
  // A user's own key type: castable to a string packet, but no string itself
  struct Name { std::string s; bool operator <(Name const& o) const { return s < o.s; } bool operator ==(Name const& o) const { return s == o.s; } };
  // A user's own type, taught to the library through its conversion API
  struct Point { int64_t x; std::string name; bool operator ==(Point const& o) const { return x == o.x && name == o.name; } };
}
namespace dart { namespace convert {
  template <> struct conversion_traits<vt::Name> {
    template <class Packet> Packet to_dart(vt::Name const& n) { return Packet::make_string(n.s); }
    template <class Packet> vt::Name from_dart(Packet const& p) { return vt::Name {std::string(p.strv())}; }
    template <class Packet> bool compare(Packet const& p, vt::Name const& n) noexcept { return p.is_str() && p.strv() == n.s; }
  };
  template <> struct conversion_traits<vt::Point> {
    template <class Packet> Packet to_dart(vt::Point const& p) { return Packet::make_object("name", p.name, "x", p.x); }
    template <class Packet> vt::Point from_dart(Packet const& p) { auto n = p["name"]; return vt::Point {p["x"].integer(), std::string(n.strv())}; }
    template <class Packet> bool compare(Packet const& p, vt::Point const& o) noexcept { return p.is_object() && p.size() == 2 && p["x"] == o.x && p["name"] == o.name; }
  };
}}
namespace vt {
  template <> struct Nat<Point> {
    static Point make(Rng&, Gen& g) { return Point {g.integer(), g.string()}; }
    static V val(Point const& p) { V v = V::obj(); v.o["x"] = V::integer(p.x); v.o["name"] = V::str(p.name); return v; }
    static bool eq(Point const& p, V const& v) { return v.k == OBJ && v.o.size() == 2 && v.o.count("x") && v.o.count("name") && Nat<int64_t>::eq(p.x, v.o.at("x")) && Nat<std::string>::eq(p.name, v.o.at("name")); }
    static Point cast(V const& v) { if (v.k != OBJ || !v.o.count("x") || v.o.at("x").k != INT || !v.o.count("name") || v.o.at("name").k != STR) throw Refuse {}; return Point {v.o.at("x").i, v.o.at("name").s}; }
  };

  template <class T> struct Nat<std::map<Name, T>> : Named<std::map<Name, T>> {};
  // x holds v: comparing it with t, either way round, must agree with Nat
  template <class X, class T> struct comparable : dart::convert::are_comparable<T, X> {};
  // integral constants compare through a temporary of the packet's own type, which only the mutable ones can make
  template <class X, class = void> struct makes_integers : std::false_type {};
  template <class X> struct makes_integers<X, decltype(void(X::make_integer(1)))> : std::true_type {};
  template <class X, class I, I N> struct comparable<X, std::integral_constant<I, N>> : makes_integers<X> {};
  // maps compare their members through views, with which maps do not compare
  template <class X, class A> struct comparable<X, std::map<std::string, std::map<std::string, A>>> : std::false_type {};
  template <class X, class T, std::enable_if_t<!comparable<X, T>::value>* = nullptr>
  void agree(X const&, T const&, V const&, char const*, char const*) { count("not-comparable"); }
  template <class X, class T, std::enable_if_t<comparable<X, T>::value>* = nullptr>
  void agree(X const& x, T const& t, V const& v, char const* name, char const* rep) {
    vague() = false;
    bool want = Nat<T>::eq(t, v);
    if (vague()) return;
    eval(4);
    bool e1 = x == t, n1 = x != t, e2 = t == x, n2 = t != x;
    if (e1 != want || n1 == want || e2 != want || n2 == want) { Quiet q; fail(std::string("compare:") + name, std::string(rep) + (want ? " should equal " : " should differ from ") + show(Nat<T>::val(t), 250) + " holding " + show(v, 250) + (e1 ? " ==" : "") + (n1 ? " !=" : "") + (e2 ? " r==" : "") + (n2 ? " r!=" : "")); }
    count(want ? "equal" : "unequal");
  }
  // x holds v: reading it as a T must agree with Nat
  template <class T, class X>
  void cast_agrees(X const& x, V const& v, char const* name, char const* rep) {
    Ptr<T> want; vague() = false;
    { Quiet q; try { want = some<T>(Nat<T>::cast(v)); } catch (Refuse) {} }
    bool open = vague();
    auto one = [&](char const* how, auto&& f) {
      Ptr<T> got; std::string what; bool type = false;
      eval();
      try { got = some<T>(f()); }
      catch (Abort const&) { throw; }
      catch (dart::type_error const& e) { type = true; what = e.what(); }
      catch (std::exception const& e) { what = e.what(); }
      if (open) return;
      Quiet q;
      if (want && !got) fail(std::string("cast:") + name, std::string(rep) + " " + how + " refused: " + what + " for " + show(v, 300));
      if (!want && got) fail(std::string("misread:") + name, std::string(rep) + " " + how + " accepted " + show(v, 300) + " as " + show(Nat<T>::val(*got), 300));
      if (!want && !type) fail(std::string("error:") + name, std::string(rep) + " " + how + " threw another error: " + what + " for " + show(v, 300));
      if (want && !(*want == *got)) fail(std::string("cast-value:") + name, std::string(rep) + " " + how + " read " + show(v, 300) + " as " + show(Nat<T>::val(*got), 300));
      if (!want) count("refused"); else count("cast");
    };
    one("as", [&] { return x.template as<T>(); });
    one("convert::cast", [&] { return dart::convert::cast<T>(x); });
    one("as&&", [&] { X c = x; return std::move(c).template as<T>(); });
    if (!open) { auto m = x.template maybe_as<T>(); eval(); if (static_cast<bool>(m) != static_cast<bool>(want) || (m && !(*m == *want))) { Quiet q; fail(std::string("maybe_as:") + name, std::string(rep) + " for " + show(v, 300)); } }
    VT_SAME(v, read(x), std::string("cast-changed:") + name);
  }
  inline V near_value(V const& v, Rng& r, Gen& g) {
    switch (r.below(6)) {
      case 0: return v;
      case 1: return g.any();
      case 2: { // numbers of the other kind
        V w = v; std::function<bool(V&)> sw = [&](V& x) { if (x.k == INT && x.i > -4000000000000000LL && x.i < 4000000000000000LL) { x = V::decimal(static_cast<double>(x.i)); return true; } if (x.k == DEC && x.d == std::floor(x.d) && std::fabs(x.d) < 1e15) { x = V::integer(static_cast<int64_t>(x.d)); return true; } for (auto& e : x.a) if (sw(e)) return true; for (auto& e : x.o) if (sw(e.second)) return true; return false; };
        sw(w); return w;
      }
      case 3: { V w = v; if (w.k == ARR) r.shuffle(w.a); else if (w.k == OBJ) { for (auto& e : w.o) if (e.second.k == ARR) r.shuffle(e.second.a); } return w; }
      case 4: { // one member swapped for null under another key, as many members as before
        V w = v; if (w.k == OBJ && !w.o.empty()) { w.o.erase(w.o.begin()); w.o[g.text(4)] = r.chance(1, 2) ? V::null() : g.small_scalar(); } else if (w.k == ARR && !w.a.empty()) r.pick(w.a); return w;
      }
      default: return g.mutate(v);
    }
  }
  inline V no_nan(V v) { if (v.k == DEC && (std::isnan(v.d) || v.d == 0)) v.d = 0; for (auto& e : v.a) e = no_nan(e); for (auto& e : v.o) e.second = no_nan(e.second); return v; }
  inline GenOpt p16_opts(Rng& r) { GenOpt o; o.big = r.chance(1, 10); o.depth = 2; o.width = 4; o.negzero = false; return o; }

  template <class H, class B, class P, class T>
  void trip(Rng& r, char const* name) {
    Gen g(r, p16_opts(r));
    T t = Nat<T>::make(r, g);
    V v = Nat<T>::val(t);
    // Native to packet, every way in
    P p(t); VT_SAME(v, read(p), std::string("to:") + name);
    H h = dart::convert::cast<H>(t); VT_SAME(v, read(h), std::string("to:") + name);
    { T c = t; P m(std::move(c)); VT_SAME(v, read(m), std::string("to-move:") + name); }
    { T c = t; H m = dart::convert::cast<H>(std::move(c)); VT_SAME(v, read(m), std::string("to-move:") + name); }
    V ov = V::obj(); ov.o["a"] = v; ov.o["b"] = v;
    auto o = P::make_object("a", t); o.add_field("b", t); VT_SAME(ov, read(o), std::string("to-field:") + name);
    V av = V::arr(); av.a.assign(3, v);
    auto a = H::make_array(t); a.push_back(t); a.insert(0, t); VT_SAME(av, read(a), std::string("to-element:") + name);
    { P s = P::make_array(1); s = t; VT_SAME(v, read(s), std::string("to-assign:") + name); T c = t; s = std::move(c); VT_SAME(v, read(s), std::string("to-assign-move:") + name); }
    // Compared and converted back, in every representation
    P f = o.finalize()["a"]; B b = H::make_object("k", h).lower()["k"];
    typename P::view pv = p; typename P::view fv = f; typename B::view bv = b; typename H::view hv = h;
    agree(p, t, v, name, "packet"); agree(h, t, v, name, "heap"); agree(f, t, v, name, "finalized"); agree(b, t, v, name, "buffer");
    agree(pv, t, v, name, "packet-view"); agree(fv, t, v, name, "finalized-view"); agree(hv, t, v, name, "heap-view"); agree(bv, t, v, name, "buffer-view");
    cast_agrees<T>(p, v, name, "packet"); cast_agrees<T>(h, v, name, "heap"); cast_agrees<T>(f, v, name, "finalized"); cast_agrees<T>(b, v, name, "buffer");
    { T back = p.template as<T>(); eval(); if (!(back == t)) { Quiet q; fail(std::string("roundtrip:") + name, show(v, 300)); } }
    // Other values: related ones, and ones of another shape
    for (int n = 0; n < 3; ++n) {
      V w = no_nan(near_value(v, r, g));
      P wp = build<P>(w, r); H wh = wp.is_finalized() ? H() : build<H>(w, r); P wf = P::make_object("k", wp).finalize()["k"]; B wb = H::make_object("k", wh).lower()["k"];
      agree(wp, t, w, name, "packet"); agree(wh, t, w, name, "heap"); agree(wf, t, w, name, "finalized"); agree(wb, t, w, name, "buffer");
      cast_agrees<T>(wp, w, name, "packet"); cast_agrees<T>(wf, w, name, "finalized"); cast_agrees<T>(wh, w, name, "heap"); cast_agrees<T>(wb, w, name, "buffer");
      seen(mix(hash(v) * 3 + hash(w)));
    }
    T t2 = Nat<T>::make(r, g); agree(p, t2, v, name, "packet"); agree(b, t2, v, name, "buffer");
    count(name);
    if (want_sample()) sample(std::string(name) + " " + show(v, 120));
  }

  // The typed wrappers: assignment from the container, and the explicit conversion back
  template <class W, class X, class T>
  void wrapped(Rng& r, char const* name) {
    Gen g(r, p16_opts(r));
    T t = Nat<T>::make(r, g); V v = Nat<T>::val(t);
    W w;
    w = t; VT_SAME(v, read(w), std::string("w-assign:") + name);
    W keep = w; T t2 = Nat<T>::make(r, g); V v2 = Nat<T>::val(t2);
    { T c = t2; w = std::move(c); } VT_SAME(v2, read(w), std::string("w-assign-move:") + name); VT_SAME(v, read(keep), std::string("w-assign-shared:") + name);
    { T back = static_cast<T>(w); eval(); if (!(back == t2)) { Quiet q; fail(std::string("w-back:") + name, show(v2, 300) + " became " + show(Nat<T>::val(back), 300)); } }
    X x = w.dynamic();
    agree(w.dynamic(), t2, v2, name, "wrapper"); agree(keep.dynamic(), t2, v, name, "wrapper");
    // another value of the same shape, or not
    for (int n = 0; n < 2; ++n) {
      V u = no_nan(near_value(v2, r, g)); if (u.k != v2.k) continue;
      W o(build<X>(u, r)); Ptr<T> want; vague() = false;
      { Quiet q; try { want = some<T>(Nat<T>::cast(u)); } catch (Refuse) {} }
      if (vague()) continue;
      bool refused = throws_any([&] { T got = static_cast<T>(o); if (!want || !(got == *want)) { Quiet q; fail(std::string("w-cast:") + name, show(u, 300) + " read as " + show(Nat<T>::val(got), 300)); } });
      VT_CHECK(refused == !want, std::string("w-cast:") + name, show(u, 300) + (refused ? " refused" : " accepted"));
      VT_SAME(u, read(o), std::string("w-cast-changed:") + name);
    }
    seen(mix(hash(v) * 7 + hash(v2))); count("wrapped"); count(name);
  }
  // Spans: comparison only (nothing converts to or from one with this GSL)
  template <class H, class B, class P>
  void spans(Rng& r) {
    Gen g(r, p16_opts(r));
    auto go = [&](auto const& vec, char const* name) {
      using T = typename std::decay_t<decltype(vec)>::value_type;
      V v = Nat<std::vector<T>>::val(vec);
      std::vector<T> store(vec.begin(), vec.end()); gsl::span<T> s(store.data(), store.size());
      P p = build<P>(v, r);
      V u = no_nan(near_value(v, r, g)); P q = build<P>(u, r); P f = P::make_object("k", q).finalize()["k"];
      bool want = Nat<std::vector<T>>::eq(vec, u); eval(6);
      if ((p == s) != true || (s == p) != true || (q == s) != want || (s == q) != want || (f == s) != want || (f != s) == want) { Quiet qq; fail(std::string("span-compare:") + name, show(v, 200) + " with " + show(u, 200)); }
      seen(mix(hash(v) * 11 + hash(u)));
    };
    go(Nat<std::vector<int>>::make(r, g), "int"); go(Nat<std::vector<std::string>>::make(r, g), "string"); go(Nat<std::vector<double>>::make(r, g), "double");
    count("span");
  }
}
