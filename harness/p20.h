// P20: operators on the typed wrappers against the same operators on native values.
#pragma once
#include "dt.h"
#include <sstream>
#include <iomanip>
namespace vt {
  using dart::operator ""_dart;
  struct Num { bool integer; int64_t i; double d; double numeric() const { return integer ? static_cast<double>(i) : d; } };
  inline bool bits(double a, double b) { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, sizeof a) == 0; }
  inline std::string txt(Num n) { char b[64]; if (n.integer) snprintf(b, sizeof b, "%lld", static_cast<long long>(n.i)); else snprintf(b, sizeof b, "%a", n.d); return b; }
  inline std::string txt(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

  inline int64_t an_int(Rng& r) {
    switch (r.below(6)) {
      case 0: return r.range(-10, 10);
      case 1: { int b = static_cast<int>(r.below(64)); uint64_t v = (b ? (1ull << b) : 1) + r.below(3) - 1; return static_cast<int64_t>(r.chance(1, 2) ? v : 0 - v); }
      case 2: return r.chance(1, 2) ? INT64_MAX - static_cast<int64_t>(r.below(3)) : INT64_MIN + static_cast<int64_t>(r.below(3));
      case 3: return (1ll << 53) + r.range(-3, 3);
      default: return static_cast<int64_t>(r.next());
    }
  }
  inline double a_dec(Rng& r) {
    static const double s[] = {0.0, -0.0, 1, -1, 0.5, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 9007199254740993.0, 9223372036854775808.0, 1e-300, 3.14159, 4294967296.5};
    switch (r.below(5)) {
      case 0: return s[r.below(14)];
      case 1: return static_cast<double>(r.range(-100, 100)) / 8;
      case 2: return r.chance(1, 3) ? std::numeric_limits<double>::quiet_NaN() : r.chance(1, 2) ? HUGE_VAL : -HUGE_VAL;
      default: { uint64_t b = r.next(); double d; memcpy(&d, &b, sizeof d); return d; }
    }
  }
  inline Num a_num(Rng& r) { Num n {r.chance(1, 2), 0, 0}; if (n.integer) n.i = an_int(r); else n.d = a_dec(r); return n; }
  template <class T> T operand(Rng& r) {
    if (std::is_floating_point<T>::value) return static_cast<T>(a_dec(r));
    return static_cast<T>(an_int(r));
  }

  // What a number holds, read in every way it offers.
  template <class N> void is_num(N const& n, Num want, char const* key) {
    VT_CHECK(n.is_integer() == want.integer && n.is_decimal() == !want.integer && n.is_numeric(), key, "kind of " + txt(want));
    if (want.integer) VT_CHECK(n.integer() == want.i, key, txt(want) + " got " + std::to_string(n.integer())); else VT_CHECK(bits(n.decimal(), want.d), key, txt(want) + " got " + txt(n.decimal()));
    VT_CHECK(bits(n.numeric(), want.numeric()) && bits(*n, want.numeric()), key, txt(want) + " numeric " + txt(n.numeric()));
    VT_CHECK(static_cast<bool>(n), key, "a number is never missing");
  }
  template <class T, class N> void converts(N const& n, Num v, char const* what) {
    if (!v.integer && std::is_integral<T>::value) { // defined only when it fits
      double t = std::trunc(v.d); if (!(t >= -9007199254740992.0 && t <= 9007199254740992.0)) return;
      if (t < static_cast<double>(std::numeric_limits<T>::min()) || t > static_cast<double>(std::numeric_limits<T>::max())) return;
    }
    if (!v.integer && std::is_same<T, float>::value && (std::isnan(v.d) || std::fabs(v.d) > 3e38)) return;
    T want = v.integer ? static_cast<T>(v.i) : static_cast<T>(v.d), got = n, cast = static_cast<T>(n);
    VT_CHECK((want == got && got == cast) || (want != want && got != got), std::string("number:convert:") + what, txt(v));
    count("number convert");
  }
  template <class T, class N> void arithmetic(N const& n, Num v, Rng& r, char const* what) {
    T t = operand<T>(r); double x = v.numeric();
    std::string c = txt(v) + " with " + what + " " + std::to_string(t);
#define OP(op, name) do { \
      double want = static_cast<double>(x op t), got = n op t, rwant = static_cast<double>(t op x), rgot = t op n; \
      VT_CHECK(bits(want, got), "number:" name ":right", c + " expected " + txt(want) + " got " + txt(got)); \
      VT_CHECK(bits(rwant, rgot), "number:" name ":left", c + " expected " + txt(rwant) + " got " + txt(rgot)); } while (0)
    OP(+, "+"); OP(-, "-"); OP(*, "*"); OP(/, "/");
#undef OP
    count("arithmetic");
    if (std::is_unsigned<T>::value && v.integer && v.i < 0) return; // the native comparison is already nonsense
    if (std::is_same<T, uint64_t>::value && static_cast<uint64_t>(t) > INT64_MAX) return;
    bool eq = std::is_floating_point<T>::value ? v.numeric() == static_cast<double>(t) : v.integer ? v.i == t : v.d == t; // decimals are doubles
    VT_CHECK((n == t) == eq && (t == n) == eq && (n != t) == !eq && (t != n) == !eq, "number:compare", c); count("number compare");
    if (v.integer && !std::is_floating_point<T>::value) { T same = static_cast<T>(v.i); if (static_cast<int64_t>(same) == v.i) VT_CHECK(n == same && same == n && !(n != same), "number:compare", c); }
  }
  template <class N> void reading(N const& n, Num v, Rng& r) {
    is_num(n, v, "number:value");
    switch (r.below(6)) {
      case 0: arithmetic<int8_t>(n, v, r, "int8"); arithmetic<double>(n, v, r, "double"); arithmetic<unsigned short>(n, v, r, "ushort"); break;
      case 1: arithmetic<int>(n, v, r, "int"); arithmetic<float>(n, v, r, "float"); arithmetic<char>(n, v, r, "char"); break;
      case 2: arithmetic<int64_t>(n, v, r, "int64"); arithmetic<double>(n, v, r, "double"); break;
      case 3: arithmetic<uint64_t>(n, v, r, "uint64"); arithmetic<short>(n, v, r, "short"); break;
      case 4: arithmetic<unsigned>(n, v, r, "unsigned"); arithmetic<long double>(n, v, r, "long double"); break;
      default: arithmetic<unsigned char>(n, v, r, "uchar"); arithmetic<long long>(n, v, r, "long long");
    }
    converts<int8_t>(n, v, "int8"); converts<uint8_t>(n, v, "uint8"); converts<short>(n, v, "short"); converts<int>(n, v, "int"); converts<unsigned>(n, v, "unsigned"); converts<int64_t>(n, v, "int64"); converts<uint64_t>(n, v, "uint64");
    converts<float>(n, v, "float"); converts<double>(n, v, "double"); converts<long double>(n, v, "long double");
    bool t = false; try { (void) n.decimal(); } catch (dart::type_error const&) { t = true; } VT_CHECK(t == v.integer, "number:decimal", txt(v));
    t = false; try { (void) n.integer(); } catch (dart::type_error const&) { t = true; } VT_CHECK(t == !v.integer, "number:integer", txt(v));
    is_num(n, v, "number:changed-by-reading");
    count("number read");
  }

  // Numbers that change: a history of assignments and compound operators, each with the same on a double.
  template <class T> int64_t to_int(T t, std::false_type) { return static_cast<int64_t>(t); } template <class T> int64_t to_int(T, std::true_type) { return 0; }
  template <class T, class N> void step(N& n, Num& v, Rng& r, char const* what) {
    T t = operand<T>(r); double x = v.numeric(); N old = n; Num ov = v; N* res; char const* op; std::string c = txt(v) + " " + what + " " + std::to_string(t);
    switch (r.below(5)) {
      case 0: op = "+="; res = &(n += t); v = Num {false, 0, static_cast<double>(x + t)}; break;
      case 1: op = "-="; res = &(n -= t); v = Num {false, 0, static_cast<double>(x - t)}; break;
      case 2: op = "*="; res = &(n *= t); v = Num {false, 0, static_cast<double>(x * t)}; break;
      case 3: op = "/="; res = &(n /= t); v = Num {false, 0, static_cast<double>(x / t)}; break;
      default: op = "="; res = &(n = t); v = Num {!std::is_floating_point<T>::value, 0, static_cast<double>(t)}; if (v.integer) v.i = to_int(t, std::is_floating_point<T>());
        if (std::is_same<T, uint64_t>::value && static_cast<uint64_t>(t) > INT64_MAX) v.i = n.integer();
    }
    VT_CHECK(res == &n, std::string("number:result:") + op, c);
    is_num(n, v, (std::string("number:") + op).c_str()); is_num(old, ov, (std::string("number:copy-changed:") + op).c_str()); count((std::string("number ") + op).c_str());
  }
  template <class N> void writing(N n, Num v, Rng& r) {
    for (size_t k = 1 + r.below(6); k > 0; --k) {
      double x = v.numeric();
      switch (r.below(14)) {
        case 0: step<int>(n, v, r, "int"); break; case 1: step<double>(n, v, r, "double"); break; case 2: step<float>(n, v, r, "float"); break;
        case 3: step<int64_t>(n, v, r, "int64"); break; case 4: step<uint64_t>(n, v, r, "uint64"); break; case 5: step<unsigned short>(n, v, r, "ushort"); break;
        case 6: step<int8_t>(n, v, r, "int8"); break; case 7: step<long double>(n, v, r, "long double"); break;
        case 8: { N old = n; N* res = &++n; VT_CHECK(res == &n, "number:result:++", ""); is_num(old, v, "number:copy-changed:++"); v = Num {false, 0, x + 1}; count("++n"); break; }
        case 9: { N old = n; N* res = &--n; VT_CHECK(res == &n, "number:result:--", ""); is_num(old, v, "number:copy-changed:--"); v = Num {false, 0, x - 1}; count("--n"); break; }
        case 10: { N old = n; N was = n++; is_num(was, v, "number:n++"); is_num(old, v, "number:copy-changed:n++"); v = Num {false, 0, x + 1}; count("n++"); break; }
        case 11: { N old = n; N was = n--; is_num(was, v, "number:n--"); is_num(old, v, "number:copy-changed:n--"); v = Num {false, 0, x - 1}; count("n--"); break; }
        case 12: { Num w = a_num(r); N m = w.integer ? N(w.i) : N(w.d); if (r.chance(1, 2)) { n = m; is_num(m, w, "number:assigned-from"); } else n = std::move(m); v = w; count("number = number"); break; }
        default: { N& self = n; n = self; count("number self assign"); }
      }
      is_num(n, v, "number:after");
      if (r.chance(1, 4)) reading(n, v, r);
    }
  }

  // ---------------- strings
  inline std::string a_str(Rng& r) {
    std::string s; size_t n = r.chance(1, 12) ? 10 + r.below(12) : r.below(6);
    if (r.chance(1, 300)) n = 65530 + r.below(12);
    for (size_t k = 0; k < n; ++k) s += "ab\0\xc3\xa9z"[r.below(6)];
    return s;
  }
  inline std::string noz(std::string s) { for (auto& c : s) if (!c) c = 'n'; return s; }
  template <class W> void is_str(W const& w, std::string const& want, char const* key) {
    std::string got = str(w.strv());
    VT_CHECK(got == want && str(*w) == want && w.size() == want.size() && w.empty() == want.empty(), key, esc(want.substr(0, 60)) + " got " + esc(got.substr(0, 60)) + " sizes " + std::to_string(want.size()) + " " + std::to_string(got.size()));
    VT_CHECK(memcmp(w.str(), want.data(), want.size()) == 0 && w.str()[want.size()] == 0, key, "str()");
    sv implicit = w; std::string exp(w); VT_CHECK(str(implicit) == want && exp == want, key, "conversions");
    VT_CHECK(static_cast<bool>(w), key, "a string is never missing");
  }
  template <class W> void str_reading(W const& w, std::string const& v, Rng& r) {
    is_str(w, v, "string:value");
    for (int k = 0; k < 4; ++k) { size_t i = k == 0 ? v.size() : k == 1 ? v.size() + 1 + r.below(100) : k == 2 ? (v.empty() ? 0 : v.size() - 1) : r.below(v.size() + 2); if (k == 3 && r.chance(1, 6)) i = SIZE_MAX - r.below(2);
      char want = i < v.size() ? v[i] : '\0'; VT_CHECK(w[i] == want, "string:[]", esc(v.substr(0, 40)) + " at " + std::to_string(i)); }
    std::string t = r.chance(1, 3) ? v : r.chance(1, 2) ? v + std::string(1, '\0') : a_str(r); bool eq = t == v;
    VT_CHECK((w == t) == eq && (t == w) == eq && (w != t) == !eq && (t != w) == !eq, "string:compare:string", esc(v.substr(0, 40)) + " / " + esc(t.substr(0, 40)));
    VT_CHECK((w == S(t)) == eq && (S(t) == w) == eq && (w != S(t)) == !eq, "string:compare:view", esc(v.substr(0, 40)) + " / " + esc(t.substr(0, 40)));
    std::string z = noz(t); bool zeq = z == v; VT_CHECK((w == z.c_str()) == zeq && (z.c_str() == w) == zeq && (w != z.c_str()) == !zeq, "string:compare:pointer", esc(v.substr(0, 40)) + " / " + esc(z.substr(0, 40)));
    is_str(w, v, "string:changed-by-reading"); count("string read");
  }
  template <class W> void str_adding(W const& w, std::string const& v, Rng& r) {
    std::string t = a_str(r), z = noz(t); std::string c = esc(v.substr(0, 40)) + " + " + esc(t.substr(0, 40));
    is_str(w + t, v + t, "string:+:string"); is_str(t + w, t + v, "string:string+"); is_str(w + S(t), v + t, "string:+:view"); is_str(S(t) + w, t + v, "string:view+"); is_str(w + z.c_str(), v + z, "string:+:pointer"); is_str(z.c_str() + w, z + v, "string:pointer+");
    is_str(w + "lit", v + "lit", "string:+:literal"); is_str("lit" + w, "lit" + v, "string:literal+"); is_str(w + w.strv(), v + v, "string:+:itself"); is_str(w.strv() + w, v + v, "string:itself+");
    is_str(w, v, "string:changed-by-+"); count("string +");
  }
  template <class W> void str_writing(W w, std::string v, Rng& r) {
    for (size_t k = 1 + r.below(6); k > 0; --k) {
      W old = w; std::string ov = v, t = a_str(r), z = noz(t); W* res = &w; char const* op;
      switch (r.below(11)) {
        case 0: op = "+= string"; res = &(w += t); v += t; break;
        case 1: op = "+= view"; res = &(w += S(t)); v += t; break;
        case 2: op = "+= pointer"; res = &(w += z.c_str()); v += z; break;
        case 3: op = "+= itself"; res = &(w += w); v += v; break;
        case 4: { op = "+= part of itself"; size_t a = r.below(v.size() + 1), b = r.below(v.size() - a + 1); res = &(w += sv(w.strv().data() + a, b)); v += v.substr(a, b); break; }
        case 5: op = "string = string"; res = &(w = t); v = t; break;
        case 6: op = "string = view"; res = &(w = S(t)); v = t; break;
        case 7: { op = "= part of itself"; size_t a = r.below(v.size() + 1), b = r.below(v.size() - a + 1); res = &(w = sv(w.strv().data() + a, b)); v = v.substr(a, b); break; }
        case 8: { op = "string = wrapper"; W m {t}; if (r.chance(1, 2)) { res = &(w = m); is_str(m, t, "string:assigned-from"); } else res = &(w = std::move(m)); v = t; break; }
        case 9: { op = "+= wrapper"; W m {t}; res = &(w += m); v += t; is_str(m, t, "string:added-from"); break; }
        default: { op = "string self assign"; W& self = w; w = self; }
      }
      VT_CHECK(res == &w, std::string("string:result:") + op, "");
      is_str(w, v, (std::string("string:") + op).c_str()); is_str(old, ov, (std::string("string:copy-changed:") + op).c_str()); count(op);
      if (v.size() > 200000) return;
      if (r.chance(1, 3)) str_reading(w, v, r);
    }
    str_adding(w, v, r);
  }

  // ---------------- flags and null
  template <class F> void flag_reading(F const& f, bool v) {
    VT_CHECK(f.boolean() == v && *f == v && static_cast<bool>(f) == v && (f ? 1 : 0) == v, "flag:value", "");
    VT_CHECK((f == v) && (v == f) && !(f != v) && !(v != f) && f != !v && !v != f && !(f == !v), "flag:compare", ""); count("flag read");
  }
  template <class F> void flag_writing(F f, bool v, Rng& r) {
    for (int k = 0; k < 4; ++k) { F old = f; bool ov = v, b = r.chance(1, 2); F* res = &f; if (r.chance(1, 2)) res = &(f = b); else { F m(b); if (r.chance(1, 2)) res = &(f = m); else res = &(f = std::move(m)); } v = b; VT_CHECK(res == &f, "flag:result", ""); flag_reading(f, v); flag_reading(old, ov); count("flag write"); }
  }
  template <class N> void null_reading(N const& n) {
    VT_CHECK(!static_cast<bool>(n) && n == nullptr && nullptr == n && !(n != nullptr) && n.is_null(), "null:value", ""); count("null");
  }

  // ---------------- subscripts
  template <class O, class P, class Key> void lookup(O const& o, Key const& k, V const& want, char const* what) {
    V got = read(o[k]); VT_CHECK(same(want, got), std::string("object:[]:") + what, first_difference(want, got)); count("object []");
  }
  template <class H, class P, class O> void object_subscripts(O const& o, V const& v, Rng& r) {
    for (int n = 0; n < 4; ++n) {
      std::string k = !v.o.empty() && r.chance(3, 4) ? std::next(v.o.begin(), static_cast<long>(r.below(v.o.size())))->first : a_str(r);
      auto it = v.o.find(k); V want = it == v.o.end() ? V::null() : it->second;
      lookup<O, P>(o, S(k), want, "view"); lookup<O, P>(o, k, want, "string");
      if (k.find('\0') == std::string::npos) lookup<O, P>(o, k.c_str(), want, "pointer");
      lookup<O, P>(o, typename P::string(k), want, "packet string"); lookup<O, P>(o, typename H::string(k), want, "heap string"); lookup<O, P>(o, typename P::string(k).dynamic(), want, "packet");
      lookup<O, P>(o, H::make_object("k", k).lower()["k"], want, "buffer");
    }
  }
  template <class H, class P, class A> void array_subscripts(A const& a, V const& v, Rng& r) {
    for (int n = 0; n < 4; ++n) {
      size_t i = n == 0 ? v.a.size() : r.below(v.a.size() + 2); V want = i < v.a.size() ? v.a[i] : V::null();
      auto chk = [&] (V const& got, char const* what) { VT_CHECK(same(want, got), std::string("array:[]:") + what, std::to_string(i) + " " + first_difference(want, got)); count("array []"); };
      chk(read(a[i]), "size_t"); chk(read(a[static_cast<int>(i)]), "int"); if (i < 256) chk(read(a[static_cast<unsigned char>(i)]), "uchar");
      chk(read(a[typename P::number(i)]), "packet number"); chk(read(a[typename H::number(static_cast<int>(i))]), "heap number"); chk(read(a[typename P::number(i).dynamic()]), "packet");
    }
  }
  // ---------------- printing
  template <class X> void prints(X const& x, Rng& r, char const* what) {
    std::string j; try { j = x.to_json(); } catch (std::exception const&) { bool t = false; std::ostringstream o; try { o << x; } catch (std::exception const&) { t = true; } VT_CHECK(t, std::string("print:") + what, "printed what has no text"); return; }
    std::ostringstream a, b; int w = static_cast<int>(r.below(20)); bool left = r.chance(1, 2);
    for (auto* o : {&a, &b}) { *o << std::setw(w) << std::setfill('.') << (left ? std::left : std::right); }
    a << x << '|' << 12; b << j << '|' << 12; VT_CHECK(a.str() == b.str(), std::string("print:") + what, a.str().substr(0, 80) + " expected " + b.str().substr(0, 80)); count("print");
  }
  // ---------------- rejection
  template <class W, class X> void refuses(X const& x, bool fine, char const* what) {
    bool t = false; try { W w {x}; (void) w; } catch (dart::type_error const&) { t = true; } VT_CHECK(t == !fine, std::string("wrap:") + what, fine ? "refused its own kind" : "accepted another kind"); count(fine ? "wrapped" : "refused");
  }
  template <class X> void wraps_right(X const& x, Kind k) {
    refuses<dart::basic_number<X>>(x, k == INT || k == DEC, "number"); refuses<dart::basic_string<X>>(x, k == STR, "string"); refuses<dart::basic_flag<X>>(x, k == BOOL, "flag"); refuses<dart::basic_object<X>>(x, k == OBJ, "object"); refuses<dart::basic_array<X>>(x, k == ARR, "array"); refuses<dart::basic_null<X>>(x, k == NUL, "null");
  }
}
