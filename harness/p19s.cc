// P19: the library's own string view, optional and variant against the standard ones, compiled as C++17 so that both exist.
#include "vt.h"
#include <cassert>
#include <sstream>
#include <iomanip>
#include <iterator>
#include <string_view>
#include <optional>
#include <variant>
#include <dart/support/string_view.h>
#include <dart/support/optional.h>
#include <dart/support/variant.h>
using namespace vt;

// ---------------------------------------------------------------- string view
namespace sv {
  template <class C> struct Block { // exactly the characters, no terminator
    std::unique_ptr<C[]> p; size_t n;
    template <class S> explicit Block(S const& s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
  };
  // Letters of either case are equal and lower case sorts first.
  struct NoCase : std::char_traits<char> {
    static char up(char c) { return c >= 'a' && c <= 'z' ? static_cast<char>('Z' - (c - 'a')) : c >= 'A' && c <= 'Z' ? static_cast<char>('Z' - (c - 'A')) : c; }
    static bool eq(char a, char b) { return up(a) == up(b); } static bool lt(char a, char b) { return up(a) < up(b); }
    static int compare(char const* a, char const* b, size_t n) { for (; n; --n, ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
    static char const* find(char const* s, size_t n, char const& c) { for (; n; --n, ++s) if (eq(*s, c)) return s; return nullptr; }
  };
  template <class C, class T = std::char_traits<C>> std::basic_string<C, T> text(Rng& r, size_t max) {
    std::basic_string<C, T> s; size_t n = r.below(max + 1), alpha = 1 + r.below(4); static const int cs[] = {'a', 'b', 0, 200, 'c', 'A', 'B'}; size_t off = r.below(2), m = std::is_same<T, NoCase>::value ? 7 : 5;
    if (m == 7 && r.chance(1, 2)) off = 5, alpha = 4;
    for (size_t k = 0; k < n; ++k) s += static_cast<C>(cs[(off + r.below(alpha)) % m]);
    return s;
  }
  template <class F, class G> void same_result(char const* what, std::string const& ctx, F&& own, G&& ref) {
    using R = decltype(ref()); R a {}, b {}; bool at = false, bt = false;
    try { a = ref(); } catch (std::out_of_range const&) { at = true; }
    try { b = static_cast<R>(own()); } catch (std::out_of_range const&) { bt = true; }
    VT_CHECK(at == bt && (at || a == b), std::string("string_view:") + what, ctx + " expected " + (at ? std::string("out_of_range") : std::to_string(static_cast<long long>(a))) + " got " + (bt ? std::string("out_of_range") : std::to_string(static_cast<long long>(b))));
    count(what); if (at) count("out_of_range");
  }
  int sign(int x) { return x < 0 ? -1 : x > 0; }
  template <class S> std::string narrow(S const& s) { std::string t; for (auto c : s) t += static_cast<char>(c); return esc(t); }
  template <class C, class T = std::char_traits<C>> void go(Rng& r) {
    using O = dart::basic_string_view<C, T>; using R = std::basic_string_view<C, T>; using S = std::basic_string<C, T>;
    S h = text<C, T>(r, r.chance(1, 8) ? 60 : 10), t = r.chance(1, 3) && !h.empty() ? h.substr(r.below(h.size()), 1 + r.below(4)) : text<C, T>(r, 4);
    Block<C> bh(h), bt(t); S tz = t; for (auto& c : tz) if (!c) c = 'a';
    std::unique_ptr<C[]> z(new C[tz.size() + 1]); std::copy(tz.begin(), tz.end(), z.get()); z[tz.size()] = 0;
    O oh(bh.p.get(), bh.n), ot(bt.p.get(), bt.n); R rh(bh.p.get(), bh.n), rt(bt.p.get(), bt.n);
    C c = t.empty() ? static_cast<C>('b') : t[r.below(t.size())];
    auto pos = [&] { switch (r.below(8)) { case 0: return SIZE_MAX - r.below(3); case 1: return h.size(); case 2: return h.size() + 1 + r.below(3); case 3: return h.size() ? h.size() - 1 : 0; default: return r.below(h.size() + 1); } };
    size_t p = pos(), n = pos(), p2 = pos(), n2 = r.chance(1, 4) ? SIZE_MAX : r.below(5), zn = r.below(tz.size() + 1);
    std::string ctx = narrow(h) + " / " + narrow(t) + " p=" + std::to_string(p) + " n=" + std::to_string(n) + " p2=" + std::to_string(p2) + " n2=" + std::to_string(n2);
    seen(hash_bytes(ctx.data(), ctx.size()));
    if (want_sample()) sample("string_view " + ctx);
#define SV(fn, ...) same_result(#fn, ctx, [&] { return static_cast<size_t>(oh.fn(__VA_ARGS__)); }, [&] { return static_cast<size_t>(rh.fn(__VA_ARGS__)); })
#define SV2(fn) do { \
      same_result(#fn, ctx, [&] { return oh.fn(ot); }, [&] { return rh.fn(rt); }); same_result(#fn, ctx + " view,p", [&] { return oh.fn(ot, p); }, [&] { return rh.fn(rt, p); }); \
      SV(fn, c); SV(fn, c, p); SV(fn, z.get(), p, zn); SV(fn, z.get(), p); SV(fn, z.get()); } while (0)
    SV2(find); SV2(rfind); SV2(find_first_of); SV2(find_last_of); SV2(find_first_not_of); SV2(find_last_not_of);
    same_result("compare", ctx, [&] { return sign(oh.compare(ot)); }, [&] { return sign(rh.compare(rt)); });
    same_result("compare3", ctx, [&] { return sign(oh.compare(p, n, ot)); }, [&] { return sign(rh.compare(p, n, rt)); });
    same_result("compare5", ctx, [&] { return sign(oh.compare(p, n, ot, p2, n2)); }, [&] { return sign(rh.compare(p, n, rt, p2, n2)); });
    same_result("compare", ctx + " pointer", [&] { return sign(oh.compare(z.get())); }, [&] { return sign(rh.compare(z.get())); });
    same_result("compare3", ctx + " pointer", [&] { return sign(oh.compare(p, n, z.get())); }, [&] { return sign(rh.compare(p, n, z.get())); });
    same_result("compare4", ctx + " pointer", [&] { return sign(oh.compare(p, n, z.get(), zn)); }, [&] { return sign(rh.compare(p, n, z.get(), zn)); });
    bool ops[] = {oh == ot, oh != ot, oh < ot, oh <= ot, oh > ot, oh >= ot}, ref[] = {rh == rt, rh != rt, rh < rt, rh <= rt, rh > rt, rh >= rt};
    VT_CHECK(std::equal(ops, ops + 6, ref), "string_view:relational", ctx); count("relational");
    // C++20 in the standard: spelled out
    auto starts = [] (S const& x, S const& y) { return x.size() >= y.size() && std::equal(y.begin(), y.end(), x.begin(), T::eq); };
    auto ends = [] (S const& x, S const& y) { return x.size() >= y.size() && std::equal(y.rbegin(), y.rend(), x.rbegin(), T::eq); };
    VT_CHECK(oh.starts_with(ot) == starts(h, t) && oh.starts_with(c) == starts(h, S(1, c)) && oh.starts_with(z.get()) == starts(h, tz), "string_view:starts_with", ctx);
    VT_CHECK(oh.ends_with(ot) == ends(h, t) && oh.ends_with(c) == ends(h, S(1, c)) && oh.ends_with(z.get()) == ends(h, tz), "string_view:ends_with", ctx); count("starts/ends_with");
    // access
    same_result("at", ctx, [&] { return static_cast<long>(oh.at(p)); }, [&] { return static_cast<long>(rh.at(p)); });
    if (p < h.size()) VT_CHECK(&oh[p] == &rh[p], "string_view:operator[]", ctx);
    if (!h.empty()) VT_CHECK(&oh.front() == &rh.front() && &oh.back() == &rh.back(), "string_view:front/back", ctx);
    VT_CHECK(oh.size() == rh.size() && oh.length() == rh.length() && oh.empty() == rh.empty() && oh.data() == rh.data() && oh.max_size() > 0, "string_view:size", ctx);
    bool t1 = false, t2 = false; O os; R rs;
    try { os = oh.substr(p, n); } catch (std::out_of_range const&) { t1 = true; } try { rs = rh.substr(p, n); } catch (std::out_of_range const&) { t2 = true; }
    VT_CHECK(t1 == t2 && (t1 || (os.data() == rs.data() && os.size() == rs.size())), "string_view:substr", ctx); count("substr");
    {
      size_t len = r.below(12); std::unique_ptr<C[]> d1(new C[len]), d2(new C[len]); std::fill_n(d1.get(), len, C('#')); std::fill_n(d2.get(), len, C('#'));
      same_result("copy", ctx, [&] { return oh.copy(d1.get(), len, p); }, [&] { return rh.copy(d2.get(), len, p); });
      VT_CHECK(std::equal(d1.get(), d1.get() + len, d2.get()), "string_view:copy:contents", ctx);
    }
    {
      std::unique_ptr<C[]> d(new C[h.size()]); // the starting position is the beginning unless one is given
      VT_CHECK(oh.copy(d.get(), h.size()) == h.size() && std::equal(h.begin(), h.end(), d.get()), "string_view:copy:all", ctx);
      O all = oh.substr(), some = oh.substr(0, n); VT_CHECK(all.data() == oh.data() && all.size() == h.size() && some.size() == std::min(n, h.size()), "string_view:substr:default", ctx);
    }
    // iteration, in both directions
    VT_CHECK(S(oh.begin(), oh.end()) == h && S(oh.cbegin(), oh.cend()) == h && S(oh.rbegin(), oh.rend()) == S(h.rbegin(), h.rend()) && S(oh.crbegin(), oh.crend()) == S(h.rbegin(), h.rend()), "string_view:iteration", ctx);
    // shrinking and swapping
    O om = oh, on = ot; size_t a = r.below(h.size() + 1), b = r.below(h.size() - a + 1);
    om.remove_prefix(a); om.remove_suffix(b); VT_CHECK(om.data() == oh.data() + a && om.size() == h.size() - a - b, "string_view:remove", ctx);
    om.swap(on); VT_CHECK(on.data() == oh.data() + a && om.data() == ot.data() && om.size() == t.size(), "string_view:swap", ctx); om.swap(om); VT_CHECK(om.data() == ot.data(), "string_view:self-swap", ctx);
    // conversions
    VT_CHECK(S(static_cast<S>(oh)) == h, "string_view:to-string", ctx);
    O fs(h); VT_CHECK(fs.data() == h.data() && fs.size() == h.size(), "string_view:from-string", ctx);
    O fz(z.get()); VT_CHECK(fz.data() == z.get() && fz.size() == tz.size(), "string_view:from-pointer", ctx);
    O fv(rh); VT_CHECK(fv.data() == rh.data() && fv.size() == rh.size(), "string_view:from-view", ctx);
    O empty; VT_CHECK(empty.empty() && empty.data() == nullptr && empty == O(h.data(), 0) && empty.find(O()) == 0 && empty.find(c) == O::npos && empty.rfind(O()) == 0 && (empty < oh) == !h.empty(), "string_view:default", "");
    count("views");
  }
  void print(Rng& r) {
    std::string h = text<char>(r, 10); Block<char> b(h); dart::string_view o(b.p.get(), b.n); std::string_view s(b.p.get(), b.n);
    std::ostringstream x, y; int w = static_cast<int>(r.below(14)); bool left = r.chance(1, 2); char f = r.chance(1, 2) ? '*' : ' ';
    for (auto* q : {&x, &y}) { *q << std::setw(w) << std::setfill(f) << (left ? std::left : std::right); }
    x << o << '|' << 7; y << s << '|' << 7;
    VT_CHECK(x.str() == y.str(), "string_view:print", esc(h) + " width " + std::to_string(w) + " expected " + esc(y.str()) + " got " + esc(x.str())); count("print");
  }
}
static void views(Rng& r) { for (int k = 0; k < 20; ++k) { sv::go<char>(r); if (k % 5 == 0) { sv::go<wchar_t>(r); sv::go<char16_t>(r); sv::go<char32_t>(r); sv::go<char, sv::NoCase>(r); sv::print(r); } } }

// ---------------------------------------------------------------- things that count and throw
// One per side, so that both see the same sequence of calls.
template <int Side> struct Log { static long live, ops, boom; static void reset() { live = ops = 0; boom = -1; } static void tick() { if (ops++ == boom) throw 42; } };
template <int S> long Log<S>::live = 0; template <int S> long Log<S>::ops = 0; template <int S> long Log<S>::boom = -1;
template <int S, bool NoThrowMove> struct Tr {
  using L = Log<S>; int v; void* self;   // address of the object: objects moved as bytes show
  int* own;
  void make(int x) { v = x; self = this; own = new int(x); ++L::live; }
  Tr() { L::tick(); make(0); }
  Tr(int x) { L::tick(); make(x); }
  Tr(Tr const& o) { o.ok(); L::tick(); make(o.v); }
  Tr(Tr&& o) noexcept(NoThrowMove) { o.ok(); if (!NoThrowMove) L::tick(); make(o.v); o.v = -1; *o.own = -1; }
  Tr& operator =(Tr const& o) { ok(); o.ok(); L::tick(); v = o.v; *own = v; return *this; }
  Tr& operator =(Tr&& o) noexcept(NoThrowMove) { ok(); o.ok(); if (!NoThrowMove) L::tick(); v = o.v; *own = v; if (this != &o) { o.v = -1; *o.own = -1; } return *this; }
  Tr& operator =(int x) { ok(); L::tick(); v = x; *own = x; return *this; }
  ~Tr() { ok(); delete own; self = nullptr; --L::live; }
  void ok() const { VT_CHECK(self == this && *own == v, "object:not-constructed", ""); }
  friend bool operator ==(Tr const& a, Tr const& b) { return a.v == b.v; } friend bool operator !=(Tr const& a, Tr const& b) { return a.v != b.v; }
  friend bool operator <(Tr const& a, Tr const& b) { return a.v < b.v; } friend bool operator <=(Tr const& a, Tr const& b) { return a.v <= b.v; }
  friend bool operator >(Tr const& a, Tr const& b) { return a.v > b.v; } friend bool operator >=(Tr const& a, Tr const& b) { return a.v >= b.v; }
};
// Runs the same thing on both sides with the first operation of an element failing; how many more there are is nobody's business.
template <class F, class G> bool both(Rng& r, std::string const& op, F&& own, G&& ref, bool fail = true) {
  long boom = fail && r.chance(1, 4) ? 0 : -1; bool a = false, b = false;
  Log<0>::ops = Log<1>::ops = 0; Log<0>::boom = Log<1>::boom = boom;
  try { ref(); } catch (int) { b = true; }
  try { own(); } catch (int) { a = true; }
  Log<0>::boom = Log<1>::boom = -1;
  VT_CHECK(a == b, "throws:" + op, std::string(a ? "threw" : "did not throw") + " where the standard type did the opposite");
  VT_CHECK(Log<0>::live == Log<1>::live, "balance:" + op, std::to_string(Log<0>::live) + " elements alive, the standard type " + std::to_string(Log<1>::live));
  count(op.c_str()); if (b) count("threw");
  return !b;
}

// ---------------------------------------------------------------- optional
template <bool NT> static void optionals_of(Rng& r) {
  using A = Tr<0, NT>; using B = Tr<1, NT>; using O = dart::optional<A>; using R = std::optional<B>;
  Log<0>::reset(); Log<1>::reset();
  {
    std::vector<std::unique_ptr<O>> os; std::vector<std::unique_ptr<R>> rs;
    for (int k = 0; k < 3; ++k) { os.emplace_back(new O); rs.emplace_back(new R); }
    auto check = [&] (std::string const& op) {
      for (size_t k = 0; k < os.size(); ++k) {
        VT_CHECK(os[k]->has_value() == rs[k]->has_value() && static_cast<bool>(*os[k]) == rs[k]->has_value(), "optional:engaged:" + op, "");
        if (!rs[k]->has_value()) continue;
        O const& c = *os[k]; c->ok(); VT_CHECK((**os[k]).v == (**rs[k]).v && c.value().v == (*rs[k])->v && &*c == &c.value() && c.operator ->() == &*c, "optional:value:" + op, "");
      }
    };
    std::string hist;
    for (size_t n = 10 + r.below(40); n > 0; --n) {
      size_t i = r.below(3), j = r.below(3); int x = static_cast<int>(r.below(5)); std::string op;
      O &o = *os[i], &p = *os[j]; R &a = *rs[i], &b = *rs[j];
      switch (r.below(17)) {
        case 0: op = "assign value"; both(r, op, [&] { o = x; }, [&] { a = x; }); break;
        case 1: { op = "assign element"; A ax(x); B bx(x); bool mv = r.chance(1, 2); both(r, op, [&] { if (mv) o = std::move(ax); else o = ax; }, [&] { if (mv) a = std::move(bx); else a = bx; }); VT_CHECK(ax.v == bx.v, "optional:source:" + op, ""); break; }
        case 2: op = "copy assign"; both(r, op, [&] { o = static_cast<O const&>(p); }, [&] { if (i != j) a = static_cast<R const&>(b); }); break;
        case 3: if (i != j) { op = "move assign"; both(r, op, [&] { o = std::move(p); }, [&] { a = std::move(b); }); } break;
        case 4: op = "assign nullopt"; both(r, op, [&] { o = dart::nullopt; }, [&] { a = std::nullopt; }); break;
        case 5: op = "reset"; both(r, op, [&] { o.reset(); }, [&] { a.reset(); }); break;
        case 6: op = "emplace"; both(r, op, [&] { auto& e = o.emplace(x); VT_CHECK(&e == &*o, "optional:emplace:result", ""); }, [&] { a.emplace(x); }); break;
        case 7: op = "copy construct"; both(r, op, [&] { O t(static_cast<O const&>(p)); VT_CHECK(t == p, "optional:copy", ""); }, [&] { R t(static_cast<R const&>(b)); }); break;
        case 8: op = "move construct"; both(r, op, [&] { O t(std::move(p)); (void) t; }, [&] { R t(std::move(b)); (void) t; }); break;
        case 9: if (i != j) { op = "swap"; both(r, op, [&] { std::swap(o, p); }, [&] { R t(std::move(a)); a = std::move(b); b = std::move(t); }, false); } break;
        case 10: { op = "value"; bool t1 = false, t2 = false; try { VT_CHECK(o.value().v == o->v, "optional:value", ""); } catch (dart::bad_optional_access const&) { t1 = true; } try { (void) a.value(); } catch (std::bad_optional_access const&) { t2 = true; } VT_CHECK(t1 == t2, "optional:value:throws", ""); count("value"); if (t2) count("value of nothing"); break; }
        case 11: { op = "value_or"; A d(7); B e(7); both(r, op, [&] { VT_CHECK(static_cast<O const&>(o).value_or(d).v == (o ? o->v : 7), "optional:value_or", ""); }, [&] { (void) static_cast<R const&>(a).value_or(e); }); break; }
        case 12: { op = "value_or moved"; int g = 0, w = 0; if (both(r, op, [&] { g = std::move(o).value_or(9).v; }, [&] { w = std::move(a).value_or(9).v; })) VT_CHECK(g == w, "optional:value_or:moved", ""); break; }
        case 13: { op = "move out"; int g = 0, w = 0; if (a && both(r, op, [&] { A t(*std::move(o)); g = t.v; }, [&] { B t(*std::move(a)); w = t.v; })) VT_CHECK(g == w, "optional:move-out", ""); break; }
        case 14: {
          op = "compare"; bool g[] = {o == p, o != p, o < p, o <= p, o > p, o >= p}, w[] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
          VT_CHECK(std::equal(g, g + 6, w), "optional:compare", ""); count("compare"); break;
        }
        case 15: {
          op = "compare value"; A ax(x); B bx(x);
          bool g[] = {o == ax, o != ax, o < ax, o <= ax, o > ax, o >= ax, ax == o, ax != o, ax < o, ax <= o, ax > o, ax >= o}, w[] = {a == bx, a != bx, a < bx, a <= bx, a > bx, a >= bx, bx == a, bx != a, bx < a, bx <= a, bx > a, bx >= a};
          for (int k = 0; k < 12; ++k) VT_CHECK(g[k] == w[k], "optional:compare-value:" + std::to_string(k), std::string(a ? std::to_string(a->v) : "none") + " and " + std::to_string(x)); count("compare value"); break;
        }
        default: {
          op = "compare nullopt"; bool g[] = {o == dart::nullopt, dart::nullopt == o, o != dart::nullopt, dart::nullopt != o, o < dart::nullopt, dart::nullopt < o, o <= dart::nullopt, dart::nullopt <= o};
          bool w[] = {a == std::nullopt, std::nullopt == a, a != std::nullopt, std::nullopt != a, a < std::nullopt, std::nullopt < a, a <= std::nullopt, std::nullopt <= a};
          VT_CHECK(std::equal(g, g + 8, w), "optional:compare-nullopt", ""); count("compare nullopt");
        }
      }
      hist += op + " " + std::to_string(i) + std::to_string(j) + ";"; check(op);
      uint64_t st = hash_bytes(op.data(), op.size()); for (auto& e : rs) st = mix(st + (*e ? static_cast<uint64_t>((*e)->v) + 2 : 1)); seen(st);
    }
    if (want_sample()) sample("optional " + hist.substr(0, 200));
  }
  VT_CHECK(Log<0>::live == 0 && Log<1>::live == 0, "optional:leak", std::to_string(Log<0>::live));
}
static void converting(Rng& r) {
  // between optionals of different types
  dart::optional<int> oi; std::optional<int> ri; if (r.chance(2, 3)) { int x = static_cast<int>(r.range(-5, 5)); oi = x; ri = x; }
  dart::optional<long> ol(oi); std::optional<long> rl(ri); VT_CHECK(ol.has_value() == rl.has_value() && (!rl || *ol == *rl), "optional:convert", "");
  dart::optional<long> ol2(std::move(oi)); VT_CHECK(ol2.has_value() == rl.has_value() && (!rl || *ol2 == *rl), "optional:convert:move", "");
  dart::optional<double> od; std::optional<double> rd; if (r.chance(1, 2)) { od = 1.5; rd = 1.5; }
  od = oi; rd = ri; VT_CHECK(od.has_value() == rd.has_value() && (!rd || *od == *rd), "optional:convert:assign", "");
  bool cmp[] = {ol == oi, ol != oi, ol < oi, ol <= oi, ol > oi, ol >= oi}, ref[] = {rl == ri, rl != ri, rl < ri, rl <= ri, rl > ri, rl >= ri}; VT_CHECK(std::equal(cmp, cmp + 6, ref), "optional:compare:mixed", "");
  dart::optional<char const*> oc; std::optional<char const*> rc; if (r.chance(1, 2)) { oc = "abc"; rc = "abc"; }
  dart::optional<std::string> os(oc); std::optional<std::string> rs(rc); VT_CHECK(os.has_value() == rs.has_value() && (!rs || *os == *rs), "optional:convert:string", "");
  os = oc; rs = rc; VT_CHECK(os.has_value() == rs.has_value(), "optional:convert:string-assign", ""); os = "x"; VT_CHECK(*os == "x", "optional:assign:literal", ""); os.emplace(3, 'q'); VT_CHECK(os.value() == "qqq" && os->size() == 3, "optional:emplace:args", "");
  std::string got = std::move(os).value(); VT_CHECK(got == "qqq" && os.has_value(), "optional:value:moved", "");
  dart::optional<std::unique_ptr<int>> ou; ou = std::unique_ptr<int>(new int(5)); dart::optional<std::unique_ptr<int>> ov(std::move(ou)); VT_CHECK(ov.has_value() && **ov == 5 && ou.has_value() && !*ou, "optional:move-only", ""); ou = std::move(ov); VT_CHECK(**ou == 5, "optional:move-only:assign", "");
  count("converting");
}
static void optionals(Rng& r) { optionals_of<true>(r); optionals_of<false>(r); converting(r); }

// ---------------------------------------------------------------- variant
template <int S> struct Big { // its own type: throwing copies, throwing moves
  Tr<S, false> t; Big(int x) : t(x) {} int get() const { return t.v; }
  friend bool operator ==(Big const& a, Big const& b) { return a.t == b.t; } friend bool operator !=(Big const& a, Big const& b) { return a.t != b.t; } friend bool operator <(Big const& a, Big const& b) { return a.t < b.t; }
  friend bool operator <=(Big const& a, Big const& b) { return a.t <= b.t; } friend bool operator >(Big const& a, Big const& b) { return a.t > b.t; } friend bool operator >=(Big const& a, Big const& b) { return a.t >= b.t; }
};
template <int S> struct Show {
  std::string operator ()(std::string const& s) const { return "s" + s; } std::string operator ()(int i) const { return "i" + std::to_string(i); } std::string operator ()(Tr<S, true> const& t) const { t.ok(); return "t" + std::to_string(t.v); } std::string operator ()(Big<S> const& b) const { b.t.ok(); return "b" + std::to_string(b.get()); }
  template <class A, class B> std::string operator ()(A const& a, B const& b) const { return (*this)(a) + "," + (*this)(b); }
};
template <class F> static int outcome(F&& f) { try { f(); return 0; } catch (std::bad_variant_access const&) { return 1; } catch (mpark::bad_variant_access const&) { return 1; } }
static void variants(Rng& r) {
  using O = mpark::variant<int, std::string, Tr<0, true>, Big<0>>; using R = std::variant<int, std::string, Tr<1, true>, Big<1>>;
  Log<0>::reset(); Log<1>::reset();
  {
    std::vector<std::unique_ptr<O>> os; std::vector<std::unique_ptr<R>> rs; std::string hist;
    for (int k = 0; k < 3; ++k) { os.emplace_back(new O); rs.emplace_back(new R); }
    auto check = [&] (std::string const& op) {
      for (size_t k = 0; k < os.size(); ++k) {
        O const& o = *os[k]; R const& a = *rs[k];
        VT_CHECK(o.valueless_by_exception() == a.valueless_by_exception() && o.index() == a.index(), "variant:index:" + op, std::to_string(o.index()) + " expected " + std::to_string(a.index()) + " after " + hist);
        if (a.valueless_by_exception()) { count("valueless"); VT_CHECK(outcome([&] { (void) mpark::visit(Show<0>(), o); }) == 1, "variant:visit:valueless", ""); continue; }
        VT_CHECK(mpark::visit(Show<0>(), o) == std::visit(Show<1>(), a), "variant:value:" + op, mpark::visit(Show<0>(), o) + " expected " + std::visit(Show<1>(), a));
      }
    };
    for (size_t n = 10 + r.below(40); n > 0; --n) {
      size_t i = r.below(3), j = r.below(3); int x = static_cast<int>(r.below(4)); std::string op, str = std::string(r.below(3) * 12, 'x') + std::to_string(x);
      O &o = *os[i], &p = *os[j]; R &a = *rs[i], &b = *rs[j];
      switch (r.below(15)) {
        case 0: op = "variant = int"; both(r, op, [&] { o = x; }, [&] { a = x; }); break;
        case 1: op = "variant = string"; both(r, op, [&] { o = str; }, [&] { a = str; }); break;
        case 2: { op = "variant = element"; Tr<0, true> e(x); Tr<1, true> f(x); bool mv = r.chance(1, 2); both(r, op, [&] { if (mv) o = std::move(e); else o = e; }, [&] { if (mv) a = std::move(f); else a = f; }); break; }
        case 3: { op = "variant = thrower"; Big<0> e(x); Big<1> f(x); bool mv = r.chance(1, 2); both(r, op, [&] { if (mv) o = std::move(e); else o = e; }, [&] { if (mv) a = std::move(f); else a = f; }); break; }
        case 4: op = "variant copy assign"; both(r, op, [&] { o = static_cast<O const&>(p); }, [&] { a = static_cast<R const&>(b); }); break;
        case 5: if (i != j) { op = "variant move assign"; both(r, op, [&] { o = std::move(p); }, [&] { a = std::move(b); }); } break;
        case 6: op = "variant emplace"; switch (r.below(4)) {
            case 0: both(r, op, [&] { VT_CHECK(&o.template emplace<int>(x) == mpark::get_if<0>(&o), "variant:emplace:result", ""); }, [&] { a.template emplace<int>(x); }); break;
            case 1: both(r, op, [&] { o.template emplace<1>(x, 'e'); }, [&] { a.template emplace<1>(x, 'e'); }); break;
            case 2: both(r, op, [&] { o.template emplace<2>(x); }, [&] { a.template emplace<2>(x); }); break;
            default: both(r, op, [&] { o.template emplace<Big<0>>(x); }, [&] { a.template emplace<Big<1>>(x); }); break; } break;
        case 7: op = "variant copy construct"; both(r, op, [&] { O t(static_cast<O const&>(p)); VT_CHECK(t.index() == p.index(), "variant:copy", ""); }, [&] { R t(static_cast<R const&>(b)); (void) t; }); break;
        case 8: op = "variant move construct"; both(r, op, [&] { O t(std::move(p)); (void) t; }, [&] { R t(std::move(b)); (void) t; }); break;
        case 9: op = "variant swap"; both(r, op, [&] { if (r.s & 1) o.swap(p); else { using mpark::swap; swap(o, p); } }, [&] { if (i != j) { R t(std::move(a)); a = std::move(b); b = std::move(t); } /* libstdc++ 13's own swap loses the valueless side */ }, false); break;
        case 10: {
          op = "variant get"; size_t k = r.below(4);
          auto g = [&] (auto I) { constexpr size_t N = decltype(I)::value; return outcome([&] { auto& v = mpark::get<N>(o); VT_CHECK(&v == mpark::get_if<N>(&o), "variant:get_if", ""); }) * 2 + (mpark::get_if<N>(&o) ? 1 : 0); };
          auto w = [&] (auto I) { constexpr size_t N = decltype(I)::value; return outcome([&] { (void) std::get<N>(a); }) * 2 + (std::get_if<N>(&a) ? 1 : 0); };
          int x1, x2; switch (k) { case 0: x1 = g(std::integral_constant<size_t, 0>()); x2 = w(std::integral_constant<size_t, 0>()); break; case 1: x1 = g(std::integral_constant<size_t, 1>()); x2 = w(std::integral_constant<size_t, 1>()); break;
            case 2: x1 = g(std::integral_constant<size_t, 2>()); x2 = w(std::integral_constant<size_t, 2>()); break; default: x1 = g(std::integral_constant<size_t, 3>()); x2 = w(std::integral_constant<size_t, 3>()); break; }
          VT_CHECK(x1 == x2, "variant:get", std::to_string(k)); count("variant get"); break;
        }
        case 11: op = "variant holds"; VT_CHECK(mpark::holds_alternative<int>(o) == std::holds_alternative<int>(a) && mpark::holds_alternative<std::string>(o) == std::holds_alternative<std::string>(a) && mpark::holds_alternative<Big<0>>(o) == std::holds_alternative<Big<1>>(a), "variant:holds", ""); count("variant holds"); break;
        case 12: {
          op = "variant compare"; bool g[] = {o == p, o != p, o < p, o <= p, o > p, o >= p}, w[] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
          VT_CHECK(std::equal(g, g + 6, w), "variant:compare", std::to_string(a.index()) + " " + std::to_string(b.index())); count("variant compare"); break;
        }
        case 13: {
          op = "variant visit two"; std::string g, w; int e1 = outcome([&] { g = mpark::visit(Show<0>(), static_cast<O const&>(o), static_cast<O const&>(p)); }), e2 = outcome([&] { w = std::visit(Show<1>(), static_cast<R const&>(a), static_cast<R const&>(b)); });
          VT_CHECK(e1 == e2 && g == w, "variant:visit-two", g + " expected " + w); count("variant visit two"); break;
        }
        default: {
          op = "variant in place"; O t(mpark::in_place_index_t<1> {}, str); R u(std::in_place_index<1>, str); VT_CHECK(t.index() == u.index() && mpark::get<1>(t) == std::get<1>(u), "variant:in-place", "");
          mpark::variant<mpark::monostate, int> m; VT_CHECK(m.index() == 0, "variant:monostate", ""); m = 4; VT_CHECK(mpark::get<int>(m) == 4, "variant:monostate", ""); count("variant in place");
          // hashes: equal variants hash alike
          mpark::variant<int, std::string> h1(x), h2(x); VT_CHECK((std::hash<mpark::variant<int, std::string>>()(h1) == std::hash<mpark::variant<int, std::string>>()(h2)), "variant:hash", "");
        }
      }
      hist += op + " " + std::to_string(i) + std::to_string(j) + ";"; check(op);
      uint64_t st = hash_bytes(op.data(), op.size()); for (auto& e : rs) st = mix(st + e->index() * 3); seen(st);
    }
    if (want_sample()) sample(hist.substr(0, 250));
  }
  VT_CHECK(Log<0>::live == 0 && Log<1>::live == 0, "variant:leak", std::to_string(Log<0>::live));
}
int main(int argc, char** argv) { return vt::main(argc, argv, {{"views", views}, {"optionals", optionals}, {"variants", variants}}); }
