// P19: fixed byte order numbers against the native ones, and the library's reference counted pointers against std::shared_ptr.
#include "vt.h"
#include <dart.h>
#include <thread>
#include <atomic>
using namespace vt;

// ---------------------------------------------------------------- ordered numbers
namespace ord {
  template <class T> std::string num(T v) { return std::is_floating_point<T>::value ? [&] { char b[40]; snprintf(b, sizeof b, "%.17g", static_cast<double>(v)); return std::string(b); }() : std::to_string(v); }
  template <class T> T value(Rng& r) {
    using L = std::numeric_limits<T>;
    switch (r.below(9)) {
      case 0: return L::max(); case 1: return L::lowest(); case 2: return T(0); case 3: return T(1); case 4: return static_cast<T>(std::is_signed<T>::value ? -1 : 255);
      case 5: return std::is_floating_point<T>::value ? static_cast<T>(static_cast<double>(r.range(-100, 100)) * 0.37) : static_cast<T>(r.range(-100, 100));
      case 6: return static_cast<T>(r.range(0, 100));
      default: if (std::is_floating_point<T>::value) { double d = static_cast<double>(r.range(-1000000, 1000000)) / static_cast<double>(1 + r.below(1000)); return static_cast<T>(d); } return static_cast<T>(r.next() >> r.below(64));
    }
  }
  template <class T> bool equal(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
  template <class T> void bytes_are(void const* p, T v, bool little, std::string const& ctx) {
    uint64_t u = 0; memcpy(&u, &v, sizeof v); // the host is little endian: the low bytes come first
    unsigned char b[sizeof(T)]; memcpy(b, p, sizeof b);
    for (size_t k = 0; k < sizeof(T); ++k) VT_CHECK(b[little ? k : sizeof(T) - 1 - k] == ((u >> (8 * k)) & 255), std::string("ordered:bytes:") + (little ? "little" : "big"), ctx);
  }
  // Is the native operation defined, and what does it give?
  template <class T, class U> bool fits(U v, std::true_type) { // the result is integral: conversion to T is always defined
    (void) v; return true;
  }
  template <class T, class U> bool fits(U v, std::false_type) {
    if (std::is_floating_point<T>::value) return v == v && (sizeof(T) >= sizeof(U) || std::fabs(static_cast<double>(v)) <= static_cast<double>(std::numeric_limits<T>::max()));
    return v == v && static_cast<long double>(v) > static_cast<long double>(std::numeric_limits<T>::lowest()) - 1 && static_cast<long double>(v) < static_cast<long double>(std::numeric_limits<T>::max()) + 1;
  }
  template <class T, class Op> bool native(char op, T v, Op o, T& out) {
    using C = decltype(v + o);
    C a = static_cast<C>(v), b = static_cast<C>(o), c {};
    if (std::is_integral<C>::value && std::is_signed<C>::value) {
      __int128 x = static_cast<__int128>(a), y = static_cast<__int128>(b), z = 0;
      switch (op) { case '+': z = x + y; break; case '-': z = x - y; break; case '*': z = x * y; break; default: if (!y) return false; z = x / y; }
      if (z > static_cast<__int128>(std::numeric_limits<C>::max()) || z < static_cast<__int128>(std::numeric_limits<C>::lowest())) return false;
      c = static_cast<C>(z);
    } else {
      if (std::is_integral<C>::value && op == '/' && b == C(0)) return false;
      if (!std::is_integral<C>::value && op == '/' && b == C(0)) return false;
      switch (op) { case '+': c = a + b; break; case '-': c = a - b; break; case '*': c = a * b; break; default: c = a / b; }
    }
    if (!fits<T>(c, std::is_integral<C>())) return false;
    out = static_cast<T>(c); return true;
  }
  template <class O, class T, class Op> void bit_ops(Rng& r, O& o, T& n, Op op, std::string const& ctx, std::true_type) {
    switch (r.below(3)) { case 0: o &= op; n = static_cast<T>(n & op); break; case 1: o |= op; n = static_cast<T>(n | op); break; default: o ^= op; n = static_cast<T>(n ^ op); }
    VT_CHECK(equal(o.get(), n), "ordered:bitwise", ctx); count("ordered bitwise");
  }
  template <class O, class T, class Op> void bit_ops(Rng&, O&, T&, Op, std::string const&, std::false_type) {}
  template <class T, template <class> class Order, class Op> void ops(Rng& r, bool little) {
    Order<T> o; VT_CHECK(o.get() == T(0), "ordered:default", "");
    T n = value<T>(r); o = n; std::string h = num(n);
    for (int step = 0; step < 6; ++step) {
      Op op = value<Op>(r); char kind = "+-*/"[r.below(4)]; T before = n, res;
      std::string ctx = std::string(little ? "little " : "big ") + std::to_string(sizeof(T)) + " bytes, " + num(before) + " " + kind + " " + num(op);
      if (native<T, Op>(kind, n, op, res)) {
        auto& back = kind == '+' ? o += op : kind == '-' ? o -= op : kind == '*' ? o *= op : o /= op;
        VT_CHECK(&back == &o, "ordered:compound:returns", ctx); n = res;
        VT_CHECK(equal(o.get(), n), std::string("ordered:compound:") + kind, ctx + " expected " + num(n) + " got " + num(o.get())); count(kind == '+' ? "ordered +=" : kind == '-' ? "ordered -=" : kind == '*' ? "ordered *=" : "ordered /=");
      }
      bit_ops(r, o, n, op, ctx, std::integral_constant<bool, std::is_integral<T>::value && std::is_integral<Op>::value>());
      bytes_are(&o, n, little, ctx); seen(hash_bytes(ctx.data(), ctx.size()));
    }
    if (want_sample()) sample("ordered " + h);
  }
  template <class T, template <class> class Order, template <class> class Other> void basics(Rng& r, bool little) {
    T v = value<T>(r), w = r.chance(1, 3) ? v : value<T>(r); std::string ctx = num(v) + " " + num(w);
    Order<T> a(v), b(a), c; c = w; Other<T> d(w);
    VT_CHECK(equal(a.get(), v) && equal(b.get(), v) && equal(c.get(), w) && equal(static_cast<T>(d), w) && equal(T(a), v), "ordered:get", ctx);
    bytes_are(&a, v, little, ctx); bytes_are(&d, w, !little, ctx);
    VT_CHECK((a == c) == (v == w) && (a != c) == (v != w) && (a == d) == (v == w) && (a != d) == (v != w), "ordered:compare", ctx);
    VT_CHECK(equal(c.set(v), v) && equal(c.get(), v), "ordered:set", ctx);
    b = c; VT_CHECK(equal(b.get(), v), "ordered:assign", ctx);
    // from bytes
    unsigned char raw[sizeof(T)]; memcpy(raw, &v, sizeof v); if (!little) std::reverse(raw, raw + sizeof v);
    memcpy(&b, raw, sizeof v); VT_CHECK(equal(b.get(), v), "ordered:from-bytes", ctx);
    T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::lowest();
    if (v != hi) { T n = v; ++n; Order<T> x(v); VT_CHECK(&++x == &x && equal(x.get(), n), "ordered:++", ctx); x = v; VT_CHECK(equal(x++, v) && equal(x.get(), n), "ordered:post++", ctx); bytes_are(&x, n, little, ctx); }
    if (v != lo) { T n = v; --n; Order<T> x(v); VT_CHECK(&--x == &x && equal(x.get(), n), "ordered:--", ctx); x = v; VT_CHECK(equal(x--, v) && equal(x.get(), n), "ordered:post--", ctx); bytes_are(&x, n, little, ctx); }
    count("ordered basics");
  }
  template <class T> void all(Rng& r) {
    basics<T, dart::little_order, dart::big_order>(r, true); basics<T, dart::big_order, dart::little_order>(r, false);
    switch (r.below(7)) {
      case 0: ops<T, dart::little_order, T>(r, true); ops<T, dart::big_order, T>(r, false); break;
      case 1: ops<T, dart::little_order, int>(r, true); ops<T, dart::big_order, int>(r, false); break;
      case 2: ops<T, dart::little_order, unsigned>(r, true); ops<T, dart::big_order, unsigned>(r, false); break;
      case 3: ops<T, dart::little_order, int64_t>(r, true); ops<T, dart::big_order, int64_t>(r, false); break;
      case 4: ops<T, dart::little_order, uint64_t>(r, true); ops<T, dart::big_order, uint64_t>(r, false); break;
      case 5: ops<T, dart::little_order, double>(r, true); ops<T, dart::big_order, double>(r, false); break;
      default: ops<T, dart::little_order, int8_t>(r, true); ops<T, dart::big_order, int8_t>(r, false);
    }
  }
  enum class Small : uint16_t { x = 0x1234, y = 0xfffe };
}
static void numbers(Rng& r) {
  for (int round = 0; round < 20; ++round) {
    ord::all<int8_t>(r); ord::all<uint8_t>(r); ord::all<int16_t>(r); ord::all<uint16_t>(r); ord::all<int32_t>(r); ord::all<uint32_t>(r);
    ord::all<int64_t>(r); ord::all<uint64_t>(r); ord::all<float>(r); ord::all<double>(r);
    dart::little_order<ord::Small> e(ord::Small::x); dart::big_order<ord::Small> f(ord::Small::x); unsigned char b[2], c[2]; memcpy(b, &e, 2); memcpy(c, &f, 2);
    VT_CHECK(b[0] == 0x34 && b[1] == 0x12 && c[0] == 0x12 && c[1] == 0x34 && e.get() == ord::Small::x && f.get() == ord::Small::x, "ordered:enum", "");
    bool t = r.chance(1, 2); dart::little_order<bool> g(t); dart::big_order<bool> h(!t); VT_CHECK(g.get() == t && h.get() == !t && (g == h) == false, "ordered:bool", "");
    int x = 5; dart::big_order<int*> p(&x); dart::little_order<int*> q(&x); VT_CHECK(p.get() == &x && *p == 5 && p == q && q.get() == &x, "ordered:pointer", ""); p = nullptr; VT_CHECK(p.get() == nullptr && p != q, "ordered:pointer", "");
  }
}

// ---------------------------------------------------------------- reference counted pointers
namespace ptr {
  struct Log { std::vector<std::string> ev; int live = 0; };
  template <int Side> Log& log() { static Log l; return l; }
  // std::shared_ptr seen through the interface shared by all of the counters
  template <int Side> struct Root {
    int id; explicit Root(int i) : id(i) { ++log<Side>().live; }
    Root(Root const&) = delete;
    virtual ~Root() { --log<Side>().live; log<Side>().ev.push_back("destroy " + std::to_string(id)); }
  };
  template <int Side, class Fam> struct Node : Root<Side> {
    using P = typename Fam::template ptr<Node>; P next;
    explicit Node(int i) : Root<Side>(i), next(nullptr) {}
  };
  template <int Side> struct Del { // stateful, counts
    int tag = 0;
    template <class T> void operator ()(T* p) const { log<Side>().ev.push_back("deleter " + std::to_string(tag) + (p ? "" : " null")); delete p; }
  };
  template <int Side> struct ArrDel { int tag = 0; template <class T> void operator ()(T* p) const { log<Side>().ev.push_back("array deleter " + std::to_string(tag)); delete[] p; } };
  struct Std { static constexpr bool shareable = false; template <class T> using ptr = std::shared_ptr<T>; template <class T, class... A> static ptr<T> make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); } };
  struct Unsafe { static constexpr bool shareable = false; template <class T> using ptr = dart::unsafe_ptr<T>; template <class T, class... A> static ptr<T> make(A&&... a) { return dart::make_unsafe<T>(std::forward<A>(a)...); } };
  struct Skinny { static constexpr bool shareable = false; template <class T> using ptr = dart::skinny_ptr<T>; template <class T, class... A> static ptr<T> make(A&&... a) { return dart::make_skinny<T>(std::forward<A>(a)...); } };
  template <template <class> class RC> struct Share {
    static constexpr bool shareable = true; template <class T> using ptr = dart::shareable_ptr<RC<T>>;
    template <class T, class... A> static ptr<T> make(A&&... a) { return dart::make_shareable<RC<T>>(std::forward<A>(a)...); }
  };
  template <class P, class T> void reset_raw(P& p, T* raw, std::false_type) { p.reset(raw); }
  template <class P, class T> void reset_raw(P& p, T* raw, std::true_type) { p = P(raw); }
  template <class P, class T, class D> void reset_del(P& p, T* raw, D d, std::false_type) { p.reset(raw, std::move(d)); }
  template <class P, class T, class D> void reset_del(P& p, T* raw, D d, std::true_type) { p = P(raw, std::move(d)); }

  template <class Fam, int Side> struct Machine {
    using N = Node<Side, Fam>; using P = typename N::P; using S = std::integral_constant<bool, Fam::shareable>;
    static constexpr size_t slots = 5; P p[slots]; // all empty
    struct Step { int op; size_t a, b; int id; };
    // The observable result of one step.
    std::string run(Step const& s) {
      P& x = p[s.a]; P& y = p[s.b];
      switch (s.op) {
        case 0: x = Fam::template make<N>(s.id); return "make";
        case 1: x = P(new N(s.id)); return "from raw";
        case 2: x = P(new N(s.id), Del<Side> {s.id}); return "from raw with deleter";
        case 3: { std::unique_ptr<N> u(new N(s.id)); x = P(std::move(u)); return std::string("from unique ") + (u ? "kept" : "released"); }
        case 4: { std::unique_ptr<N, Del<Side>> u(new N(s.id), Del<Side> {s.id}); x = std::move(u); return std::string("assign unique ") + (u ? "kept" : "released"); }
        case 5: x = y; return "copy assign";
        case 6: if (s.a != s.b) { x = std::move(y); return y ? "move assign, source full" : "move assign, source empty"; } return "self move skipped";
        case 7: { P t(y); auto n = t.use_count(); bool same = t.get() == y.get() && t == y; x = std::move(t); return "copy construct " + std::to_string(n) + (same ? " same" : " differ"); }
        case 8: { P t(std::move(y)); bool e = !y && !y.get() && y.use_count() == 0; y = t; return std::string("move construct ") + (e ? "empties" : "keeps"); }
        case 9: x.reset(); return "reset";
        case 10: reset_raw(x, new N(s.id), S()); return "reset raw";
        case 11: reset_del(x, new N(s.id), Del<Side> {s.id}, S()); return "reset deleter";
        case 12: { using std::swap; swap(x, y); return "swap"; }
        case 13: x = nullptr; return "null assign";
        case 14: if (x) { x->next = y; if (loops()) { x->next.reset(); return "link undone"; } return "link"; } return "no link";
        case 15: if (x && x->next) { x = x->next; return "advance"; } return "no advance"; // the source dies with the target
        case 16: if (x && x->next) { x = std::move(x->next); return "advance moved"; } return "no advance";
        case 17: { std::unique_ptr<N> u; x = P(std::move(u)); return "null unique"; }
        case 18: x = P(static_cast<N*>(nullptr)); return "null raw";
        case 19: if (x) return "deref " + std::to_string((*x).id) + " " + std::to_string(x->id) + " " + std::to_string(x.get()->id); return "nothing to read";
        default: { P e; P n(nullptr); return std::string("empty ") + (e ? "full" : "empty") + (n ? "full" : "empty") + (e == n ? " equal " : " differ ") + std::to_string(e.use_count()) + (e.get() ? "?" : ""); }
      }
    }
    bool loops() { // a ring would never be freed
      for (auto& q : p) { size_t steps = 0; for (N* n = q.get(); n; n = n->next.get()) if (++steps > 400) return true; }
      return false;
    }
    std::string state() {
      std::string s;
      for (auto& q : p) {
        s += q ? "[" : "("; if (q.get()) s += std::to_string(q.get()->id); s += ":" + std::to_string(q.use_count()) + ((q.use_count() == 1) ? "u" : "");
        for (N* n = q.get(); n && n->next; n = n->next.get()) s += ">" + std::to_string(n->next->id) + ":" + std::to_string(n->next.use_count());
        s += " ";
      }
      for (size_t a = 0; a < slots; ++a) for (size_t b = 0; b < slots; ++b) { s += p[a] == p[b] ? '=' : '#'; if ((p[a] != p[b]) == (p[a] == p[b])) s += "?!"; }
      return s;
    }
    void order(std::string const& ctx) { // some strict order consistent with equality
      for (auto& a : p) for (auto& b : p) {
        int n = (a < b) + (b < a) + (a == b);
        VT_CHECK(n == 1 && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "pointer:order", ctx);
        for (auto& c : p) VT_CHECK(!(a < b && b < c) || a < c, "pointer:order:transitive", ctx);
      }
      count("pointer order");
    }
  };
  template <class Fam, class M> void extra(M& m, std::string const& ctx, std::false_type) { for (auto& q : m.p) VT_CHECK(q.unique() == (q.use_count() == 1), "pointer:unique", ctx); }
  template <class Fam, class M> void extra(M& m, std::string const& ctx, std::true_type) { // taking the counter out and putting one in
    for (auto& q : m.p) {
      VT_CHECK(q.unique() == (q.use_count() == 1), "pointer:unique", ctx);
      auto n = q.use_count(); using T = typename std::decay_t<decltype(q)>::value_type; T raw;
      q.share(raw); VT_CHECK(raw.get() == q.get() && q.use_count() == (n ? n + 1 : 0), "pointer:share", ctx);
      typename M::P back(raw), moved(std::move(raw)); VT_CHECK(back == q && moved == q && q.use_count() == (n ? n + 2 : 0), "pointer:adopt", ctx);
      std::move(moved).transfer(raw); VT_CHECK(raw.get() == q.get() && q.use_count() == (n ? n + 2 : 0) && moved.get() == nullptr, "pointer:transfer", ctx);
      VT_CHECK(q.raw().get() == q.get(), "pointer:raw", ctx); back = raw; back = std::move(raw); VT_CHECK(q.use_count() == (n ? n + 1 : 0), "pointer:assign-counter", ctx);
    }
    count("counter taken out");
  }
  template <class Fam> void go(Rng& r, std::string const& name) {
    log<0>() = Log(); log<1>() = Log();
    std::string hist = name + ": ";
    {
      Machine<Fam, 0> own; Machine<Std, 1> ref; int id = 0; size_t steps = 5 + r.below(40);
      for (size_t k = 0; k < steps; ++k) {
        typename Machine<Fam, 0>::Step s {static_cast<int>(r.below(21)), r.below(5), r.below(5), ++id}; typename Machine<Std, 1>::Step t {s.op, s.a, s.b, s.id};
        if (s.op < 20 && s.op > 13 && r.chance(1, 2)) s.op = t.op = 14;
        hist += std::to_string(s.op) + "(" + std::to_string(s.a) + "," + std::to_string(s.b) + ");";
        // Dereferencing and traversal go through get(), so a pointer that claims to be full without being so would crash: compare first.
        std::string want = ref.run(t), got = own.run(s); count(("pointer " + want.substr(0, want.find(' ', want.find(' ') + 1))).c_str());
        VT_CHECK(got == want, "pointer:" + std::to_string(s.op), hist + " got " + got + " expected " + want);
        std::string sg = own.state(), sw = ref.state();
        VT_CHECK(sg == sw, "pointer:state", hist + " " + want + " got " + sg + " expected " + sw);
        VT_CHECK(log<0>().ev == log<1>().ev && log<0>().live == log<1>().live, "pointer:destruction", hist + " " + want + ", " + std::to_string(log<0>().ev.size()) + " events, expected " + std::to_string(log<1>().ev.size()) + (log<1>().ev.empty() ? "" : ", last " + log<1>().ev.back()) + (log<0>().ev.empty() ? "" : ", got " + log<0>().ev.back()));
        seen(hash_bytes(sg.data(), sg.size()));
        if (r.chance(1, 6)) { own.order(hist); extra<Fam>(own, hist, std::integral_constant<bool, Fam::shareable>()); VT_CHECK(own.state() == sw, "pointer:state", hist + " after looking"); }
      }
    }
    VT_CHECK(log<0>().live == 0 && log<0>().ev == log<1>().ev, "pointer:end", hist + " " + std::to_string(log<0>().live) + " alive at the end");
    if (want_sample()) sample(hist.substr(0, 250));
  }
  // Pointers to a base, arrays, void-ish conversions: the counters themselves.
  template <int Side> struct Leaf : Root<Side> { int extra; explicit Leaf(int i) : Root<Side>(i), extra(i * 3) {} };
  template <class Fam> void hierarchy(Rng& r, std::string const& name) {
    log<0>() = Log();
    {
      using B = typename Fam::template ptr<Root<0>>; using D = typename Fam::template ptr<Leaf<0>>; using C = typename Fam::template ptr<Root<0> const>;
      int id = static_cast<int>(r.below(100)); D d = Fam::template make<Leaf<0>>(id); B b(d), b2; b2 = d; C c(b);
      VT_CHECK(d.use_count() == 4 && b.get() == d.get() && c.get() == b.get() && b->id == id && c->id == id, "pointer:convert", name);
      D e = d; B f(std::move(e)); VT_CHECK(!e && f.get() == d.get() && d.use_count() == 5, "pointer:convert-move", name);
      b2 = std::move(f); VT_CHECK(!f && d.use_count() == 4, "pointer:convert-move-assign", name);
      D g; b2 = g; VT_CHECK(!b2 && b2.use_count() == 0 && d.use_count() == 3, "pointer:convert-empty", name);
      B u; u = std::unique_ptr<Leaf<0>>(new Leaf<0>(7)); B v(std::unique_ptr<Leaf<0>, Del<0>>(new Leaf<0>(8), Del<0> {3})); VT_CHECK(u->id == 7 && v->id == 8 && u.unique() && v.unique(), "pointer:convert-unique", name);
      u.reset(new Leaf<0>(9)); VT_CHECK(u->id == 9 && log<0>().live == 3, "pointer:convert-reset", name);
      d.reset(); b.reset(); VT_CHECK(log<0>().live == 3 && c.unique(), "pointer:last-owner", name); c.reset(); VT_CHECK(log<0>().live == 2, "pointer:last-owner", name); count("hierarchies");
    }
    VT_CHECK(log<0>().live == 0, "pointer:hierarchy-end", name);
    {
      using A = typename Fam::template ptr<int[]>; size_t n = 1 + r.below(20);
      A a(new int[n]); for (size_t k = 0; k < n; ++k) a[static_cast<ptrdiff_t>(k)] = static_cast<int>(k * 7);
      A b = a, c(std::unique_ptr<int[]>(new int[n] ())); int sum = 0; for (size_t k = 0; k < n; ++k) sum += b[static_cast<ptrdiff_t>(k)] - static_cast<int>(k * 7) + c[static_cast<ptrdiff_t>(k)];
      VT_CHECK(sum == 0 && a.use_count() == 2 && b.get() == a.get() && a == b && a != c, "pointer:array", name);
      c = std::move(a); VT_CHECK(!a && c.use_count() == 2 && c[0] == 0, "pointer:array", name); c.reset(); VT_CHECK(b.unique(), "pointer:array", name);
      log<0>().ev.clear(); { A d(new int[n], ArrDel<0> {5}); A e(d); } VT_CHECK(log<0>().ev.size() == 1, "pointer:array-deleter", name); count("arrays");
    }
  }
  // Non-owning views of a counter.
  template <template <class> class RC, class Fam> void views(Rng& r, std::string const& name) {
    using V = typename dart::view_ptr_context<RC>::template view_ptr<Root<0>>; using O = RC<Root<0>>;
    log<0>() = Log();
    {
      O a = Fam::template make<Root<0>>(static_cast<int>(r.below(9))), b = r.chance(1, 2) ? Fam::template make<Root<0>>(4) : O(); size_t extra = r.below(4); std::vector<O> more(extra, a);
      V e, n(nullptr), x(a), y(b), z(x);
      VT_CHECK(!e && !n && e == n && e.get() == nullptr && e.use_count() == 0, "view_ptr:empty", name);
      VT_CHECK(x && x.get() == a.get() && z == x && x->id == a->id && (*x).id == a->id && static_cast<size_t>(a.use_count()) == extra + 1 && x.use_count() == extra + 1, "view_ptr:get", name);
      VT_CHECK(static_cast<bool>(y) == static_cast<bool>(b) && y.get() == b.get() && (x == y) == (a.get() == b.get()) && (x != y) != (x == y) && (x < y) == (a.get() < b.get()) && (x <= y) == !(y < x) && (x > y) == (y < x) && (x >= y) == !(x < y), "view_ptr:compare", name);
      O back = static_cast<O const&>(x); VT_CHECK(back.get() == a.get() && static_cast<size_t>(a.use_count()) == extra + 2 && &x.raw() == &a, "view_ptr:owner", name);
      V m(std::move(x)); VT_CHECK(!x && m.get() == a.get(), "view_ptr:move", name); m = y; VT_CHECK(m.get() == b.get(), "view_ptr:assign", name); m = a; VT_CHECK(m.get() == a.get(), "view_ptr:assign-owner", name);
      m = std::move(z); VT_CHECK(!z && m.get() == a.get(), "view_ptr:move-assign", name); m.reset(); VT_CHECK(!m && static_cast<size_t>(a.use_count()) == extra + 2, "view_ptr:reset", name);
      bool threw = false; auto* raw = new Root<0>(1); try { V bad(raw); } catch (std::logic_error const&) { threw = true; } VT_CHECK(threw, "view_ptr:raw", name); delete raw; count("counter views");
    }
    VT_CHECK(log<0>().live == 0, "view_ptr:end", name);
  }
}
static void pointers(Rng& r) {
  for (int k = 0; k < 3; ++k) {
    ptr::go<ptr::Unsafe>(r, "unsafe_ptr"); ptr::go<ptr::Skinny>(r, "skinny_ptr"); ptr::go<ptr::Share<std::shared_ptr>>(r, "shareable_ptr<shared_ptr>");
    ptr::go<ptr::Share<dart::unsafe_ptr>>(r, "shareable_ptr<unsafe_ptr>"); ptr::go<ptr::Share<dart::skinny_ptr>>(r, "shareable_ptr<skinny_ptr>");
  }
  ptr::hierarchy<ptr::Unsafe>(r, "unsafe_ptr"); ptr::hierarchy<ptr::Skinny>(r, "skinny_ptr");
  ptr::views<std::shared_ptr, ptr::Std>(r, "shared_ptr"); ptr::views<dart::unsafe_ptr, ptr::Unsafe>(r, "unsafe_ptr"); ptr::views<dart::skinny_ptr, ptr::Skinny>(r, "skinny_ptr");
}
// Owners on many threads: exactly one of them destroys the object, after everybody has let go.
static void shared(Rng& r) {
  static std::atomic<int> alive, destroyed; alive = 0; destroyed = 0;
  struct Obj { int payload[8]; Obj() { ++alive; for (int k = 0; k < 8; ++k) payload[k] = k; } ~Obj() { for (auto& x : payload) x = -1; --alive; ++destroyed; } };
  size_t n = 2 + r.below(4); std::vector<std::thread> ts; int objs = 1 + static_cast<int>(r.below(4)); std::atomic<int> bad {0};
  {
    std::vector<dart::skinny_ptr<Obj>> src; for (int k = 0; k < objs; ++k) src.push_back(k & 1 ? dart::skinny_ptr<Obj>(new Obj) : dart::make_skinny<Obj>());
    for (size_t t = 0; t < n; ++t) ts.emplace_back([src, s = r.next(), &bad] () mutable {
      Rng q(s); dart::skinny_ptr<Obj> mine[4];
      for (int k = 0; k < 60; ++k) { auto& x = mine[q.below(4)]; auto& y = src[q.below(src.size())]; switch (q.below(5)) { case 0: x = y; break; case 1: x.reset(); break; case 2: { auto c = y; x = std::move(c); break; } case 3: y = q.chance(1, 8) ? x : y; break; default: if (x) for (int j = 0; j < 8; ++j) if (x->payload[j] != j) ++bad; } if (x && x.use_count() < 1) ++bad; }
    });
  }
  for (auto& t : ts) t.join();
  VT_CHECK(alive == 0 && destroyed == objs && bad == 0, "pointer:threads", std::to_string(alive) + " alive, " + std::to_string(destroyed) + " destroyed of " + std::to_string(objs)); count("threads", n); seen(r.next());
}
int main(int argc, char** argv) { return vt::main(argc, argv, {{"numbers", numbers}, {"pointers", pointers}, {"shared", shared}}); }
