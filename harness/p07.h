// P07: ownership. The reference model is a graph of shared_ptr nodes, its use counts are what refcount() has to report.
#pragma once
#include "dt.h"
#include "probe.h"
using namespace vt;

struct Node;
struct M {                       // model of one handle or slot
  V v;                           // value of scalars and of everything finalized
  std::shared_ptr<Node> node;    // storage of dynamic aggregates and long strings
  std::shared_ptr<int> buf;      // storage of finalized values
};
struct Node { Kind k; std::map<std::string, M, KeyLess> o; std::vector<M> a; };

inline V value(M const& m) {
  if (!m.node || m.node->k == STR) return m.v;
  V v; v.k = m.node->k;
  for (auto& e : m.node->o) v.o[e.first] = value(e.second);
  for (auto& e : m.node->a) v.a.push_back(value(e));
  return v;
}
inline M fresh(V const& v) {
  M m;
  if (v.k == OBJ || v.k == ARR) { m.node = std::make_shared<Node>(); m.node->k = v.k; for (auto& e : v.o) m.node->o[e.first] = fresh(e.second); for (auto& e : v.a) m.node->a.push_back(fresh(e)); }
  else { m.v = v; if (v.k == STR && v.s.size() >= 64) { m.node = std::make_shared<Node>(); m.node->k = STR; } }
  return m;
}
inline size_t expected(M const& m) {
  if (m.node) return static_cast<size_t>(m.node.use_count());
  if (m.buf) return static_cast<size_t>(m.buf.use_count());
  return m.v.k == NUL ? 0 : 1;
}
inline void own(M& m) { if (m.node.use_count() > 1) m.node = std::make_shared<Node>(*m.node); }

template <class P> struct Traits;
template <template <class> class RC> struct Traits<dart::basic_heap<RC>> { static bool const dyn = true, packet = false; };
template <template <class> class RC> struct Traits<dart::basic_buffer<RC>> { static bool const dyn = false, packet = false; };
template <template <class> class RC> struct Traits<dart::basic_packet<RC>> { static bool const dyn = true, packet = true; };

template <class P>
struct Counts {
  struct H { P p; M m; };
  Rng& r; Gen g;
  std::vector<std::unique_ptr<H>> hs;
  struct Iter { typename P::iterator it; typename P::iterator end; M m; V rest; };
  std::vector<std::unique_ptr<Iter>> its;
  explicit Counts(Rng& rng) : r(rng), g(rng, opt()) {}
  static GenOpt opt() { GenOpt o; o.big = false; o.width = 4; return o; }
  // Strings are either surely inline or surely shared
  V val(unsigned depth) {
    if (!depth || r.chance(1, 3)) {
      switch (r.below(6)) {
        case 0: return V::null(); case 1: return V::boolean(true); case 2: return V::integer(r.range(-9, 9)); case 3: return V::decimal(0.5);
        case 4: return V::str(std::string(r.below(8), 's')); default: return V::str(std::string(64 + r.below(100), 'L'));
      }
    }
    return r.chance(1, 2) ? obj(depth) : arr(depth);
  }
  V obj(unsigned depth) { V v = V::obj(); for (size_t n = r.below(4); n; --n) v.o[std::string(1, static_cast<char>('a' + r.below(5)))] = val(depth - 1); return v; }
  V arr(unsigned depth) { V v = V::arr(); for (size_t n = r.below(4); n; --n) v.a.push_back(val(depth - 1)); return v; }

  template <class Q = P, std::enable_if_t<Traits<Q>::dyn>* = nullptr> void make() { V v = val(3); hs.push_back(std::make_unique<H>(H{plain<P>(v), fresh(v)})); }
  template <class Q = P, std::enable_if_t<!Traits<Q>::dyn>* = nullptr> void make() {
    V v = obj(3); M m; m.v = v; m.buf = std::make_shared<int>();
    using heap = std::decay_t<decltype(std::declval<P>().lift())>;
    hs.push_back(std::make_unique<H>(H{P(plain<heap>(v).lower()), m}));
  }
  // Model of a member
  bool member(M const& m, M& c, std::string& key, size_t& idx) {
    if (m.node && m.node->k != STR) {
      if (m.node->k == OBJ) { if (m.node->o.empty()) return false; auto it = m.node->o.begin(); std::advance(it, static_cast<long>(r.below(m.node->o.size()))); key = it->first; c = it->second; return true; }
      if (m.node->a.empty()) return false;
      idx = r.below(m.node->a.size()); c = m.node->a[idx]; return true;
    }
    if (m.buf) {
      if (m.v.k == OBJ && !m.v.o.empty()) { auto it = m.v.o.begin(); std::advance(it, static_cast<long>(r.below(m.v.o.size()))); key = it->first; c.v = it->second; }
      else if (m.v.k == ARR && !m.v.a.empty()) { idx = r.below(m.v.a.size()); c.v = m.v.a[idx]; }
      else return false;
      if (c.v.k != NUL) c.buf = m.buf;
      return true;
    }
    return false;
  }
  static Kind kind(M const& m) { return m.node ? m.node->k : m.v.k; }
  void count_is(P const& p, size_t want, char const* key) {
    size_t got = p.refcount(); eval();
    if (got != want) { Quiet q; fail(std::string("refcount:") + key, std::to_string(want) + " owners, refcount() says " + std::to_string(got)); }
  }
  void verify() {
    for (auto& h : hs) {
      count_is(h->p, expected(h->m), "handle");
      if (r.chance(1, 3)) VT_SAME(value(h->m), read(h->p), "owned:value");
      if (r.chance(1, 3)) { // a member taken out counts one more, a view none
        M c; std::string k; size_t n = 0;
        bool arr = kind(h->m) == ARR;
        if (member(h->m, c, k, n)) {
          P x = arr ? h->p[n] : h->p[S(k)];
          count_is(x, expected(c), "member");   // c itself is one owner in the model
          count("member");
        }
      }
      if (r.chance(1, 4)) view(*h);
    }
    for (auto& i : its) { // iterators over finalized data keep it alive
      V got = V::arr(); auto it = i->it;
      while (it != i->end) { got.a.push_back(read(*it)); ++it; }
      VT_SAME(i->rest, got, "iterator:value");
    }
  }
  void view(H& h) {
    typename P::view w = h.p, w2 = w;
    size_t want = expected(h.m);
    bool lng = h.m.node && h.m.node->k == STR;
    if (lng && w.refcount() > want) { report("view:long-string-counted", "a view of a dynamic long string is counted as an owner"); return; }
    VT_CHECK(kind(h.m) == NUL || (w.refcount() == want && w2.refcount() == want), "refcount:view", std::to_string(w.refcount()) + " not " + std::to_string(want));
    VT_SAME(value(h.m), read(w), "view:value");
    { P o = w.as_owner(); M m = h.m; count_is(o, expected(m), "as_owner"); }
    M c; std::string k; size_t n = 0; bool arr = kind(h.m) == ARR;
    if (member(h.m, c, k, n) && !(c.node && c.node->k == STR)) {
      size_t cw = expected(c) - (c.node || c.buf ? 1 : 0);
      typename P::view x = arr ? w[n] : w[S(k)];
      VT_CHECK(kind(c) == NUL || x.refcount() == cw, "refcount:view-member", std::to_string(x.refcount()) + " not " + std::to_string(cw));
      P o = x.as_owner();
      VT_SAME(value(c), read(o), "view:as_owner");
      count_is(o, expected(c), "as_owner");
    }
    count("view");
  }
  // Mutations exist for dynamic values only
  template <class Q = P, std::enable_if_t<!Traits<Q>::dyn>* = nullptr> void mutate(H&, size_t) {}
  template <class Q = P, std::enable_if_t<Traits<Q>::dyn>* = nullptr>
  void mutate(H& h, size_t j) {
    M& m = h.m;
    if (!m.node || m.node->k == STR) return;
    // The value to put in: fresh, a copy of a handle, or a moved handle
    unsigned how = static_cast<unsigned>(r.below(4));
    auto with = [&](auto&& f) {
      if (how == 0) { V v = val(2); f(plain<P>(v), fresh(v)); return; }
      auto& s = *hs[j];
      V sv_ = value(s.m);
      if (nodes(sv_) + nodes(value(m)) > 200) { f(P(1), fresh(V::integer(1))); return; }
      M c = s.m; if (c.buf) c = fresh(sv_);       // finalized values are copied into dynamic storage
      if (how == 1 || &s == &h) { f(s.p, std::move(c)); count(&s == &h ? "self-insert" : "insert-copy"); return; }
      bool was_fin = static_cast<bool>(s.m.buf);
      s.m = M();                                   // a moved-from handle owns nothing
      if (!was_fin) { f(std::move(s.p), std::move(c)); }
      else f(std::move(s.p), std::move(c));
      s.p = P(); count("insert-move");
    };
    if (m.node->k == OBJ) {
      std::string k(1, static_cast<char>('a' + r.below(5)));
      switch (r.below(6)) {
        case 0: case 1: with([&](auto&& p, M x) { h.p.add_field(S(k), std::forward<decltype(p)>(p)); own(m); m.node->o[k] = std::move(x); }); break;
        case 2: with([&](auto&& p, M x) { h.p.insert(S(k), std::forward<decltype(p)>(p)); own(m); m.node->o[k] = std::move(x); }); break;
        case 3: if (m.node->o.count(k)) with([&](auto&& p, M x) { h.p.set(S(k), std::forward<decltype(p)>(p)); own(m); m.node->o[k] = std::move(x); }); break;
        case 4: if (m.node->o.count(k)) { h.p.erase(S(k)); own(m); m.node->o.erase(k); } break;
        default: if (r.chance(1, 4)) { h.p.clear(); own(m); m.node->o.clear(); } else if (m.node->o.count(k)) { h.p.erase(h.p.find(S(k))); own(m); m.node->o.erase(k); } break;
      }
    } else {
      size_t n = m.node->a.size(), at = r.below(n + 1);
      switch (r.below(9)) {
        case 0: with([&](auto&& p, M x) { h.p.push_back(std::forward<decltype(p)>(p)); own(m); m.node->a.push_back(std::move(x)); }); break;
        case 1: with([&](auto&& p, M x) { h.p.push_front(std::forward<decltype(p)>(p)); own(m); m.node->a.insert(m.node->a.begin(), std::move(x)); }); break;
        case 2: case 3: with([&](auto&& p, M x) { h.p.insert(at, std::forward<decltype(p)>(p)); own(m); m.node->a.insert(m.node->a.begin() + static_cast<long>(at), std::move(x)); }); break;
        case 4: if (at < n) with([&](auto&& p, M x) { h.p.set(at, std::forward<decltype(p)>(p)); own(m); m.node->a[at] = std::move(x); }); break;
        case 5: if (at < n) { h.p.erase(at); own(m); m.node->a.erase(m.node->a.begin() + static_cast<long>(at)); } break;
        case 6: if (n) { if (r.chance(1, 2)) { h.p.pop_back(); own(m); m.node->a.pop_back(); } else { h.p.pop_front(); own(m); m.node->a.erase(m.node->a.begin()); } } break;
        case 7: if (r.chance(1, 3)) { h.p.clear(); own(m); m.node->a.clear(); } break;
        default: with([&](auto&& p, M x) { size_t c = n + r.below(3); P keep = p; h.p.resize(c, keep); own(m); m.node->a.resize(c, x); }); break;
      }
    }
    count("mutate");
  }
  template <class Q = P, std::enable_if_t<Traits<Q>::packet>* = nullptr>
  void forms(H& h) {
    if (kind(h.m) != OBJ) return;
    V v = value(h.m);
    if (h.m.buf) { h.p.lift(); h.m = fresh(v); count("lift"); }
    else { h.p.finalize(); h.m = M(); h.m.v = v; h.m.buf = std::make_shared<int>(); count("finalize"); }
  }
  template <class Q = P, std::enable_if_t<!Traits<Q>::packet>* = nullptr> void forms(H&) {}
  template <class Q = P, std::enable_if_t<std::is_constructible<typename Q::object, Q>::value && Traits<Q>::packet>* = nullptr>
  void wrap(H& h) {
    if (kind(h.m) == OBJ) { typename P::object o(h.p); M c = h.m; VT_CHECK(o.refcount() == expected(c), "refcount:wrapper", ""); typename P::object o2 = std::move(o); VT_CHECK(o2.refcount() == expected(c), "refcount:wrapper-moved", ""); hs.push_back(std::make_unique<H>(H{P(std::move(o2)), c})); }
    else if (kind(h.m) == ARR) { typename P::array o(h.p); M c = h.m; VT_CHECK(o.refcount() == expected(c), "refcount:wrapper", ""); hs.push_back(std::make_unique<H>(H{P(o), c})); }
    else return;
    count("wrap");
  }
  template <class Q = P, std::enable_if_t<!Traits<Q>::packet>* = nullptr> void wrap(H&) {}
  void op() {
    if (hs.size() < 2) { make(); return; }
    size_t i = r.below(hs.size()), j = r.below(hs.size());
    switch (r.below(18)) {
      case 0: if (hs.size() < 9) make(); break;
      case 1: { auto h = std::make_unique<H>(H{hs[i]->p, hs[i]->m}); hs.push_back(std::move(h)); count("copy"); break; }
      case 2: hs[i]->p = hs[j]->p; hs[i]->m = M(hs[j]->m); count(i == j ? "self-assign" : "assign"); break;
      case 3: { auto& a = *hs[i]; auto& b = *hs[j];
        if (i == j) { auto& q = a.p; a.p = std::move(q); count("self-move"); break; }
        a.p = std::move(b.p); a.m = std::move(b.m); b.m = M(); b.m.v = V::null();
        VT_CHECK(b.p.refcount() == 0, "refcount:moved-from", std::to_string(b.p.refcount())); b.p = P(); count("move-assign"); break; }
      case 4: { auto h = std::make_unique<H>(H{std::move(hs[i]->p), std::move(hs[i]->m)}); hs[i]->m = M(); VT_CHECK(hs[i]->p.refcount() == 0, "refcount:moved-from", std::to_string(hs[i]->p.refcount())); hs[i]->p = P(); hs.push_back(std::move(h)); count("move"); break; }
      case 5: { using std::swap; swap(hs[i]->p, hs[j]->p); swap(hs[i]->m, hs[j]->m); count("swap"); break; }
      case 6: case 7: { hs.erase(hs.begin() + static_cast<long>(i)); count("destroy"); break; }
      case 8: case 9: { // a member outlives its parent
        M c; std::string k; size_t n = 0; bool arr = kind(hs[i]->m) == ARR;
        if (!member(hs[i]->m, c, k, n)) break;
        P x = arr ? (r.chance(1, 2) ? hs[i]->p[n] : hs[i]->p.get(n)) : (r.chance(1, 2) ? hs[i]->p[S(k)] : *hs[i]->p.find(S(k)));
        if (r.chance(1, 3)) hs[i] = std::make_unique<H>(H{std::move(x), c});
        else hs.push_back(std::make_unique<H>(H{std::move(x), c}));
        count("extract"); break;
      }
      case 10: { // replace a handle by its own member
        M c; std::string k; size_t n = 0; bool arr = kind(hs[i]->m) == ARR;
        if (!member(hs[i]->m, c, k, n)) break;
        auto& p = hs[i]->p;
        if (r.chance(1, 2)) { if (arr) p = std::move(p)[n]; else p = std::move(p)[S(k)]; }
        else { if (arr) p = p[n]; else p = p[S(k)]; }
        hs[i]->m = c; count("own-member"); break;
      }
      case 11: if (hs[i]->m.buf && (hs[i]->m.v.k == OBJ || hs[i]->m.v.k == ARR) && its.size() < 4) {
        auto& p = hs[i]->p;
        auto it = std::make_unique<Iter>(Iter{p.begin(), p.end(), M(), V::arr()});
        it->m.buf = hs[i]->m.buf; auto second = hs[i]->m.buf; it->m.v = V::null();
        for (auto& e : hs[i]->m.v.o) it->rest.a.push_back(e.second);
        for (auto& e : hs[i]->m.v.a) it->rest.a.push_back(e);
        it->m.node = std::make_shared<Node>(); it->m.node->k = STR; it->m.node->a.push_back(M()); it->m.node->a[0].buf = second; // begin and end both own
        its.push_back(std::move(it)); count("iterator"); break;
      } break;
      case 12: if (!its.empty()) { size_t n = r.below(its.size()); auto& it = *its[n]; if (r.chance(1, 2) && it.it != it.end) { ++it.it; it.rest.a.erase(it.rest.a.begin()); auto copy = it.it; it.it = std::move(copy); } else its.erase(its.begin() + static_cast<long>(n)); } break;
      case 13: forms(*hs[i]); break;
      case 14: wrap(*hs[i]); break;
      default: mutate(*hs[i], j); break;
    }
    while (hs.size() > 9) hs.erase(hs.begin() + static_cast<long>(r.below(hs.size())));
  }
  void run() {
    size_t n = 10 + r.below(60);
    for (size_t k = 0; k < n; ++k) { op(); verify(); for (auto& h : hs) seen(hash(value(h->m)) + expected(h->m)); }
    if (want_sample()) { std::string s; for (auto& h : hs) s += show(value(h->m), 60) + " x" + std::to_string(expected(h->m)) + " | "; sample(s); }
  }
};
template <class P> static void counting(Rng& r, char const* tag) { { Counts<P> c(r); c.run(); } count(tag); }
// The user-defined counter saw as many releases as acquisitions
inline void probe_balance() { auto& s = probe::stats(); VT_CHECK(s.blocks == 0 && s.owners == 0, "probe:balance", std::to_string(s.blocks) + " blocks and " + std::to_string(s.owners) + " owners left"); count("probe-blocks", static_cast<uint64_t>(s.made)); s = probe::Stats(); }
