// P08: threads working on their own handles to shared data. ThreadSanitizer decides races, the per-handle model decides values.
#pragma once
#include "hist.h"
#include <thread>
#include <atomic>
#include <memory>
#include <sched.h>
#include <unistd.h>

// Global order of the operations, for evidence about interleavings. Relaxed, so that it orders nothing.
struct Trace {
  std::atomic<unsigned> next {0};
  enum { N = 512 };
  std::atomic<unsigned char> who[N] {};
  void mark(unsigned t) { unsigned n = next.fetch_add(1, std::memory_order_relaxed); if (n < N) who[n].store(static_cast<unsigned char>(t + 1), std::memory_order_relaxed); }
  // Called after every thread is joined
  void finish() {
    unsigned n = std::min<unsigned>(next.load(), N), switches = 0;
    uint64_t h = 0;
    for (unsigned k = 0; k < n; ++k) { unsigned w = who[k].load(); h = mix(h * 31 + w); if (k && w != who[k - 1].load()) ++switches; }
    seen(h);
    count("ops", n); count("switches", switches);
    if (switches > n / 8) count("interleaved-cases");
  }
};
struct Barrier {
  std::atomic<unsigned> in {0}; unsigned n;
  explicit Barrier(unsigned k) : n(k) {}
  void wait() { in.fetch_add(1, std::memory_order_relaxed); while (in.load(std::memory_order_relaxed) < n) {} }
};
inline void jitter(Rng& r) {
  switch (r.below(14)) {
    case 0: sched_yield(); break;
    case 1: for (volatile unsigned n = 0, m = static_cast<unsigned>(r.below(400)); n < m; n = n + 1) {} break;
    case 2: if (r.chance(1, 10)) usleep(static_cast<useconds_t>(r.below(60))); break;
    default: break;
  }
}

template <class P> struct Finalized { static bool is(P const&) { return false; } static void finalize(P&) {} static void lift(P&) {} };
template <template <class> class RC> struct Finalized<dart::basic_packet<RC>> {
  using P = dart::basic_packet<RC>;
  static bool is(P const& p) { return p.is_finalized(); }
  static void finalize(P& p) { p.finalize(); }
  static void lift(P& p) { p.lift(); }
};
template <class P> struct Buf;
template <template <class> class RC> struct Buf<dart::basic_heap<RC>> { using type = dart::basic_buffer<RC>; static type of(dart::basic_heap<RC> const& p) { return p.finalize(); } static dart::basic_heap<RC> lift(type const& b) { return b.lift(); } };
template <template <class> class RC> struct Buf<dart::basic_packet<RC>> { using type = dart::basic_buffer<RC>; static type of(dart::basic_packet<RC> const& p) { dart::basic_packet<RC> q(p); q.finalize(); return type(q); } static dart::basic_packet<RC> lift(type const& b) { return dart::basic_packet<RC>(b.lift()); } };

template <class P>
struct Slot { P p; V v; std::string json; };

template <class P>
static std::string json_of(P const& p) { return p.to_json(); }

// One thread's life: a pool of handles of its own.
template <class P>
struct Life {
  using B = typename Buf<P>::type;
  Rng r; Gen g; Hist h;
  std::vector<Slot<P>> hs;
  std::vector<std::pair<B, V>> bufs;
  P const* shared = nullptr; V const* shared_v = nullptr; B const* shared_b = nullptr; V const* shared_bv = nullptr;
  Trace* tr = nullptr; unsigned id = 0;
  Life(uint64_t seed, GenOpt o) : r(seed), g(r, o), h(r, g) { h.failing = r.chance(1, 3); }

  bool roomy(V const& v) { return nodes(v) < 250; }
  void add(P p, V v) { if (!roomy(v)) return; if (hs.size() < 7) hs.push_back({std::move(p), std::move(v), ""}); else { auto& s = hs[r.below(hs.size())]; s.p = std::move(p); s.v = std::move(v); s.json.clear(); } }
  void addb(B b, V v) { if (bufs.size() < 5) bufs.emplace_back(std::move(b), std::move(v)); else { auto& s = bufs[r.below(bufs.size())]; s.first = std::move(b); s.second = std::move(v); } }
  template <class Q> bool child(Q const& p, V const& v, Q& out, V& w) {
    if (v.k == OBJ && !v.o.empty()) {
      auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size()))); w = it->second;
      switch (r.below(3)) { case 0: out = p[S(it->first)]; break; case 1: out = p.at(S(it->first)); break; default: out = *p.find(S(it->first)); break; }
      return true;
    }
    if (v.k == ARR && !v.a.empty()) { size_t n = r.below(v.a.size()); w = v.a[n]; if (r.chance(1, 2)) out = p[n]; else out = p.get(n); return true; }
    return false;
  }
  void step_one() {
    tr->mark(id); jitter(r);
    if (hs.empty()) {
      if (shared) { add(P(*shared), *shared_v); count("copy-shared"); }
      else { V v = g.value(2); add(build<P>(v, r), v); }
      return;
    }
    size_t i = r.below(hs.size()); auto& s = hs[i];
    switch (r.below(22)) {
      case 0: case 1: VT_SAME(s.v, read(s.p), "thread:read"); count("read"); break;
      case 2: { P c(s.p); V v = s.v; add(std::move(c), v); count("copy"); break; }
      case 3: case 4: { P c; V w; if (child(s.p, s.v, c, w)) { VT_SAME(w, read(c), "thread:child"); add(std::move(c), w); count("child"); } break; }
      case 5: { size_t j = r.below(hs.size()); if (j != i) { s.p = hs[j].p; s.v = hs[j].v; count("assign"); } break; }
      case 6: { hs.erase(hs.begin() + static_cast<long>(i)); count("destroy"); break; }
      case 7: case 8: case 9: case 10:
        if (Finalized<P>::is(s.p)) { if (r.chance(1, 2)) { Finalized<P>::lift(s.p); count("lift"); } break; }
        step(s.p, s.v, h); VT_SAME(s.v, read(s.p), "thread:mutated"); count("mutate"); break;
      case 11: { std::string j = json_of(s.p), k = json_of(plain<P>(s.v)); eval(); if (j != k) fail("thread:json", j + " instead of " + k); count("serialise"); break; }
      case 12: if (s.v.k == OBJ) { Finalized<P>::finalize(s.p); VT_SAME(s.v, read(s.p), "thread:finalized"); count("finalize"); } break;
      case 13: if (s.v.k == OBJ) { B b = Buf<P>::of(s.p); V v = s.v; addb(std::move(b), v); count("lower"); } break;
      case 14: { size_t j = r.below(hs.size()); eval(); bool eq = s.p == hs[j].p; bool want = same(s.v, hs[j].v); if (want && !eq) fail("thread:equal", "equal handles compare unequal"); count("compare"); break; }
      case 15: if (!bufs.empty()) { auto& b = bufs[r.below(bufs.size())]; VT_SAME(b.second, read(b.first), "thread:buffer"); V w; B c; if (child(b.first, b.second, c, w)) { VT_SAME(w, read(c), "thread:buffer-child"); if (c.is_object()) addb(std::move(c), w); } count("buffer-read"); } break;
      case 16: if (!bufs.empty()) { auto& b = bufs[r.below(bufs.size())]; P p = Buf<P>::lift(b.first); V v = b.second; VT_SAME(v, read(p), "thread:lift"); add(std::move(p), v); count("buffer-lift"); } break;
      case 17: if (!bufs.empty()) { size_t k = r.below(bufs.size()); if (r.chance(1, 2)) bufs.erase(bufs.begin() + static_cast<long>(k)); else { B c(bufs[k].first); V v = bufs[k].second; addb(std::move(c), v); } count("buffer-drop"); } break;
      case 18: if (shared) { P c(*shared); V w = *shared_v; add(std::move(c), w); count("copy-shared"); if (r.chance(1, 3)) { VT_SAME(*shared_v, read(*shared), "thread:shared-read"); V cw; P cp; if (child(*shared, *shared_v, cp, cw)) add(std::move(cp), cw); count("read-shared"); } } break;
      case 19: if (shared_b) { addb(B(*shared_b), *shared_bv); if (r.chance(1, 3)) { VT_SAME(*shared_bv, read(*shared_b), "thread:shared-buffer"); std::string j = shared_b->to_json(); } count("copy-shared-buffer"); } break;
      case 20: { // a view of a handle of this thread
        typename P::view w(s.p); VT_SAME(s.v, read(w), "thread:view"); count("view"); break;
      }
      default: { // iterate with iterators that are copied on the way
        if (s.v.k == ARR) { size_t n = 0; for (auto it = s.p.begin(); it != s.p.end(); ) { auto c = it++; VT_SAME(s.v.a[n], read(*c), "thread:iterate"); ++n; } }
        else if (s.v.k == OBJ) { auto kv = s.p.kvbegin(); for (auto& e : s.v.o) { auto c = kv; eval(); if (str((*std::get<0>(c)).strv()) != e.first) fail("thread:iterate", "key order"); VT_SAME(e.second, read(*std::get<1>(c)), "thread:iterate"); ++std::get<0>(kv); ++std::get<1>(kv); } }
        count("iterate"); break;
      }
    }
  }
};

template <class P>
static void storm(Rng& r, char const* tag) {
  using B = typename Buf<P>::type;
  GenOpt o; o.depth = 2; o.width = 4; o.big = false; o.utf8 = true;
  Gen g(r, o);
  unsigned nt = 2 + static_cast<unsigned>(r.below(4));
  // What the threads share
  std::vector<std::pair<P, V>> bases;
  for (unsigned n = 0, m = 1 + static_cast<unsigned>(r.below(3)); n < m; ++n) {
    V v = g.aggregate(); P p = build<P>(v, r);
    if (v.k == OBJ && r.chance(1, 3)) Finalized<P>::finalize(p);
    bases.emplace_back(std::move(p), v);
  }
  if (bases.size() > 1 && r.chance(1, 2)) { // one stored in another
    auto& a = bases[0]; auto& b = bases[1];
    if (!Finalized<P>::is(a.first) && !Finalized<P>::is(b.first)) {
      if (a.second.k == ARR) { a.first.push_back(b.first); a.second.a.push_back(b.second); }
      else { a.first.add_field("inner", b.first); a.second.o["inner"] = b.second; }
    }
  }
  V bv = g.root_object(); B shared_b = Buf<P>::of(build<P>(bv, r));
  // Shared raw bytes whose release is counted
  auto freed = std::make_shared<std::atomic<int>>(0);

  Barrier bar(nt); Trace tr;
  std::vector<std::unique_ptr<Life<P>>> lives;
  std::vector<std::unique_ptr<Worker>> ws;
  bool keep = r.chance(1, 2);
  for (unsigned t = 0; t < nt; ++t) {
    lives.emplace_back(new Life<P>(r.next(), o)); auto& l = *lives.back();
    l.tr = &tr; l.id = t;
    if (keep) { l.shared = &bases[0].first; l.shared_v = &bases[0].second; }
    if (r.chance(1, 2)) { l.shared_b = &shared_b; l.shared_bv = &bv; }
    for (auto& b : bases) {
      for (unsigned n = 0, m = 1 + static_cast<unsigned>(r.below(2)); n < m; ++n) l.add(P(b.first), b.second);
      P c; V w; if (r.chance(1, 2) && l.child(b.first, b.second, c, w)) l.add(std::move(c), w);
    }
    l.addb(shared_b, bv);
    ws.emplace_back(new Worker);
  }
  if (!keep) bases.clear();     // the last owner is one of the threads
  unsigned steps = 6 + static_cast<unsigned>(r.below(30));
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    ws[t]->run([&] {
      auto& l = *lives[t];
      bar.wait();
      for (unsigned n = 0; n < steps; ++n) l.step_one();
      for (auto& s : l.hs) VT_SAME(s.v, read(s.p), "thread:final");
      l.hs.clear(); l.bufs.clear();
    });
  });
  for (auto& t : ts) t.join();
  for (auto& w : ws) w->merge();
  tr.finish();
  for (auto& b : bases) VT_SAME(b.second, read(b.first), "shared:changed");
  VT_SAME(bv, read(shared_b), "shared:buffer-changed");
  for (auto& b : bases) VT_CHECK(b.second.k == OBJ || b.second.k == ARR ? b.first.refcount() >= 1 : true, "shared:refcount", "");
  lives.clear();
  VT_CHECK(shared_b.refcount() == 1, "shared:owners", "buffer still has " + std::to_string(shared_b.refcount()) + " owners");
  if (keep && bases.size() == 1) VT_CHECK(bases[0].first.refcount() == 1, "shared:owners", std::to_string(bases[0].first.refcount()));
  count(tag);
  if (want_sample()) sample(std::to_string(nt) + " threads x " + std::to_string(steps) + " operations sharing " + show(bv, 200));
}

// The last owners of one block race to let go of it; it is released exactly once.
template <template <class> class RC>
static void last_owner(Rng& r, char const* tag) {
  GenOpt o; o.depth = 2; o.width = 4; o.big = false;
  Gen g(r, o);
  V v = g.root_object();
  dart::basic_buffer<RC> proto(plain<dart::basic_heap<RC>>(v).finalize());
  auto bytes = proto.get_bytes();
  auto* freed = new std::atomic<int>(0);
  void* mem = nullptr;
  if (posix_memalign(&mem, 8, static_cast<size_t>(bytes.size()))) abort();
  memcpy(mem, bytes.data(), static_cast<size_t>(bytes.size()));
  unsigned nt = 2 + static_cast<unsigned>(r.below(4));
  std::vector<std::vector<std::pair<dart::basic_buffer<RC>, V>>> own(nt);
  std::vector<std::vector<dart::basic_packet<RC>>> pown(nt);
  {
    struct Del { std::atomic<int>* f; void operator()(gsl::byte const* p) const { f->fetch_add(1, std::memory_order_relaxed); free(const_cast<gsl::byte*>(p)); } };
    RC<gsl::byte const> rc(static_cast<gsl::byte const*>(mem), Del {freed});
    dart::basic_buffer<RC> b(std::move(rc));
    for (unsigned t = 0; t < nt; ++t) for (unsigned n = 0, m = 1 + static_cast<unsigned>(r.below(3)); n < m; ++n) { if (r.chance(1, 2)) own[t].emplace_back(b, v); else pown[t].push_back(dart::basic_packet<RC>(b)); if (!v.o.empty() && r.chance(1, 2)) own[t].emplace_back(b[S(v.o.begin()->first)], v.o.begin()->second); }
  }
  Barrier bar(nt); Trace tr;
  std::vector<std::unique_ptr<Worker>> ws; for (unsigned t = 0; t < nt; ++t) ws.emplace_back(new Worker);
  std::vector<std::thread> ts; uint64_t seed = r.next();
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    ws[t]->run([&] {
      Rng q(seed + t); bar.wait();
      while (!own[t].empty() || !pown[t].empty()) {
        tr.mark(t); jitter(q);
        if (!own[t].empty() && (pown[t].empty() || q.chance(1, 2))) {
          auto& b = own[t].back().first;
          if (q.chance(1, 2)) VT_SAME(own[t].back().second, read(b), "last-owner:value");
          if (q.chance(1, 4) && own[t].size() < 6) { auto c = own[t].back(); own[t].push_back(c); }
          else if (q.chance(1, 3)) { auto it = b.is_object() && b.size() ? b.begin() : decltype(b.begin()) {}; own[t].pop_back(); if (it != decltype(it) {}) { auto x = *it; V w = read(x); } }
          else own[t].pop_back();
        } else {
          auto& p = pown[t].back();
          VT_SAME(v, read(p), "last-owner:packet");
          if (q.chance(1, 3)) { p.lift(); p.add_field("new", 1); }
          pown[t].pop_back();
        }
      }
    });
  });
  for (auto& t : ts) t.join();
  for (auto& w : ws) w->merge();
  tr.finish();
  VT_CHECK(freed->load() == 1, "last-owner:released", "storage released " + std::to_string(freed->load()) + " times");
  delete freed;
  count("last-owner"); count(tag);
}
