// P08 through the C interface: threads with their own handles to shared data, and the per-thread error message.
#include "p08.h"
#include <dart/abi.h>

struct CH { alignas(16) dart_packet_t p; V v; bool fin; };
static std::string cjson(void const* p) {
  size_t n = 0; char* s = dart_to_json(p, &n);
  if (!s) fail("c:to_json", dart_get_error());
  std::string r(s, n); free(s); return r;
}
static std::string vjson(V const& v) { return plain<dart::heap>(v).to_json(); }
static void ok(dart_err_t e, char const* key) { eval(); if (e != DART_NO_ERROR) fail(key, dart_get_error()); }

struct CLife {
  Rng r; Gen g; Trace* tr = nullptr; unsigned id = 0;
  std::vector<std::unique_ptr<CH>> hs;
  std::string lasterr;
  CLife(uint64_t s, GenOpt o) : r(s), g(r, o) {}
  ~CLife() { for (auto& h : hs) dart_destroy(&h->p); }
  CH& add(V v, bool fin) { hs.emplace_back(new CH); hs.back()->v = std::move(v); hs.back()->fin = fin; return *hs.back(); }
  void drop(size_t i) { ok(dart_destroy(&hs[i]->p), "c:destroy"); hs.erase(hs.begin() + static_cast<long>(i)); }
  void check(CH& h, char const* key) { eval(); std::string w = vjson(h.v), j = cjson(&h.p); if (w != j) fail(key, j + " instead of " + w); }
  void error() {
    // An error of this thread; the message must stay this thread's own
    alignas(16) dart_packet_t t; 
    std::string k = "thread" + std::to_string(id) + "-" + std::to_string(r.below(1000));
    switch (r.below(3)) {
      case 0: { std::string s = "{\"" + k; eval(); if (dart_from_json_err(&t, s.c_str()) == DART_NO_ERROR) fail("c:parse-error", "accepted " + s); break; }
      case 1: { dart_packet_t n = dart_int_init(3); eval(); if (dart_obj_insert_int(&n, k.c_str(), 1) == DART_NO_ERROR) fail("c:insert-error", "inserted into an integer"); dart_destroy(&n); break; }
      default: { dart_packet_t a = dart_arr_init(); eval(); if (dart_arr_set_int(&a, 5, 1) == DART_NO_ERROR) fail("c:set-error", "set past the end"); dart_destroy(&a); break; }
    }
    lasterr = dart_get_error();
    eval(); if (lasterr.empty()) fail("c:error-empty", "no message");
    for (unsigned n = 0; n < 3; ++n) { jitter(r); eval(); if (lasterr != dart_get_error()) fail("c:error-message", lasterr + " became " + dart_get_error()); }
    count("error");
  }
  void one() {
    tr->mark(id); jitter(r);
    if (!lasterr.empty()) { eval(); if (lasterr != dart_get_error()) fail("c:error-message", lasterr + " became " + dart_get_error()); }
    if (hs.empty() || hs.size() < 2) { V v = g.root_object(); std::string j = vjson(v); auto& h = add(v, true); dart_err_t e = dart_from_json_len_err(&h.p, j.data(), j.size()); ok(e, "c:from_json"); h.v = read(reinterpret_cast<dart::packet&>(h.p.bytes)); h.fin = dart_is_finalized(&h.p); check(h, "c:parsed"); return; }
    size_t i = r.below(hs.size()); CH& h = *hs[i];
    switch (r.below(12)) {
      case 0: check(h, "c:read"); count("c-read"); break;
      case 1: { if (hs.size() > 6) break; V v = h.v; bool f = h.fin; auto& c = add(v, f); ok(dart_copy_err(&c.p, &hs[i]->p), "c:copy"); count("c-copy"); break; }
      case 2: drop(i); count("c-destroy"); break;
      case 3: case 4: {
        if (h.v.k != OBJ || h.fin) break;
        std::string k = r.chance(1, 2) && !h.v.o.empty() ? h.v.o.begin()->first : g.text(2);
        switch (r.below(5)) {
          case 0: { auto n = g.integer(); ok(dart_obj_insert_int_len(&h.p, k.data(), k.size(), n), "c:insert"); h.v.o[k] = V::integer(n); break; }
          case 1: { auto s = g.string(); ok(dart_obj_insert_str_len(&h.p, k.data(), k.size(), s.data(), s.size()), "c:insert"); h.v.o[k] = V::str(s); break; }
          case 2: ok(dart_obj_erase_len(&h.p, k.data(), k.size()), "c:erase"); h.v.o.erase(k); break;
          case 3: { size_t j = r.below(hs.size()); if (nodes(hs[j]->v) + nodes(h.v) > 200) break; V w = hs[j]->v; ok(dart_obj_insert_dart_len(&h.p, k.data(), k.size(), &hs[j]->p), "c:insert"); h.v.o[k] = w; break; }
          default: if (r.chance(1, 3)) { ok(dart_obj_clear(&h.p), "c:clear"); h.v.o.clear(); } break;
        }
        check(h, "c:mutated"); count("c-mutate"); break;
      }
      case 5: { if (h.v.k != OBJ || hs.size() > 6) break; V v = h.v; auto& c = add(v, true); ok(dart_finalize_err(&c.p, &hs[i]->p), "c:finalize"); check(c, "c:finalized"); count("c-finalize"); break; }
      case 6: { if (h.v.k != OBJ || hs.size() > 6) break; V v = h.v; auto& c = add(v, false); ok(dart_lift_err(&c.p, &hs[i]->p), "c:lift"); check(c, "c:lifted"); count("c-lift"); break; }
      case 7: { if (h.v.k != OBJ || h.v.o.empty() || hs.size() > 6) break; auto it = h.v.o.begin(); std::advance(it, static_cast<long>(r.below(h.v.o.size()))); V v = it->second; std::string k = it->first; bool f = h.fin; auto& c = add(v, f); ok(dart_obj_get_len_err(&c.p, &hs[i]->p, k.data(), k.size()), "c:get"); check(c, "c:child"); if (v.k != OBJ && v.k != ARR) { c.fin = true; } count("c-child"); break; }
      case 8: { // iterate
        if (h.v.k != OBJ) break;
        alignas(16) dart_iterator_t it; ok(dart_iterator_init_key_from_err(&it, &h.p), "c:iterator");
        auto e = h.v.o.begin();
        while (!dart_iterator_done(&it)) { eval(); if (e == h.v.o.end()) fail("c:iterate", "too many keys"); dart_packet_t k = dart_iterator_get(&it); size_t n = 0; char const* s = dart_str_get_len(&k, &n); if (std::string(s, n) != e->first) fail("c:iterate", "wrong key"); dart_destroy(&k); ++e; dart_iterator_next(&it); }
        eval(); if (e != h.v.o.end()) fail("c:iterate", "too few keys");
        dart_iterator_destroy(&it); count("c-iterate"); break;
      }
      case 9: { size_t j = r.below(hs.size()); eval(); if (same(h.v, hs[j]->v) && !dart_equal(&h.p, &hs[j]->p)) fail("c:equal", "equal handles differ"); count("c-equal"); break; }
      default: error(); break;
    }
  }
};

static void capi(Rng& r) {
  GenOpt o; o.depth = 2; o.width = 4; o.big = false; o.utf8 = true; o.negzero = false;
  Gen g(r, o);
  unsigned nt = 2 + static_cast<unsigned>(r.below(4));
  Trace tr; Barrier bar(nt);
  std::vector<std::unique_ptr<CH>> bases;
  for (unsigned n = 0, m = 1 + static_cast<unsigned>(r.below(3)); n < m; ++n) {
    V v = g.root_object(); bases.emplace_back(new CH); auto& b = *bases.back(); b.v = v; b.fin = r.chance(1, 2);
    dart::packet p = build<dart::packet>(v, r); if (b.fin) p.finalize();
    b.p.rtti = {DART_PACKET, DART_RC_SAFE}; new (&b.p.bytes) dart::packet(p);
  }
  std::vector<std::unique_ptr<CLife>> ls; std::vector<std::unique_ptr<Worker>> ws;
  bool keep = r.chance(1, 2);
  for (unsigned t = 0; t < nt; ++t) {
    ls.emplace_back(new CLife(r.next(), o)); ls.back()->tr = &tr; ls.back()->id = t; ws.emplace_back(new Worker);
    for (auto& b : bases) for (unsigned n = 0, m = 1 + static_cast<unsigned>(r.below(2)); n < m; ++n) { auto& c = ls.back()->add(b->v, b->fin); ok(dart_copy_err(&c.p, &b->p), "c:copy"); }
  }
  if (!keep) { for (auto& b : bases) dart_destroy(&b->p); bases.clear(); }
  unsigned steps = 6 + static_cast<unsigned>(r.below(25));
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] { ws[t]->run([&] { bar.wait(); for (unsigned n = 0; n < steps; ++n) ls[t]->one(); while (!ls[t]->hs.empty()) ls[t]->drop(0); }); });
  for (auto& t : ts) t.join();
  for (auto& w : ws) w->merge();
  tr.finish();
  ls.clear();
  for (auto& b : bases) { ls.clear(); VT_CHECK(cjson(&b->p) == vjson(b->v), "c:shared-changed", ""); if (bases.size() == 1) VT_CHECK(dart_refcount(&b->p) == 1, "c:owners", std::to_string(dart_refcount(&b->p))); dart_destroy(&b->p); }
  count("capi");
}
int main(int c, char** v) { return vt::main(c, v, {{"capi", capi}}); }
