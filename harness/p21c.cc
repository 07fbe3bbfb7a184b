// P21, the C interface: every call with its k-th allocation failing.
#include "dt.h"
#include "p21_inject.h"
#include <dart/abi.h>
#include <dart/api_swap.h>
#include <thread>
namespace vt { namespace alloc { void forget(void const*); } }
using namespace vt;
template <bool safe> struct Sel { using H = dart::heap; using B = dart::buffer; using P = dart::packet; static constexpr dart_rc_type_t rc = DART_RC_SAFE; };
template <> struct Sel<false> { using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet; static constexpr dart_rc_type_t rc = DART_RC_UNSAFE; };
template <bool safe> struct CW {
  using H = typename Sel<safe>::H; using B = typename Sel<safe>::B; using P = typename Sel<safe>::P;
  static constexpr dart_rc_type_t rc = Sel<safe>::rc;
  dart_heap_t hobj, hshare, harr, outh; dart_buffer_t bobj, outb; dart_packet_t pobj, pshare, parr, pfin, pmem, pstr, out; dart_iterator_t it; bool has_it = false, has_out = false, has_outh = false, has_outb = false;
  std::string text; char* raw = nullptr; size_t raw_len = 0; void* bytes = nullptr; size_t visits = 0; int32_t number = 0;
  CW(std::vector<V> const& vs) {
    H ho = plain<H>(vs[0]), ha = plain<H>(vs[1]), o2 = plain<H>(vs[0]), a2 = plain<H>(vs[1]), s2 = plain<H>(vs[2]);
    dart::unsafe_api_swap(&hobj, ho); dart::unsafe_api_swap(&hshare, ho); dart::unsafe_api_swap(&harr, ha);
    dart::unsafe_api_swap(&bobj, ho.lower()); dart::unsafe_api_swap(&pobj, P(o2)); dart::unsafe_api_swap(&pshare, P(ho)); dart::unsafe_api_swap(&parr, P(a2)); dart::unsafe_api_swap(&pfin, P(ho.lower()));
    P whole = P::make_object("k", P(o2)); whole.finalize(); dart::unsafe_api_swap(&pmem, whole["k"]); dart::unsafe_api_swap(&pstr, P(s2));
    o2 = H(); a2 = H();
  }
  V val(dart_heap_t const& c) const { H x; dart::unsafe_api_swap(x, &c); return read(x); }
  V val(dart_buffer_t const& c) const { B x; dart::unsafe_api_swap(x, &c); return read(x); }
  V val(dart_packet_t const& c) const { P x; dart::unsafe_api_swap(x, &c); return read(x); }
  std::vector<V> values() const {
    std::vector<V> r {val(hobj), val(hshare), val(harr), val(bobj), val(pobj), val(pshare), val(parr), val(pfin), val(pmem), val(pstr)};
    r.push_back(has_out ? val(out) : V::null()); r.push_back(has_outh ? val(outh) : V::null()); r.push_back(has_outb ? val(outb) : V::null());
    r.push_back(V::str(text)); r.push_back(raw ? V::str(std::string(raw, raw_len)) : V::null()); r.push_back(V::integer(static_cast<int64_t>(visits))); r.push_back(V::integer(number)); r.push_back(V::boolean(bytes != nullptr));
    V items = V::arr(); if (has_it) { dart_iterator_t c; if (!dart_iterator_copy_err(&c, &it)) { while (!dart_iterator_done(&c)) { dart_packet_t x = dart_iterator_get(&c); items.a.push_back(val(x)); dart_destroy(&x); dart_iterator_next(&c); } dart_iterator_destroy(&c); } } r.push_back(items);
    return r;
  }
  ~CW() {
    for (void* p : {static_cast<void*>(&hobj), static_cast<void*>(&hshare), static_cast<void*>(&harr), static_cast<void*>(&bobj), static_cast<void*>(&pobj), static_cast<void*>(&pshare), static_cast<void*>(&parr), static_cast<void*>(&pfin), static_cast<void*>(&pmem), static_cast<void*>(&pstr)}) dart_destroy(p);
    clear();
  }
  void clear() { if (has_out) dart_destroy(&out); if (has_outh) dart_heap_destroy(&outh); if (has_outb) dart_buffer_destroy(&outb); if (has_it) dart_iterator_destroy(&it); free(raw); free(bytes); has_out = has_outh = has_outb = has_it = false; raw = nullptr; bytes = nullptr; }
};
template <class W> struct Call { char const* name; std::function<int(W&)> f; bool strong; };
// Nothing may be thrown into C.
template <class W> static int make(Call<W> const& c, W& w) {
  try { return c.f(w); } catch (...) { inject::disarm(); fail(std::string("c:exception:") + c.name, "an exception left the C function"); }
}
template <class W> static void explore(std::vector<V> const& vs, Call<W> const& c, Rng& r) {
  char const* name = c.name; std::vector<V> before, after; long n = 0; int base = 0;
  { W w(vs); before = w.values(); inject::arm(0, false); base = make(c, w); n = inject::allocations(); inject::disarm(); after = w.values(); }
  count(name); if (!n) { count("no allocation"); return; }
  for (long k = 1; k <= n; ++k) {
    if (n > 24 && k > 6 && !r.chance(18, static_cast<uint64_t>(n))) continue;
    bool sticky = r.chance(1, 2); std::string ctx = std::string(name) + " allocation " + std::to_string(k) + " of " + std::to_string(n) + (sticky ? " and later" : "");
    seen(hash_bytes(ctx.data(), ctx.size()));
    W w(vs); inject::arm(k, sticky); int got = make(c, w); long failed = inject::failures(); unsigned kinds = inject::failed_kinds(); inject::disarm();
    count("injected", static_cast<uint64_t>(failed)); if (kinds & 1) count("new failure"); if (kinds & 2) count("aligned failure"); if (kinds & 4) count("malloc failure");
    std::vector<V> now = w.values(); char const* msg = dart_get_error(); VT_CHECK(msg != nullptr, std::string("c:text:") + name, ctx);
    for (char const* q = msg; *q; ++q) {}
    if (got == base) {
      for (size_t s = 0; s < now.size(); ++s) VT_CHECK(same(now[s], after[s]), std::string("c:completed:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(after[s], now[s]));
      count("survived"); continue;
    }
    VT_CHECK(got != 0, std::string("c:success-after-failure:") + name, ctx + " base " + std::to_string(base));
    for (size_t s = 0; s < now.size(); ++s) {
      bool isb = same(now[s], before[s]), isa = same(now[s], after[s]);
      if (same(before[s], after[s])) VT_CHECK(isb, std::string("c:only-read:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(before[s], now[s]));
      else VT_CHECK(isb || isa || (s >= 10 && s <= 12 && now[s].k == NUL), std::string("c:half-done:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(before[s], now[s]));
    }
    count("refused");
    bool untouched = true; for (size_t s = 0; s < now.size(); ++s) if (!same(now[s], before[s])) untouched = false;
    if (!untouched) { count("partly done"); continue; }
    w.clear(); got = make(c, w); VT_CHECK(got == base, std::string("c:retry-code:") + name, ctx + " gave " + std::to_string(got)); now = w.values(); count("retried");
    for (size_t s = 0; s < now.size(); ++s) VT_CHECK(same(now[s], after[s]), std::string("c:retry:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(after[s], now[s]));
  }
}
template <bool safe> static void run_case(Rng& r) {
  using W = CW<safe>; GenOpt opt; opt.depth = 2; opt.width = 4; opt.big = false; opt.nonfinite = false; Gen g(r, opt);
  V o = g.object(2), a = g.array(2); while (o.o.size() < 2) o.o["k" + std::to_string(o.o.size())] = g.value(1); while (a.a.empty()) a.a.push_back(g.value(1));
  std::vector<V> vs {o, a, V::str(g.text(r.below(40)))};
  std::string key = r.chance(1, 2) ? std::next(o.o.begin(), static_cast<long>(r.below(o.o.size())))->first : "new" + g.text(r.below(20)), s = g.text(r.below(60)), json = plain<dart::heap>(o).to_json(), bad = json.substr(0, r.below(json.size()));
  std::string there = std::next(o.o.begin(), static_cast<long>(r.below(o.o.size())))->first; char const* t = there.data(); size_t tn = there.size();
  char const* k = key.data(); size_t kn = key.size(), i = r.below(a.a.size()); char const* sp = s.data(); size_t sn = s.size(); dart_rc_type_t rc = W::rc;
  auto any = [&, pickd = r.below(6)] (W& w) -> void const* { void const* p[] = {&w.hobj, &w.bobj, &w.pobj, &w.pfin, &w.pmem, &w.pshare}; return p[pickd]; };
  auto made = [] (W& w, int e) { w.has_out = true; return e; };           // constructors leave something destroyable whatever happens
  auto got = [] (W& w, int e) { w.has_out = !e; return e; };              // readers construct only on success
  std::vector<Call<W>> cs {
    {"heap_obj_insert_str", [=] (W& w) { return dart_heap_obj_insert_str_len(&w.hobj, k, kn, sp, sn); }, true},
    {"heap_obj_insert_int", [=] (W& w) { return dart_heap_obj_insert_int_len(&w.hobj, k, kn, 77); }, true},
    {"heap_obj_insert_heap", [=] (W& w) { return dart_heap_obj_insert_heap_len(&w.hobj, k, kn, &w.harr); }, true},
    {"heap_obj_set_str", [=] (W& w) { return dart_heap_obj_set_str_len(&w.hobj, t, tn, sp, sn); }, true},
    {"heap_obj_erase", [=] (W& w) { return dart_heap_obj_erase_len(&w.hobj, t, tn); }, true},
    {"heap_obj_clear", [=] (W& w) { return dart_heap_obj_clear(&w.hobj); }, true},
    {"heap_arr_insert_str", [=] (W& w) { return dart_heap_arr_insert_str_len(&w.harr, i, sp, sn); }, true},
    {"heap_arr_set_dcm", [=] (W& w) { return dart_heap_arr_set_dcm(&w.harr, i, 0.5); }, true},
    {"heap_arr_resize", [=] (W& w) { return dart_heap_arr_resize(&w.harr, 30); }, true},
    {"obj_insert_dart", [=] (W& w) { return dart_obj_insert_dart_len(&w.pobj, k, kn, any(w)); }, true},
    {"obj_insert_take", [=] (W& w) { return dart_obj_insert_take_dart_len(&w.pobj, k, kn, &w.parr); }, true},
    {"obj_insert_str", [=] (W& w) { return dart_obj_insert_str_len(&w.pshare, k, kn, sp, sn); }, true},
    {"obj_set_dart", [=] (W& w) { return dart_obj_set_dart_len(&w.pobj, t, tn, any(w)); }, true},
    {"obj_set_bool", [=] (W& w) { return dart_obj_set_bool_len(&w.pobj, t, tn, 1); }, true},
    {"obj_insert_null", [=] (W& w) { return dart_obj_insert_null_len(&w.pobj, k, kn); }, true},
    {"arr_insert_dart", [=] (W& w) { return dart_arr_insert_dart(&w.parr, i, any(w)); }, true},
    {"arr_insert_str", [=] (W& w) { return dart_arr_insert_str_len(&w.parr, i, sp, sn); }, true},
    {"arr_set_take", [=] (W& w) { return dart_arr_set_take_dart(&w.parr, i, &w.pobj); }, true},
    {"arr_erase", [=] (W& w) { return dart_arr_erase(&w.parr, i); }, true},
    {"arr_reserve", [=] (W& w) { return dart_arr_reserve(&w.parr, 50); }, true},
    {"finalized refused", [=] (W& w) { return dart_obj_insert_int_len(&w.pfin, k, kn, 4); }, true},
    {"wrong type refused", [=] (W& w) { return dart_arr_insert_int(&w.pstr, 0, 4); }, true},
    {"heap_obj_get", [=] (W& w) { int e = dart_heap_obj_get_len_err(&w.outh, &w.hobj, t, tn); w.has_outh = !e; return e; }, true},
    {"obj_get_err", [=] (W& w) { return got(w, dart_obj_get_len_err(&w.out, any(w), t, tn)); }, true},
    {"obj_get", [=] (W& w) { w.out = dart_obj_get_len(any(w), t, tn); w.has_out = true; return 0; }, true},
    {"arr_get_err", [=] (W& w) { return got(w, dart_arr_get_err(&w.out, &w.parr, i)); }, true},
    {"buffer_obj_get", [=] (W& w) { int e = dart_buffer_obj_get_len_err(&w.outb, &w.bobj, t, tn); w.has_outb = !e; return e; }, true},
    {"copy_err", [=] (W& w) { w.out.rtti = {DART_PACKET, rc}; return got(w, dart_copy_err(&w.out, &w.pmem)); }, true},
    {"heap_copy", [=] (W& w) { int e = dart_heap_copy_err(&w.outh, &w.hobj); w.has_outh = !e; return e; }, true},
    {"lower", [=] (W& w) { return got(w, dart_lower_err(&w.out, any(w))); }, true},
    {"lift", [=] (W& w) { return got(w, dart_lift_err(&w.out, any(w))); }, true},
    {"heap_lower", [=] (W& w) { int e = dart_heap_lower_err(&w.outb, &w.hobj); w.has_outb = !e; return e; }, true},
    {"buffer_lift", [=] (W& w) { int e = dart_buffer_lift_err(&w.outh, &w.bobj); w.has_outh = !e; return e; }, true},
    {"to_heap", [=] (W& w) { int e = dart_to_heap_err(&w.outh, any(w)); w.has_outh = !e; return e; }, true},
    {"to_buffer", [=] (W& w) { int e = dart_to_buffer_err(&w.outb, any(w)); w.has_outb = !e; return e; }, true},
    {"obj_init", [=] (W& w) { return made(w, dart_obj_init_rc_err(&w.out, rc)); }, true},
    {"arr_init", [=] (W& w) { return made(w, dart_arr_init_rc_err(&w.out, rc)); }, true},
    {"str_init", [=] (W& w) { return made(w, dart_str_init_rc_len_err(&w.out, rc, sp, sn)); }, true},
    {"heap_str_init", [=] (W& w) { w.has_outh = true; return dart_heap_str_init_rc_len_err(&w.outh, rc, sp, sn); }, true},
    {"heap_obj_init", [=] (W& w) { w.has_outh = true; return dart_heap_obj_init_rc_err(&w.outh, rc); }, true},
    {"obj_init_va", [=] (W& w) { return made(w, dart_obj_init_va_rc_err(&w.out, rc, "ia[Si]so{ib}", "number", 5, "array", sp, sn, 6, "the key of a string", "a string that has to be allocated", "nested", "x", 1, "y", 0)); }, true},
    {"heap_arr_init_va", [=] (W& w) { w.has_outh = true; return dart_heap_arr_init_va_rc_err(&w.outh, rc, "iSo{sd}", 5, sp, sn, "key", "a string that has to be allocated", "d", 0.5); }, true},
    {"va refused", [=] (W& w) { return made(w, dart_obj_init_va_rc_err(&w.out, rc, "ia[i%]", "number", 5, "array", 6)); }, true},
    {"from_json", [=] (W& w) { return made(w, dart_from_json_len_rc_err(&w.out, rc, json.data(), json.size())); }, true},
    {"heap_from_json", [=] (W& w) { w.has_outh = true; return dart_heap_from_json_len_rc_err(&w.outh, rc, json.data(), json.size()); }, true},
    {"buffer_from_json", [=] (W& w) { w.has_outb = true; return dart_buffer_from_json_len_rc_err(&w.outb, rc, json.data(), json.size()); }, true},
    {"json refused", [=] (W& w) { return made(w, dart_from_json_len_rc_err(&w.out, rc, bad.data(), bad.size())); }, true},
    {"to_json", [=] (W& w) { w.raw = dart_to_json(any(w), &w.raw_len); return w.raw ? 0 : 99; }, true},
    {"heap_to_json", [=] (W& w) { w.raw = dart_heap_to_json(&w.hobj, &w.raw_len); return w.raw ? 0 : 99; }, true},
    {"buffer_to_json", [=] (W& w) { w.raw = dart_buffer_to_json(&w.bobj, &w.raw_len); return w.raw ? 0 : 99; }, true},
    {"dup_bytes", [=] (W& w) { size_t n; w.bytes = dart_dup_bytes(&w.pfin, &n); return w.bytes ? 0 : 99; }, true},
    {"from_bytes", [=] (W& w) { size_t n; void const* p = dart_get_bytes(&w.pfin, &n); return made(w, dart_from_bytes_rc_err(&w.out, rc, p, n)); }, true},
    {"buffer_from_bytes", [=] (W& w) { size_t n; void const* p = dart_buffer_get_bytes(&w.bobj, &n); w.has_outb = true; return dart_buffer_from_bytes_rc_err(&w.outb, rc, p, n); }, true},
    {"take_bytes", [=] (W& w) { size_t n; void* p = dart_dup_bytes(&w.pfin, &n); if (!p) return 99; return made(w, dart_take_bytes_rc_err(&w.out, rc, p)); }, true},
    {"iterate", [=] (W& w) { int e = dart_iterator_init_from_err(&w.it, any(w)); w.has_it = true; return e; }, true},
    {"iterate keys", [=] (W& w) { int e = dart_iterator_init_key_from_err(&w.it, any(w)); w.has_it = true; return e; }, true},
    {"iterate copy", [=] (W& w) { dart_iterator_t x; if (int e = dart_iterator_init_from_err(&x, &w.parr)) { dart_iterator_destroy(&x); return e; } int e = dart_iterator_copy_err(&w.it, &x); w.has_it = !e; dart_iterator_destroy(&x); return e; }, true},
    {"iterator next", [=] (W& w) { int e = dart_iterator_init_from_err(&w.it, any(w)); w.has_it = true; if (!e) e = dart_iterator_next(&w.it); if (e) { dart_iterator_destroy(&w.it); w.has_it = false; } return e; }, true},
    {"iterator get", [=] (W& w) { dart_iterator_t x; int e = dart_iterator_init_from_err(&x, any(w)); if (!e) { e = dart_iterator_get_err(&w.out, &x); w.has_out = true; } dart_iterator_destroy(&x); return e; }, true},
    {"equal", [=] (W& w) { w.text.assign(1, static_cast<char>('0' + dart_equal(&w.hobj, &w.pfin))); return 0; }, true},
    {"for_each", [=] (W& w) { size_t n = 0; dart_packet_t v; dart_for_each(any(w), &v) { ++n; } w.visits = n; return 0; }, true},
  };
  auto& c = cs[r.below(cs.size())];
  if (std::string(c.name) == "equal" || std::string(c.name) == "for_each" || std::string(c.name) == "obj_get") {
    // No error code: the default result stands for the failure; only safety, validity and the balance are judged.
    long n; { W w(vs); inject::arm(0, false); make(c, w); n = inject::allocations(); inject::disarm(); }
    count(c.name);
    for (long q = 1; q <= n && q < 20; ++q) { W w(vs); auto b = w.values(); inject::arm(q, r.chance(1, 2)); make(c, w); long nf = inject::failures(); inject::disarm(); count("injected", static_cast<uint64_t>(nf)); auto now = w.values(); for (size_t x = 0; x < 10; ++x) VT_CHECK(same(b[x], now[x]), std::string("c:only-read:") + c.name, ""); }
  } else explore<W>(vs, c, r);
  if (want_sample()) sample(c.name);
}
static void capi(Rng& r) {
  Worker w; bool safe = r.chance(2, 3);
  std::thread t; { Quiet q; t = std::thread([&] { w.run([&] { Rng rr(mix(r.next())); if (safe) run_case<true>(rr); else run_case<false>(rr); }); }); }
  t.join(); w.merge();
}
int main(int c, char** v) { return vt::main(c, v, {{"capi", capi}}); }
