// P21: every operation with its k-th allocation failing, for each k.
#pragma once
#include "dt.h"
#include "json.h"
#include "p21_inject.h"
namespace vt {
  // Everything an operation can see or change. out/text: where it leaves its result.
  template <class H, class B, class P> struct World {
    std::vector<H> h; std::vector<B> b; std::vector<P> p; P out; H hout; std::string text; std::vector<P> list;
    V ov, text_v; // values of the result slots
    void* keep = nullptr;
    World(std::vector<V> const& vs) {
      for (auto& v : vs) h.push_back(plain<H>(v));
      h.push_back(h[0]);                                   // shares storage with the first
      b.push_back(h[0].lower()); b.push_back(b[0]);
      p.push_back(P(h[0]));                                // shares with a heap
      p.push_back(plain<P>(vs[0])); p.push_back(P(b[0]));  // alone; finalized
      p.push_back(plain<P>(vs[1])); p.push_back(p.back()); // array, shared
      P whole = P::make_object("k", p[1]); whole.finalize(); p.push_back(whole["k"]); // finalized member
      p.push_back(plain<P>(vs[2]));
    }
    std::vector<V> values() const {
      std::vector<V> r; for (auto& x : h) r.push_back(read(x)); for (auto& x : b) r.push_back(read(x)); for (auto& x : p) r.push_back(read(x));
      r.push_back(read(out)); r.push_back(read(hout)); r.push_back(V::str(text)); V l = V::arr(); for (auto& x : list) l.a.push_back(read(x)); r.push_back(l);
      return r;
    }
  };
  // One operation: how to set up its arguments, and the calls made while allocations fail.
  template <class W> using Op = std::function<void(W&)>;
  template <class W> struct Armed { Armed(long k, bool s) { inject::arm(k, s); } ~Armed() { inject::disarm(); } };

  template <class W> void explore(std::vector<V> const& vs, Op<W> const& op, char const* name, Rng& r, bool strong = true) {
    std::vector<V> before, after; long n = 0;
    { W w(vs); before = w.values(); { Armed<W> a(0, false); op(w); n = inject::allocations(); } after = w.values(); }
    count(name); if (n == 0) { count("no allocation"); return; }
    std::vector<long> ks; for (long k = 1; k <= n; ++k) ks.push_back(k);
    if (ks.size() > 24) { std::vector<long> some; for (size_t k = 0; k < 24; ++k) { size_t i = k < 6 ? k : r.below(ks.size()); some.push_back(ks[i]); } ks = some; }
    for (long k : ks) {
      bool sticky = r.chance(1, 3), threw = false; std::string ctx = std::string(name) + " allocation " + std::to_string(k) + " of " + std::to_string(n) + (sticky ? " and later" : "");
      seen(hash_bytes(ctx.data(), ctx.size()));
      W w(vs);
      long failed;
      {
        Armed<W> a(k, sticky);
        try { op(w); } catch (std::bad_alloc const&) { threw = true; } catch (Abort const&) { throw; } catch (std::exception const& e) { inject::disarm(); VT_CHECK(false, std::string("exception:") + name, ctx + ": " + e.what()); return; }
        failed = inject::failures();
      }
      count("injected", static_cast<uint64_t>(failed)); if (inject::failed_kinds() & 2) count("aligned failure"); if (inject::failed_kinds() & 1) count("new failure");
      std::vector<V> now = w.values();
      for (size_t s = 0; s < now.size(); ++s) {
        bool isb = same(now[s], before[s]), isa = same(now[s], after[s]);
        if (!threw) { VT_CHECK(isa, std::string("completed:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(after[s], now[s])); continue; }
        if (same(before[s], after[s])) VT_CHECK(isb, std::string("only-read:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(before[s], now[s]));
        else if (strong) VT_CHECK(isb || isa, std::string("half-done:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(before[s], now[s]));
      }
      if (!threw) { count("survived"); continue; }
      count("threw");
      bool untouched = true; for (size_t s = 0; s < now.size(); ++s) if (!same(now[s], before[s])) untouched = false;
      if (!untouched) { count("partly done"); continue; }
      op(w); now = w.values(); count("retried");
      for (size_t s = 0; s < now.size(); ++s) VT_CHECK(same(now[s], after[s]), std::string("retry:") + name, ctx + " slot " + std::to_string(s) + ": " + first_difference(after[s], now[s]));
    }
  }
}
