// Allocation monitor: uses the sanitizer runtime's malloc hooks (every allocation route: new, malloc, posix_memalign).
// Balance per case; fills fresh memory with a changing pattern so that use of uninitialised memory shows.
#include "vt.h"
#include <atomic>
#include <cstddef>

#ifndef VT_FILL_MAX
#define VT_FILL_MAX 65536u
#endif

namespace vt { namespace alloc {
  bool enabled = false;
  static std::atomic<bool> active {false};
  static std::atomic<unsigned> fillb {0x81};
  static std::atomic<long> live {0}, bytes {0}, total {0};
  // Small open-addressing table of live blocks of the current case (lock by spin flag).
  static const size_t N = 1 << 16;
  static void* tab[N];
  static size_t tabsz[N];
  static std::atomic_flag lk = ATOMIC_FLAG_INIT;
  static size_t ntab = 0;
  static bool overflow = false;
  void fill(unsigned char c) { fillb = c; }
  void begin() {
    memset(tab, 0, sizeof tab); ntab = 0; overflow = false;
    live = 0; bytes = 0; active = true;
  }
  bool end(std::string& why) {
    active = false;
    long n = 0, b = 0; size_t first = 0;
    for (size_t k = 0; k < N; ++k) if (tab[k] && tab[k] != reinterpret_cast<void*>(1)) { ++n; b += static_cast<long>(tabsz[k]); if (!first) first = tabsz[k]; }
    if (overflow) return true;
    if (n) { why = std::to_string(n) + " blocks, " + std::to_string(b) + " bytes not released at the end of the case (first: " + std::to_string(first) + " bytes)"; return false; }
    return true;
  }
  static size_t slot(void const* p) { return static_cast<size_t>(mix(reinterpret_cast<uintptr_t>(p))) & (N - 1); }
  long total_allocs() { return total; }
  static void on_malloc(void const volatile* vp, size_t n) {
    if (!vp) return;
    if (no_account()) return;
    total.fetch_add(1, std::memory_order_relaxed);
    void* p = const_cast<void*>(vp);
    if (VT_FILL_MAX && n <= VT_FILL_MAX) memset(p, static_cast<int>(fillb.load(std::memory_order_relaxed)), n);
    if (!active.load(std::memory_order_relaxed)) return;
    while (lk.test_and_set(std::memory_order_acquire)) {}
    if (ntab > N * 3 / 4) overflow = true;
    else {
      size_t s = slot(p);
      while (tab[s] && tab[s] != reinterpret_cast<void*>(1)) s = (s + 1) & (N - 1);
      if (!tab[s]) ++ntab;
      tab[s] = p; tabsz[s] = n;
    }
    lk.clear(std::memory_order_release);
  }
  static void on_free(void const volatile* vp) {
    if (!vp || !active.load(std::memory_order_relaxed)) return;
    void* p = const_cast<void*>(vp);
    while (lk.test_and_set(std::memory_order_acquire)) {}
    size_t s = slot(p);
    while (tab[s]) {
      if (tab[s] == p) { tab[s] = reinterpret_cast<void*>(1); break; }
      s = (s + 1) & (N - 1);
    }
    lk.clear(std::memory_order_release);
  }
  void forget(void const* p) { on_free(p); }
}}

#if defined(VT_SAN_HOOKS)
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) { vt::alloc::on_malloc(p, n); }
extern "C" void __sanitizer_free_hook(const volatile void* p) { vt::alloc::on_free(p); }
#endif
