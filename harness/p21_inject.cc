// Allocation failures: every operator new and posix_memalign of the program passes through here.
#undef posix_memalign
#include "p21_inject.h"
#include <cstdlib>
#include <cerrno>
#include <new>
namespace vt { namespace inject {
  static thread_local bool on = false; static thread_local bool sticky = false; static thread_local long left = -1, seen = 0, failed = 0; static thread_local unsigned kinds = 0;
  bool trip(unsigned kind) {
    if (!on) return false;
    ++seen;
    if (left < 0 || --left > 0) return false;
    if (left < 0) { if (!sticky) return false; left = 0; }
    ++failed; kinds |= kind; if (!sticky) left = -1; else left = 0;
    return true;
  }
  void arm(long k, bool st) { on = true; sticky = st; left = k > 0 ? k : -1; seen = failed = 0; kinds = 0; }
  void disarm() { on = false; left = -1; }
  long allocations() { return seen; }
  long failures() { return failed; }
  unsigned failed_kinds() { return kinds; }
}}
extern "C" int posix_memalign(void**, size_t, size_t);
extern "C" int vt_posix_memalign(void** p, size_t a, size_t n) { if (vt::inject::trip(2)) return ENOMEM; return posix_memalign(p, a, n); }
extern "C" void* vt_malloc(size_t n) { if (vt::inject::trip(4)) return nullptr; return malloc(n); }
static void* get(size_t n) { if (vt::inject::trip(1)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void* get(size_t n, std::nothrow_t) { if (vt::inject::trip(1)) return nullptr; return malloc(n ? n : 1); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n, std::nothrow); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n, std::nothrow); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
