// Case loop; linked into every harness.
#include "vt.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <typeinfo>
#include <cxxabi.h>

namespace vt {
  namespace alloc { extern bool enabled; void begin(); bool end(std::string& why); void fill(unsigned char); }
  static std::string tname(std::type_info const& t) {
    int st = 0; char* p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
    std::string r = p ? p : t.name(); free(p); return r;
  }
  int main(int argc, char** argv, std::vector<Workload> const& ws) {
    uint64_t from = 0, to = 1; std::string wl, state, hashes; bool leak = false; uint64_t maxfail = 5;
    for (int n = 1; n < argc; ++n) {
      std::string a = argv[n];
      auto nx = [&] { if (n + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(3); } return std::string(argv[++n]); };
      if (a == "--seed") ctx().seed = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--from") from = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--to") to = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--workload") wl = nx();
      else if (a == "--state") state = nx();
      else if (a == "--hashes") hashes = nx();
      else if (a == "--leak") leak = true;
      else if (a == "--known") ctx().known[nx()] = 0;
      else if (a == "--maxfail") maxfail = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "-v") ctx().verbose = true;
      else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    static uint64_t dummy;
    ctx().state = &dummy;
    if (!state.empty()) {
      int fd = open(state.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, 4096)) { perror("state"); return 3; }
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p == MAP_FAILED) { perror("mmap"); return 3; }
      ctx().state = static_cast<uint64_t*>(p);
    }
    Workload const* w = nullptr;
    for (auto& x : ws) if (wl == x.name) w = &x;
    if (!w) { fprintf(stderr, "no workload %s\n", wl.c_str()); return 3; }
    ctx().workload = wl;
    uint64_t done = 0;
    for (uint64_t c = from; c < to; ++c) {
      ctx().kase = c;
      *ctx().state = c;
      Rng r(mix(ctx().seed * 1000003 + mix(hash_bytes(wl.data(), wl.size())) + mix(c)));
      alloc::fill(static_cast<unsigned char>(mix(ctx().seed ^ c) | 0x81));
      uint64_t fails = ctx().fails;
      if (leak) alloc::begin();
      try {
        w->fn(r);
      } catch (Abort const&) {
      } catch (std::exception const& e) {
        report("unexpected-exception:" + tname(typeid(e)), e.what());
      } catch (...) {
        report("unexpected-exception:unknown", "");
      }
      if (leak) {
        std::string why;
        if (!alloc::end(why) && fails == ctx().fails) report("leak", why);
      }
      ++done;
      if (ctx().fails >= maxfail) break;
    }
    auto& x = ctx();
    if (!hashes.empty()) {
      FILE* f = fopen(hashes.c_str(), "wb");
      if (!f) { perror("hashes"); return 3; }
      for (auto h : x.distinct) fwrite(&h, 8, 1, f);
      fclose(f);
    }
    printf("SUMMARY\tcases\t%llu\n", static_cast<unsigned long long>(done));
    printf("SUMMARY\tevals\t%llu\n", static_cast<unsigned long long>(x.evals));
    printf("SUMMARY\tdistinct\t%llu\n", static_cast<unsigned long long>(x.distinct.size()));
    for (auto& c : x.counters) printf("COUNTER\t%s\t%llu\n", c.first.c_str(), static_cast<unsigned long long>(c.second));
    for (auto& s : x.samples) printf("SAMPLE\t%s\n", clean(s).c_str());
    printf("DONE\t%llu\n", static_cast<unsigned long long>(from + done));
    fflush(stdout);
    return 0;
  }
}
