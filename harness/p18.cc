// P18: the same machine, aimed at failures; and the error text of each thread is its own.
#include "p17.h"
#include <thread>
#include <atomic>
using namespace vt;
static void hostile(Rng& r) { GenOpt o = cabi::opts(); o.nonfinite = r.chance(1, 3); Gen g(r, o); cabi::Machine m(r, g, true); m.cap = 3 + r.below(8); m.run(20 + r.below(60)); }
static void threads(Rng& r) {
  size_t n = 2 + r.below(3); std::vector<std::unique_ptr<Worker>> ws; std::vector<std::thread> ts; std::atomic<size_t> go {0};
  uint64_t seed = r.next();
  for (size_t k = 0; k < n; ++k) ws.emplace_back(new Worker);
  for (size_t k = 0; k < n; ++k) ts.emplace_back([&, k] { ws[k]->run([&] {
    Rng rr(mix(seed + k)); GenOpt o = cabi::opts(); Gen g(rr, o); ++go; while (go < n) {}
    cabi::Machine m(rr, g, true); m.cap = 4; m.run(40); count("thread histories");
  }); });
  for (auto& t : ts) t.join();
  for (auto& w : ws) w->merge();
}
int main(int argc, char** argv) { return vt::main(argc, argv, {{"hostile", hostile}, {"threads", threads}}); }
