// P17: histories of C calls against the same histories through C++.
#include "p17.h"
using namespace vt;
static void history(Rng& r) { GenOpt o = cabi::opts(); o.nonfinite = r.chance(1, 8); Gen g(r, o); cabi::Machine m(r, g, false); m.cap = 3 + r.below(8); m.run(20 + r.below(60)); }
int main(int argc, char** argv) { return vt::main(argc, argv, {{"history", history}}); }
