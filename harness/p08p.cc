#include "p08.h"
static void packet(Rng& r) { storm<dart::packet>(r, "packet"); }
int main(int c, char** v) { return vt::main(c, v, {{"packet", packet}}); }
