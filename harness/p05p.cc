#include "p05.h"
static void wl_packet(Rng& r) { isolation<dart::packet>(r, "packet"); }
int main(int c, char** v) { return vt::main(c, v, {{"packet", wl_packet}}); }
