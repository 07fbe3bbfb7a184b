#include "p07.h"
static void wl_packet(Rng& r) { counting<dart::packet>(r, "packet"); }
static void wl_skinny(Rng& r) { counting<dart::basic_packet<dart::skinny_ptr>>(r, "skinny"); }
int main(int c, char** v) { return vt::main(c, v, {{"packet", wl_packet}, {"skinny", wl_skinny}}); }
