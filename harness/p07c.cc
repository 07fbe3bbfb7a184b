#include "p07.h"
static void wl_probe(Rng& r) { counting<dart::basic_packet<probe_ptr>>(r, "probe"); probe_balance(); }
static void wl_obtuse(Rng& r) { counting<dart::basic_packet<obtuse_ptr>>(r, "obtuse"); }
int main(int c, char** v) { return vt::main(c, v, {{"probe", wl_probe}, {"obtuse", wl_obtuse}}); }
