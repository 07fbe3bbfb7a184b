#include "p05.h"
static void wl_upacket(Rng& r) { isolation<dart::unsafe_packet>(r, "unsafe-packet"); }
int main(int c, char** v) { return vt::main(c, v, {{"upacket", wl_upacket}}); }
