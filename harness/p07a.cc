#include "p07.h"
static void wl_heap(Rng& r) { counting<dart::heap>(r, "heap"); }
static void wl_uheap(Rng& r) { counting<dart::unsafe_heap>(r, "unsafe-heap"); }
static void wl_buffer(Rng& r) { counting<dart::buffer>(r, "buffer"); counting<dart::unsafe_buffer>(r, "unsafe-buffer"); }
int main(int c, char** v) { return vt::main(c, v, {{"heap", wl_heap}, {"uheap", wl_uheap}, {"buffer", wl_buffer}}); }
