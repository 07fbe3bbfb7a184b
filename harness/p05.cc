#include "p05.h"
static void wl_heap(Rng& r) { isolation<dart::heap>(r, "heap"); }
static void wl_uheap(Rng& r) { isolation<dart::unsafe_heap>(r, "unsafe-heap"); }
int main(int c, char** v) { return vt::main(c, v, {{"heap", wl_heap}, {"uheap", wl_uheap}}); }
