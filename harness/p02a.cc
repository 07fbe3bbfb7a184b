// P02: heaps and buffers
#include "p02.h"
using H = dart::heap; using B = dart::buffer;
static void wl_heap(Rng& r) {
  Gen g(r, p02_opts(r));
  V v = p02_value(g);
  H h = build<H>(v, r);
  p02_deep(h, v, g, 2);
  p02_nested(h, v, r, r.chance(1, 2) ? '.' : '/');
  H::view hv = h;
  p02_deep(hv, v, g, 1);
  p02_nested(hv, v, r, '.');
  count("heap");
}
static void wl_buffer(Rng& r) {
  Gen g(r, p02_opts(r));
  V v = p02_value(g);
  B b = plain<H>(v).lower();
  p02_deep(b, v, g, 2);
  p02_nested(b, v, r, r.chance(1, 2) ? '.' : '/');
  B::view bv = b;
  p02_deep(bv, v, g, 1);
  p02_nested(bv, v, r, '.');
  count("buffer");
}
int main(int c, char** v) { return vt::main(c, v, {{"heap", wl_heap}, {"buffer", wl_buffer}}); }
