// P02: packets in both forms, their views
#include "p02.h"
using P = dart::packet;
static void wl_packet(Rng& r) {
  Gen g(r, p02_opts(r));
  V v = p02_value(g);
  P p = build<P>(v, r);
  bool fin = r.chance(1, 2);
  if (fin) p.finalize();
  p02_deep(p, v, g, 2);
  p02_nested(p, v, r, r.chance(1, 2) ? '.' : '/');
  P::view pv = p;
  p02_deep(pv, v, g, 1);
  p02_nested(pv, v, r, '.');
  count(fin ? "packet-finalized" : "packet-dynamic");
}
int main(int c, char** v) { return vt::main(c, v, {{"packet", wl_packet}}); }
