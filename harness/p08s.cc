#include "p08.h"
static void sheap(Rng& r) { storm<dart::basic_heap<dart::skinny_ptr>>(r, "skinny-heap"); }
static void spacket(Rng& r) { storm<dart::basic_packet<dart::skinny_ptr>>(r, "skinny-packet"); }
static void slast(Rng& r) { last_owner<dart::skinny_ptr>(r, "last-skinny"); }
int main(int c, char** v) { return vt::main(c, v, {{"sheap", sheap}, {"spacket", spacket}, {"slast", slast}}); }
