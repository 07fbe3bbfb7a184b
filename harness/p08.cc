#include "p08.h"
static void heap(Rng& r) { storm<dart::heap>(r, "heap"); }
static void last(Rng& r) { last_owner<std::shared_ptr>(r, "last-shared"); }
int main(int c, char** v) { return vt::main(c, v, {{"heap", heap}, {"last", last}}); }
