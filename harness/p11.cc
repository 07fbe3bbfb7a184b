#include "p11.h"
using namespace vt;
static GenOpt opts(Rng& r) { GenOpt o; o.utf8 = true; o.big = false; o.depth = 1 + static_cast<unsigned>(r.below(4)); o.width = 1 + static_cast<unsigned>(r.below(6)); return o; }
static V gen(Rng& r) {
  Gen g(r, opts(r)); if (r.chance(1, 3)) g.o.ascii = true;
  V v = r.chance(1, 5) ? g.array(g.o.depth) : g.root_object();
  std::function<void(V&)> fix = [&](V& x) {
    if (x.k == DEC && (std::fpclassify(x.d) == FP_SUBNORMAL)) x.d = 0.5;
    if (x.k == DEC && x.d != 0 && std::fabs(x.d) < 1e-300) x.d = 1e-300;
    if (x.k == STR && r.chance(1, 10)) { static char const* const s[] = {"", "null", "true", "1", "0x1", "1.5", "~", "- a", "a: b", "line\nnext", "two\nline\ntext", "x # y", "yes", "'", "''", "trailing "}; x.s = s[r.below(16)]; }
    for (auto& e : x.a) fix(e);
    for (auto& e : x.o) fix(e.second);
  };
  fix(v);
  std::function<bool(V const&)> ok = [&](V const& x) { for (auto& e : x.o) if (e.first.size() > 150 || !ok(e.second)) return false; for (auto& e : x.a) if (!ok(e)) return false; return true; };
  return ok(v) ? v : V::obj();
}
static void go(std::string const& t, Rng& r, V const* known = nullptr) {
  if (r.chance(2, 3)) yaml::all_routes<dart::heap, dart::buffer, dart::packet>(t, r, known);
  else { yaml::all_routes<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>(t, r, known); count("unsafe"); }
}
static void wl_known(Rng& r) {
  V v = gen(r); yaml::Writer w(r);
  std::string t = w.document(v);
  go(t, r, &v); count("known");
  if (want_sample()) sample("text " + brief(t).substr(0, 300));
}
static void wl_mutated(Rng& r) {
  V v = gen(r); yaml::Writer w(r);
  std::string t = yaml::mutated(r, w.document(v));
  go(t, r); count("mutated");
}
static void wl_soup(Rng& r) {
  std::string t; if (r.chance(1, 2)) t = r.chance(1, 2) ? "a: " : "- ";
  for (size_t n = r.below(16); n > 0; --n) { t += yaml::tok(r); if (r.chance(1, 5)) t += "\n"; }
  go(t, r); count("soup");
}
static void wl_scalars(Rng& r) {
  std::string t; bool seq = r.chance(1, 2);
  for (size_t n = 1 + r.below(5); n > 0; --n) {
    t += seq ? "- " : "k" + std::to_string(n) + ": ";
    if (r.chance(1, 2)) t += number_text(r); else { for (size_t k = 1 + r.below(4); k > 0; --k) t += "0123456789+-.eExXabfnulltrue_"[r.below(29)]; }
    t += "\n";
  }
  go(t, r); count("scalars");
}
static void wl_truncated(Rng& r) {
  V v = gen(r); yaml::Writer w(r);
  std::string t = w.document(v); if (t.size() > 1500) t.resize(1500);
  size_t step = t.size() > 40 ? 1 + t.size() / 30 : 1;
  for (size_t n = 0; n < t.size(); n += step) { go(t.substr(0, n), r); count("truncated"); }
}
// JSON is YAML too
static void wl_json(Rng& r) {
  V v = gen(r);
  json::Opt o; json::Writer w(r, o); w.dups = false; w.style = static_cast<unsigned>(r.below(2));
  std::function<void(V&)> fix = [&](V& x) {
    auto ascii = [](std::string& s) { for (auto& c : s) if (static_cast<unsigned char>(c) >= 127) c = '_'; };
    if (x.k == STR) ascii(x.s);
    if (x.k == DEC && std::fabs(x.d) < 1e-30) x.d = 0.25;
    Obj q; for (auto& e : x.o) { std::string k = e.first; ascii(k); q[k] = e.second; } x.o = q;
    for (auto& e : x.a) fix(e);
    for (auto& e : x.o) fix(e.second);
  };
  fix(v);
  w.value(v); std::string t = w.t;
  for (auto& c : t) if (c == '\t' || c == '\r' || c == '\n') c = ' ';
  dart::heap j = dart::heap::from_json(S(t));
  V want = json::parse(t).v;
  Out y = attempt([&] { return read(dart::heap::from_yaml(S(t))); });
  want_out(y.k == Out::VALUE, "json-as-yaml", t, y, "a value");
  VT_SAME(want, y.v, "json-as-yaml:value");
  V jv = read(j);
  VT_CHECK(json::close(jv, y.v, default_rel), "json-vs-yaml", json::difference(jv, y.v, default_rel));
  go(t, r); count("json");
}
static void wl_big(Rng& r) {
  std::string t; size_t n = r.below(900); bool seq = r.chance(1, 2);
  switch (r.below(4)) {
    case 0: for (size_t k = 0; k < n; ++k) t += seq ? "[" : "{a: "; t += "1"; for (size_t k = 0; k < n; ++k) t += seq ? "]" : "}"; if (r.chance(1, 3)) t.resize(r.below(t.size() + 1)); count("deep"); break;
    case 1: for (size_t k = 0; k < n / 3; ++k) { t += std::string(k, ' ') + (seq ? "-\n" : "a:\n"); } t += std::string(n / 3, ' ') + "x: 1\n"; count("deep"); break;
    case 2: { size_t m = 65530 + r.below(12); t = "? \"" + std::string(m, 'k') + "\"\n: 1\n"; if (r.chance(1, 2)) t = "o:\n  ? \"" + std::string(m, 'k') + "\"\n  : 1\n  z: 2\n"; break; }
    default: t = "a: \"" + std::string(60000 + r.below(90000), 'v') + "\"\nb: 1\n"; count("long-string"); break;
  }
  go(t, r);
}
int main(int c, char** v) { return vt::main(c, v, {{"known", wl_known}, {"mutated", wl_mutated}, {"soup", wl_soup}, {"scalars", wl_scalars}, {"truncated", wl_truncated}, {"json", wl_json}, {"big", wl_big}}); }
