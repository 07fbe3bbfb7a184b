#include "p09.h"
using namespace vt;
#ifndef F0
#define F0 0u
#endif
// Four flag sets per binary
static void go(std::string const& t, Rng& r, int which = -1) {
  using H = dart::heap; using B = dart::buffer; using P = dart::packet;
  switch (which < 0 ? static_cast<int>(r.below(4)) : which) {
#if F0 == 0
    case 0: all_routes<H, B, P, dart::parse_default>(t, r); count("flags-default"); break;
    case 1: all_routes<H, B, P, dart::parse_comments>(t, r); count("flags-comments"); break;
    case 2: all_routes<H, B, P, dart::parse_trailing_commas>(t, r); count("flags-commas"); break;
    default: all_routes<H, B, P, dart::parse_nan>(t, r); count("flags-nan"); break;
#elif F0 == 1
    case 0: all_routes<H, B, P, dart::parse_permissive>(t, r); count("flags-permissive"); break;
    case 1: all_routes<H, B, P, dart::parse_comments | dart::parse_trailing_commas>(t, r); count("flags-pair"); break;
    case 2: all_routes<H, B, P, dart::parse_comments | dart::parse_nan>(t, r); count("flags-pair"); break;
    default: all_routes<H, B, P, dart::parse_trailing_commas | dart::parse_nan>(t, r); count("flags-pair"); break;
#else
    case 0: case 1: all_routes<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet, dart::parse_default>(t, r); count("unsafe"); break;
    case 2: all_routes<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet, dart::parse_permissive>(t, r); count("unsafe"); break;
    default: all_routes<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet, dart::parse_nan>(t, r); count("unsafe"); break;
#endif
  }
}
static void wl_valid(Rng& r) {
  json::Opt o = any_opt(r);
  std::string t = valid_text(r, o);
  go(t, r);
  if (want_sample()) sample("text " + brief(t).substr(0, 300));
}
static void wl_mutated(Rng& r) {
  std::string t = valid_text(r, any_opt(r));
  if (t.size() > 3000) t = valid_text(r, json::Opt());
  t = mutated(r, t);
  go(t, r); count("mutated");
}
static void wl_soup(Rng& r) {
  std::string t; bool root = r.chance(1, 2);
  if (root) t = r.chance(1, 2) ? "{" : "[";
  for (size_t n = r.below(14); n > 0; --n) t += token(r);
  if (root && r.chance(2, 3)) t += t[0] == '{' ? "}" : "]";
  go(t, r); count("soup");
}
static void wl_numbers(Rng& r) {
  std::string t = r.chance(1, 2) ? "[" : "{\"x\":[";
  bool obj = t[0] == '{'; size_t n = 1 + r.below(4);
  for (size_t k = 0; k < n; ++k) { if (k) t += ','; t += number_text(r); }
  t += obj ? "]}" : "]";
  go(t, r); count("numbers");
}
static void wl_strings(Rng& r) {
  std::string t = "{";
  size_t n = 1 + r.below(3);
  for (size_t k = 0; k < n; ++k) { if (k) t += ','; t += string_text(r); t += ':'; t += r.chance(1, 3) ? "1" : string_text(r); }
  t += "}";
  go(t, r); count("strings");
}
static void wl_dense(Rng& r) { go(dense_text(r), r); count("dense"); }
static void wl_truncated(Rng& r) {
  std::string t = valid_text(r, any_opt(r));
  if (t.size() > 400) t = valid_text(r, json::Opt());
  if (t.size() > 2000) t.resize(2000);
  size_t step = t.size() > 60 ? 1 + t.size() / 40 : 1; int f = static_cast<int>(r.below(4));
  for (size_t n = 0; n < t.size(); n += step) { go(t.substr(0, n), r, f); count("truncated"); }
}
// A key or string too long for a packet
static void wl_huge(Rng& r) {
  size_t n = 65530 + r.below(12);
  std::string k(n, 'k');
  std::string t = r.chance(1, 2) ? "{\"" + k + "\":1}" : "{\"a\":{\"" + k + "\":\"" + k + "\"},\"b\":[\"" + k + "\"]}";
  if (r.chance(1, 3)) t = "[" + t + "]";
  go(t, r); count("huge");
  std::string d; size_t dep = 200 + r.below(1000); bool o = r.chance(1, 2);
  for (size_t x = 0; x < dep; ++x) d += o ? "{\"a\":" : "[";
  d += o ? "1" : "";
  for (size_t x = 0; x < dep; ++x) d += o ? "}" : "]";
  if (r.chance(1, 4)) d.resize(r.below(d.size()));
  go(d, r); count("deep");
}
static void wl_special(Rng& r) {
  // Spellings that are easy to misread, each under every flag set
  static char const* const e[] = {"[-Infinity.5]", "[Inf.5]", "[NaN.25]", "[Infinity]", "[-Infinity,NaN]", "[NaN]", "[-NaN]", "[Inf]", "[1.0E+2]", "[0e5]", "[-0]", "[-0.0]", "[1,]", "{\"a\":1,}", "[,]", "{,}", "[1,,2]", "//x\n[1]", "[1]//x", "/**/[1]/**/", "[1/*/]", "[\"\\u0000\"]", "[\"\\ud83d\\ude00\"]", "[] []", "{} 1", "", " ", "nul", "[truefalse]", "[1 2]", "{\"a\" 1}", "{\"a\":}", "{1:2}", "['a']"};
  std::string t = e[ctx().kase % (sizeof e / sizeof *e)];
  for (int f = 0; f < 4; ++f) go(t, r, f);
  count("special");
}
int main(int c, char** v) { return vt::main(c, v, {{"valid", wl_valid}, {"mutated", wl_mutated}, {"soup", wl_soup}, {"numbers", wl_numbers}, {"strings", wl_strings}, {"dense", wl_dense}, {"truncated", wl_truncated}, {"huge", wl_huge}, {"special", wl_special}}); }
