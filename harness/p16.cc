#include "p16.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
template <class T> using opt = dart::shim::optional<T>;
template <class... T> using var = dart::shim::variant<T...>;
using std::string; using std::vector; using std::map;
using sysns = std::chrono::system_clock::time_point;
using syss = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
struct Entry { char const* name; void (*fn)(Rng&, char const*); };
#define T_(n, ...) {n, trip<H, B, P, __VA_ARGS__>}
#define A_(n, ...) {n, wrapped<P::array, P, __VA_ARGS__>}, {n, wrapped<H::array, H, __VA_ARGS__>}
#define O_(n, ...) {n, wrapped<P::object, P, __VA_ARGS__>}, {n, wrapped<H::object, H, __VA_ARGS__>}
static Entry const table[] = {
#if PART == 0
  T_("bool", bool), T_("int8", int8_t), T_("uint8", uint8_t), T_("int16", int16_t), T_("uint16", uint16_t), T_("int32", int32_t), T_("uint32", uint32_t), T_("int64", int64_t), T_("uint64", uint64_t), T_("char", char),
  T_("float", float), T_("double", double), T_("string", string),
#elif PART == 1
  T_("vector<int>", vector<int>), T_("vector<string>", vector<string>), T_("vector<vector<double>>", vector<vector<double>>), T_("array<int,3>", std::array<int, 3>), T_("array<string,1>", std::array<string, 1>), T_("deque<double>", std::deque<double>),
  T_("list<string>", std::list<string>), T_("forward_list<int64>", std::forward_list<int64_t>), T_("list<bool>", std::list<bool>),
#elif PART == 2
  T_("set<int>", std::set<int>), T_("set<string>", std::set<string>), T_("unordered_set<string>", std::unordered_set<string>), T_("multiset<int>", std::multiset<int>), T_("unordered_multiset<int64>", std::unordered_multiset<int64_t>),
  T_("vector<set<int>>", vector<std::set<int>>), T_("list<multiset<string>>", std::list<std::multiset<string>>),
#elif PART == 3
  T_("map<int>", map<string, int>), T_("map<string>", map<string, string>), T_("unordered_map<double>", std::unordered_map<string, double>), T_("multimap<int>", std::multimap<string, int>), T_("unordered_multimap<string>", std::unordered_multimap<string, string>),
  T_("map<vector<int>>", map<string, vector<int>>), T_("map<map<int>>", map<string, map<string, int>>), T_("map<Name>", map<Name, int>), T_("map<Name,optional>", map<Name, opt<int>>), T_("map<optional<int>>", map<string, opt<int>>), T_("unordered_map<optional<string>>", std::unordered_map<string, opt<string>>), T_("multimap<optional<int>>", std::multimap<string, opt<int>>),
#elif PART == 4
  T_("pair", std::pair<int, string>), T_("tuple", std::tuple<int, string, double>), T_("optional<int>", opt<int>), T_("optional<vector<string>>", opt<vector<string>>), T_("variant", var<int, double, string>), T_("variant-order", var<string, vector<int>, map<string, int>>),
  T_("vector<pair>", vector<std::pair<string, int>>), T_("map<variant>", map<string, var<int, string, vector<int>>>), T_("tuple<nested>", std::tuple<vector<int>, opt<string>, map<string, double>>), T_("vector<optional<int>>", vector<opt<int>>),
#elif PART == 6
  A_("a:vector", vector<int>), A_("a:array", std::array<string, 2>), A_("a:deque", std::deque<double>), A_("a:list", std::list<string>), A_("a:forward_list", std::forward_list<int>), A_("a:set", std::set<int>), A_("a:unordered_set", std::unordered_set<string>),
  A_("a:multiset", std::multiset<int>), A_("a:unordered_multiset", std::unordered_multiset<int>), A_("a:nested", vector<vector<int>>),
  O_("o:map", map<string, int>), O_("o:unordered_map", std::unordered_map<string, double>), O_("o:multimap", std::multimap<string, int>), O_("o:unordered_multimap", std::unordered_multimap<string, string>),
  {"spans", [](Rng& r, char const*) { spans<H, B, P>(r); }},
#else
  T_("time", sysns), T_("time-seconds", syss), T_("vector<time>", vector<syss>), T_("integral_constant", std::integral_constant<int, 7>), T_("point", Point), T_("vector<point>", vector<Point>), T_("map<point>", map<string, Point>), T_("optional<point>", opt<Point>),
#endif
};
static void wl_trip(Rng& r) { auto& e = table[ctx().kase % (sizeof table / sizeof *table)]; e.fn(r, e.name); count("trips"); }
int main(int c, char** v) { return vt::main(c, v, {{"trip", wl_trip}}); }
