#include "p21.h"
using namespace vt;
#ifdef UNSAFE
using H = dart::unsafe_heap; using B = dart::unsafe_buffer; using P = dart::unsafe_packet;
#else
using H = dart::heap; using B = dart::buffer; using P = dart::packet;
#endif
using W = World<H, B, P>;
struct Case {
  Rng& r; Gen g; std::vector<V> vs; std::string key, nkey, s; size_t idx; V nv; bool absent;
  static GenOpt opt() { GenOpt o; o.depth = 2; o.width = 4; o.big = false; return o; }
  explicit Case(Rng& r_) : r(r_), g(r_, opt()) {
    V o = g.object(2), a = g.array(2); while (o.o.size() < 2) o.o["k" + std::to_string(o.o.size())] = g.value(1); while (a.a.empty()) a.a.push_back(g.value(1));
    vs = {o, a, V::str(g.text(r.below(40)))}; key = std::next(o.o.begin(), static_cast<long>(r.below(o.o.size())))->first; nkey = "new" + g.text(r.below(20)); s = g.text(r.below(60)); idx = r.below(a.a.size()); nv = g.value(2); seen(hash(o));
  }
};
#if PART == 0
// index of the packet in World::p: 0 shares with a heap, 1 alone, 2 finalized, 3 array shared with 4, 5 finalized member, 6 string
static void changing(Rng& r) {
  Case c(r); size_t which = r.below(2); std::string k = r.chance(1, 2) ? c.key : c.nkey; H hv = plain<H>(c.nv); P pv = r.chance(1, 2) ? P(hv) : P(H::make_object("k", hv).lower()["k"]); std::string s = c.s; size_t i = c.idx, n = 3;
  std::string kk = c.key;
  size_t asize = c.vs[1].a.size();
  switch (r.below(20)) {
    case 0: explore<W>(c.vs, [&] (W& w) { w.p[which].add_field(S(k), pv); }, "add_field", r); break;
    case 1: explore<W>(c.vs, [&] (W& w) { w.h[3].add_field(S(k), hv); }, "heap add_field", r); break;
    case 2: explore<W>(c.vs, [&] (W& w) { w.p[which].add_field(S(k), S(s)); }, "add_field string", r); break;
    case 3: explore<W>(c.vs, [&] (W& w) { P x = pv; w.p[which].insert(S(k), std::move(x)); }, "insert", r); break;
    case 4: explore<W>(c.vs, [&] (W& w) { w.p[which].set(S(kk), pv); }, "set", r); break;
    case 5: explore<W>(c.vs, [&] (W& w) { w.p[which].erase(S(k)); }, "erase", r); break;
    case 6: explore<W>(c.vs, [&] (W& w) { w.p[which].clear(); }, "clear", r); break;
    case 7: explore<W>(c.vs, [&] (W& w) { w.p[3].push_back(pv); }, "push_back", r); break;
    case 8: explore<W>(c.vs, [&] (W& w) { w.p[3].push_front(S(s)); }, "push_front string", r); break;
    case 9: explore<W>(c.vs, [&] (W& w) { w.p[3].insert(i, pv); }, "array insert", r); break;
    case 10: explore<W>(c.vs, [&] (W& w) { w.p[3].set(i, S(s)); }, "array set", r); break;
    case 11: explore<W>(c.vs, [&] (W& w) { w.p[3].erase(i); }, "array erase", r); break;
    case 12: explore<W>(c.vs, [&] (W& w) { w.p[3].resize(asize + n, pv); }, "resize", r); break;
    case 13: explore<W>(c.vs, [&] (W& w) { w.p[3].resize(asize > 1 ? asize - 1 : 0); }, "resize down", r); break;
    case 14: explore<W>(c.vs, [&] (W& w) { w.p[3].reserve(asize + 40); }, "reserve", r); break;
    case 15: explore<W>(c.vs, [&] (W& w) { w.p[3].pop_back(); w.p[4].pop_front(); }, "pop", r); break;
    case 16: explore<W>(c.vs, [&] (W& w) { w.p[3].clear(); }, "array clear", r); break;
    case 17: explore<W>(c.vs, [&] (W& w) { w.p[6] = S(s); }, "assign string", r); break;
    case 18: explore<W>(c.vs, [&] (W& w) { w.p[which].insert(w.p[6], pv); }, "insert packet key", r); break;
    default: explore<W>(c.vs, [&] (W& w) { w.h[0].set(S(kk), w.h[0]); }, "set itself", r); break;
  }
  if (want_sample()) sample(show(c.vs[0], 80));
}
static void reading(Rng& r) {
  Case c(r); size_t which = r.below(3); std::string k = r.chance(3, 4) ? c.key : c.nkey; size_t i = c.idx; if (which == 1 && r.chance(1, 2)) which = 5;
  switch (r.below(12)) {
    case 0: explore<W>(c.vs, [&] (W& w) { w.out = w.p[which].get(S(k)); }, "get", r); break;
    case 1: explore<W>(c.vs, [&] (W& w) { w.out = w.p[3].get(i); w.hout = w.h[0].get(S(k)); }, "get index", r); break;
    case 2: explore<W>(c.vs, [&] (W& w) { w.out = w.p[which].get_or(S(k), "a default longer than the small string"); }, "get_or", r); break;
    case 3: explore<W>(c.vs, [&] (W& w) { auto l = w.p[which].values(); w.list.swap(l); }, "values", r); break;
    case 4: explore<W>(c.vs, [&] (W& w) { auto l = w.p[which].keys(); w.list.swap(l); }, "keys", r); break;
    case 5: explore<W>(c.vs, [&] (W& w) { std::vector<P> l; for (auto x : w.p[which]) l.push_back(x); for (auto it = w.p[3].rbegin(); it != w.p[3].rend(); ++it) l.push_back(*it); w.list.swap(l); }, "iterate", r); break;
    case 6: explore<W>(c.vs, [&] (W& w) { std::vector<P> l; auto it = w.p[which].begin(); auto jt = it; while (it != w.p[which].end()) { l.push_back(*it); ++it; jt = it; } auto kv = w.p[which].kvbegin(); auto kw = kv; kv = kw; w.list.swap(l); }, "iterators", r); break;
    case 7: explore<W>(c.vs, [&] (W& w) { bool eq[] = {w.p[0] == w.p[1], w.p[1] == w.p[2], w.p[2] == w.p[5], w.p[0] == w.h[0], w.b[0] == w.p[1], w.p[3] == w.p[4], w.p[0] == w.p[3]}; std::string t; for (bool e : eq) t += e ? '1' : '0'; w.text.swap(t); }, "compare", r); break;
    case 8: explore<W>(c.vs, [&] (W& w) { std::string t; t += w.p[which].has_key(S(k)) ? 'y' : 'n'; auto it = w.p[which].find(S(k)); t += it == w.p[which].end() ? 'y' : 'n'; t += std::to_string(w.p[which].size()); w.text.swap(t); }, "find", r); break;
    case 9: explore<W>(c.vs, [&] (W& w) { typename P::object o {w.p[which]}; auto x = o[S(k)]; typename P::array a {w.p[3]}; auto y = a[i]; typename P::view v = w.p[which]; auto z = v[S(k)]; w.out = x; (void) y; (void) z; }, "wrappers", r); break;
    case 10: explore<W>(c.vs, [&] (W& w) { auto x = w.p[which].get_nested(S(k)); w.out = x; }, "get_nested", r); break;
    default: explore<W>(c.vs, [&] (W& w) { P x = w.p[which]; P y = std::move(x); P z; z = y; H q = w.h[0]; B b = w.b[0]; (void) q; (void) b; w.out = z; }, "copies", r); break;
  }
}
static void converting(Rng& r) {
  Case c(r); size_t which = r.below(3); V o2 = c.g.object(2); std::vector<std::string> keys; for (auto& e : c.vs[0].o) if (r.chance(1, 2)) keys.push_back(e.first); std::vector<H> ho; for (auto& e : o2.o) { ho.push_back(H::make_string(S(e.first))); ho.push_back(plain<H>(e.second)); } ho.push_back(H::make_string(S(c.nkey))); ho.push_back(H(1)); std::vector<P> po(ho.begin(), ho.end()); std::vector<sv> svs; for (auto& k : keys) svs.push_back(S(k)); std::string s = c.s;
  bool r2 = r.chance(1, 2);
  switch (r.below(22)) {
    case 0: explore<W>(c.vs, [&] (W& w) { w.p[which].finalize(); }, "finalize", r); break;
    case 1: explore<W>(c.vs, [&] (W& w) { w.p[2].lift(); w.p[5].definalize(); }, "definalize", r); break;
    case 2: explore<W>(c.vs, [&] (W& w) { B b = w.h[0].lower(); w.b[1] = std::move(b); }, "lower", r); break;
    case 3: explore<W>(c.vs, [&] (W& w) { H h = w.b[0].lift(); w.hout = std::move(h); }, "lift", r); break;
    case 4: explore<W>(c.vs, [&] (W& w) { P x = r2 ? w.p[which].inject(gsl::make_span(ho)) : w.p[which].inject(gsl::make_span(po)); w.out = std::move(x); }, "inject", r); break;
    case 5: explore<W>(c.vs, [&] (W& w) { P x = w.p[which].inject("one", 1, "a longer name for a field", "a longer value for that field too"); w.out = std::move(x); }, "inject list", r); break;
    case 6: explore<W>(c.vs, [&] (W& w) { P x = w.p[which].project(gsl::make_span(svs)); w.out = std::move(x); }, "project", r); break;
    case 7: explore<W>(c.vs, [&] (W& w) { auto b = w.b[0].inject(gsl::make_span(ho)); P x(b); w.out = std::move(x); }, "buffer inject", r); break;
    case 8: explore<W>(c.vs, [&] (W& w) { auto b = w.b[0].project(gsl::make_span(svs)); P x(b); w.out = std::move(x); }, "buffer project", r); break;
    case 9: explore<W>(c.vs, [&] (W& w) { P x = P::make_object("a", 1, "a longer name for a field", "a value longer than the small string", "c", w.p[which]); w.out = std::move(x); }, "make_object", r); break;
    case 10: explore<W>(c.vs, [&] (W& w) { P x = P::make_array(1, "a value longer than the small string", w.p[which], 2.5); w.out = std::move(x); }, "make_array", r); break;
    case 11: explore<W>(c.vs, [&] (W& w) { P x = P::make_string(S(s)); P y(x); w.out = std::move(y); }, "make_string", r); break;
    case 12: explore<W>(c.vs, [&] (W& w) { size_t len; auto d = w.b[0].dup_bytes(len); B b(std::move(d)); P x(b); w.out = std::move(x); }, "dup_bytes", r); break;
    case 13: explore<W>(c.vs, [&] (W& w) { B b(w.b[0].get_bytes()); P x(b); w.out = std::move(x); }, "from bytes", r); break;
    case 14: explore<W>(c.vs, [&] (W& w) { size_t len; auto d = w.p[2].dup_bytes(len); P x(std::move(d)); w.out = std::move(x); }, "packet take bytes", r); break;
    case 15: explore<W>(c.vs, [&] (W& w) { P x(w.p[2].get_bytes()); w.out = std::move(x); }, "packet from bytes", r); break;
    case 16: explore<W>(c.vs, [&] (W& w) { H h(w.b[0]); w.hout = std::move(h); }, "heap from buffer", r); break;
    case 17: explore<W>(c.vs, [&] (W& w) { B b(w.h[0]); P x(b); w.out = std::move(x); }, "buffer from heap", r); break;
    case 18: explore<W>(c.vs, [&] (W& w) { H h(w.p[which]); w.hout = std::move(h); }, "heap from packet", r); break;
    case 19: explore<W>(c.vs, [&] (W& w) { B b(w.p[which]); P x(b); w.out = std::move(x); }, "buffer from packet", r); break;
    case 20: explore<W>(c.vs, [&] (W& w) { auto b = B::make_object("a", 1, "a longer name for a field", "a value longer than the small string", "c", w.h[0]); P x(b); w.out = std::move(x); }, "buffer make_object", r); break;
    default: explore<W>(c.vs, [&] (W& w) { typename P::string x {w.p[6]}; x += S(s); auto y = x + "more text than a small string"; P z(y); w.out = std::move(z); }, "string +=", r); break;
  }
}
int main(int c, char** v) { return vt::main(c, v, {{"changing", changing}, {"reading", reading}, {"converting", converting}}); }
#endif
#if PART == 1
static std::string json_of(V const& v) { return plain<H>(v).to_json(); }
static void texts(Rng& r) {
  Case c(r); std::string o = json_of(c.vs[0]), a = json_of(c.vs[1]), bad = o; if (!bad.empty()) bad.resize(r.below(bad.size())); size_t which = r.below(3), wp = r.below(7);
  auto soft = [] (std::string& t, auto&& f) { try { f(); } catch (std::bad_alloc const&) { throw; } catch (std::exception const&) { std::string n = "refused"; t.swap(n); } };
  switch (r.below(14)) {
    case 0: explore<W>(c.vs, [&] (W& w) { auto x = H::from_json(S(o)); w.hout = std::move(x); }, "heap from_json", r); break;
    case 1: explore<W>(c.vs, [&] (W& w) { auto x = B::from_json(S(o)); P y(x); w.out = std::move(y); }, "buffer from_json", r); break;
    case 2: explore<W>(c.vs, [&] (W& w) { auto x = P::from_json(S(o), false); w.out = std::move(x); }, "packet from_json", r); break;
    case 3: explore<W>(c.vs, [&] (W& w) { auto x = P::from_json(S(o), true); w.out = std::move(x); }, "packet from_json finalized", r); break;
    case 4: explore<W>(c.vs, [&] (W& w) { auto x = P::from_json(S(a), false); w.out = std::move(x); }, "from_json array", r); break;
    case 5: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = P::from_json(S(bad), false); w.out = std::move(x); }); }, "from_json refused", r); break;
    case 6: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = B::from_json(S(bad)); P y(x); w.out = std::move(y); }); }, "buffer from_json refused", r); break;
    case 7: explore<W>(c.vs, [&] (W& w) { auto t = w.p[wp].to_json(); w.text.swap(t); }, "to_json", r); break;
    case 8: explore<W>(c.vs, [&] (W& w) { auto t = w.b[0].to_json(); t += w.h[0].to_json(); w.text.swap(t); }, "buffer to_json", r); break;
    case 9: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = H::from_yaml(S(o)); w.hout = std::move(x); }); }, "heap from_yaml", r); break;
    case 10: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = P::from_yaml(S(o), which == 0); w.out = std::move(x); }); }, "from_yaml", r); break;
    case 11: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = P::from_yaml(S(bad), which == 0); w.out = std::move(x); }); }, "from_yaml refused", r); break;
    case 12: explore<W>(c.vs, [&] (W& w) { std::ostringstream os; os << w.p[wp]; if (!os) throw std::bad_alloc(); std::string t = os.str(); w.text.swap(t); }, "print", r); break;
    default: explore<W>(c.vs, [&] (W& w) { soft(w.text, [&] { auto x = B::from_yaml(S(o)); P y(x); w.out = std::move(y); }); }, "buffer from_yaml", r); break;
  }
  if (want_sample()) sample(o.substr(0, 80));
}
static void natives(Rng& r) {
  Case c(r); size_t n = 1 + r.below(4); std::vector<std::string> vs; std::map<std::string, std::string> ms; std::vector<std::vector<int>> vv; std::unordered_map<std::string, double> um; std::set<std::string> ss; std::deque<int64_t> dq;
  for (size_t k = 0; k < n; ++k) { vs.push_back(c.g.text(r.below(50))); ms[c.g.text(r.below(30))] = c.g.text(r.below(40)); vv.push_back(std::vector<int>(r.below(4), static_cast<int>(k))); um["name" + std::to_string(k)] = 0.5 * static_cast<double>(k); ss.insert(c.g.text(r.below(50))); dq.push_back(c.g.integer()); }
  P pvs(vs), pms(ms), pvv(vv), pum(um); if (r.chance(1, 2)) { pms.finalize(); P o = P::make_object("k", pvs); o.finalize(); pvs = o["k"]; }
  std::tuple<std::string, int, double> tp {c.s, 3, 0.25}; std::pair<std::string, std::string> pr {c.s, "the other, long enough to be allocated"}; P ptp(tp), ppr(pr);
  auto put = [] (W& w, auto const& native) { P x = dart::convert::cast<P>(native); w.out = std::move(x); };
  switch (r.below(18)) {
    case 0: explore<W>(c.vs, [&] (W& w) { put(w, vs); }, "from vector", r); break;
    case 1: explore<W>(c.vs, [&] (W& w) { put(w, ms); }, "from map", r); break;
    case 2: explore<W>(c.vs, [&] (W& w) { put(w, vv); }, "from nested vector", r); break;
    case 3: explore<W>(c.vs, [&] (W& w) { put(w, um); }, "from unordered_map", r); break;
    case 4: explore<W>(c.vs, [&] (W& w) { put(w, ss); }, "from set", r); break;
    case 5: explore<W>(c.vs, [&] (W& w) { put(w, tp); }, "from tuple", r); break;
    case 6: explore<W>(c.vs, [&] (W& w) { put(w, pr); }, "from pair", r); break;
    case 7: explore<W>(c.vs, [&] (W& w) { put(w, dq); }, "from deque", r); break;
    case 8: explore<W>(c.vs, [&] (W& w) { auto x = pvs.template as<std::vector<std::string>>(); std::string t; for (auto& e : x) t += e; w.text.swap(t); }, "as vector", r); break;
    case 9: explore<W>(c.vs, [&] (W& w) { auto x = pms.template as<std::map<std::string, std::string>>(); std::string t; for (auto& e : x) t += e.first + e.second; w.text.swap(t); }, "as map", r); break;
    case 10: explore<W>(c.vs, [&] (W& w) { auto x = pvv.template as<std::vector<std::vector<int>>>(); std::string t; for (auto& e : x) t += std::to_string(e.size()); w.text.swap(t); }, "as nested vector", r); break;
    case 11: explore<W>(c.vs, [&] (W& w) { auto x = pum.template as<std::unordered_map<std::string, double>>(); std::string t = std::to_string(x.size()); w.text.swap(t); }, "as unordered_map", r); break;
    case 12: explore<W>(c.vs, [&] (W& w) { auto x = ptp.template as<std::tuple<std::string, int, double>>(); w.text.swap(std::get<0>(x)); }, "as tuple", r); break;
    case 13: explore<W>(c.vs, [&] (W& w) { auto x = ppr.template as<std::pair<std::string, std::string>>(); w.text.swap(x.second); }, "as pair", r); break;
    case 14: explore<W>(c.vs, [&] (W& w) { auto x = w.p[6].template as<std::string>(); w.text.swap(x); }, "as string", r); break;
    case 15: explore<W>(c.vs, [&] (W& w) { bool e[] = {pvs == vs, pms == ms, pvv == vv, pum == um, ptp == tp, ppr == pr, pvs == ss}; std::string t; for (bool x : e) t += x ? '1' : '0'; w.text.swap(t); }, "compare native", r); break;
    case 16: explore<W>(c.vs, [&] (W& w) { w.p[1].add_field("native", ms); w.p[3].push_back(vs); }, "put native", r, false); break;
    default: explore<W>(c.vs, [&] (W& w) { w.p[1] = vs; }, "assign native", r); break;
  }
}
// The owning pointers, over elements and counters that count their own lives.
static long alive = 0;
struct Elem { int v; std::string s; explicit Elem(int v_ = 7) : v(v_), s("an element with something of its own to free") { ++alive; } Elem(Elem const& o) : v(o.v), s(o.s) { ++alive; } virtual ~Elem() { --alive; } };
struct Sub : Elem { std::vector<int> more; explicit Sub(int v_ = 9) : Elem(v_), more(8, v_) {} };
template <class Ptr> static int val(Ptr const& p) { return p ? p.get()->v : -1; }
template <class Ptr> struct From { using type = Sub; };
template <class C> struct From<dart::shareable_ptr<dart::detail::counted_ptr_impl<Elem, C>>> { using type = Elem; };  // doesn't accept others
template <class P> static auto put_raw(P& p, Elem* e) -> decltype(p.reset(e)) { p.reset(e); }
template <class T> static void put_raw(dart::shareable_ptr<T>& p, Elem* e) { p = std::unique_ptr<Elem>(e); }
template <class Ptr, class Make, class MakeSub> static void owning(Rng& r, char const* name, Make make, MakeSub make_sub) {
  for (int round = 0; round < 8; ++round) {
    int what = static_cast<int>(r.below(9)); bool shared = r.chance(1, 2); std::string ctx = std::string(name) + " operation " + std::to_string(what) + (shared ? " shared" : "");
    count(name); seen(hash_bytes(ctx.data(), ctx.size()));
    for (long k = 1; k < 12; ++k) {
      long base = alive; bool threw = false, failed = false; bool sticky = r.chance(1, 3);
      {
        Ptr p(std::unique_ptr<Elem>(new Elem(1))), q; if (shared) q = p; std::unique_ptr<Elem> u; if (what >= 3 && what < 7) u.reset(new Elem(5)); std::unique_ptr<typename From<Ptr>::type> us; if (what >= 5 && what < 7) us.reset(new typename From<Ptr>::type(5)); Elem* raw = what == 7 || what == 8 ? new Elem(5) : nullptr; if (us) u.reset();
        {
          Armed<W> a(k, sticky);
          try {
            switch (what) {
              case 0: p = make(5); break;
              case 1: { auto x = make(5); p = x; break; }
              case 2: p = make_sub(5); break;
              case 3: p = std::move(u); break;
              case 4: { Ptr x(std::move(u)); p = x; break; }
              case 5: p = std::move(us); break;
              case 6: { Ptr x(std::move(us)); p = std::move(x); break; }
              case 7: { Ptr x(raw); raw = nullptr; p = std::move(x); break; }
              default: { Elem* t = raw; raw = nullptr; put_raw(p, t); }
            }
          } catch (std::bad_alloc const&) { threw = true; }
          failed = inject::failures() > 0;
        }
        count("pointer"); if (threw) count("pointer threw");
        VT_CHECK(threw || val(p) == 5, std::string("pointer:completed:") + name, ctx + " holds " + std::to_string(val(p)));
        VT_CHECK(!threw || val(p) == 1 || val(p) == -1, std::string("pointer:old:") + name, ctx + " holds " + std::to_string(val(p)));
        if (shared) VT_CHECK(val(q) == 1 && q.use_count() == (val(p) == 1 ? 2 : 1), std::string("pointer:shared:") + name, ctx + " holds " + std::to_string(val(q)) + " count " + std::to_string(q.use_count()));
        if (raw && threw) raw = nullptr;       // shared_ptr's rule: a failed take has already deleted it
      }
      VT_CHECK(alive == base, std::string("pointer:lifetimes:") + name, ctx + " allocation " + std::to_string(k) + ": " + std::to_string(alive - base) + " elements left");
      if (!failed) break;
    }
  }
}
static void pointers(Rng& r) {
  switch (r.below(4)) {
    case 0: owning<dart::shareable_ptr<std::shared_ptr<Elem>>>(r, "shared_ptr", [] (int v) { return dart::make_shareable<std::shared_ptr<Elem>>(v); }, [] (int v) { return dart::shareable_ptr<std::shared_ptr<Elem>>(std::unique_ptr<Elem>(new Sub(v))); }); break;
    case 1: owning<dart::shareable_ptr<dart::unsafe_ptr<Elem>>>(r, "shareable unsafe_ptr", [] (int v) { return dart::make_shareable<dart::unsafe_ptr<Elem>>(v); }, [] (int v) { return dart::shareable_ptr<dart::unsafe_ptr<Elem>>(std::unique_ptr<Elem>(new Sub(v))); }); break;
    case 2: owning<dart::unsafe_ptr<Elem>>(r, "unsafe_ptr", [] (int v) { return dart::make_unsafe<Elem>(v); }, [] (int v) { return dart::make_unsafe<Sub>(v); }); break;
    default: owning<dart::skinny_ptr<Elem>>(r, "skinny_ptr", [] (int v) { return dart::make_skinny<Elem>(v); }, [] (int v) { return dart::make_skinny<Sub>(v); }); break;
  }
}
int main(int c, char** v) { return vt::main(c, v, {{"texts", texts}, {"natives", natives}, {"pointers", pointers}}); }
#endif
