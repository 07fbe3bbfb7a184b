// P13: type discipline.
#pragma once
#include "dt.h"
#include "hist.h"
#include <stdexcept>

namespace vt {
  enum Outcome { O_OK = 1, O_TYPE = 2, O_RANGE = 4, O_STATE = 8, O_INVALID = 16, O_OTHER = 32 };
  inline std::string outcome_name(int o) {
    std::string s;
    if (o & O_OK) s += "a value "; if (o & O_TYPE) s += "type_error "; if (o & O_RANGE) s += "out_of_range ";
    if (o & O_STATE) s += "state_error "; if (o & O_INVALID) s += "invalid_argument "; if (o & O_OTHER) s += "another exception ";
    return s;
  }
  template <class F>
  int outcome(F&& f) {
    eval();
    try { f(); return O_OK; }
    catch (Abort const&) { throw; }
    catch (dart::type_error const&) { return O_TYPE; }
    catch (dart::state_error const&) { return O_STATE; }
    catch (std::out_of_range const&) { return O_RANGE; }
    catch (std::invalid_argument const&) { return O_INVALID; }
    catch (std::exception const&) { return O_OTHER; }
  }
  // fn must end as one of `want`; when it must succeed it may check its own result.
  template <class F>
  void expect_outcome(int want, char const* rep, char const* op, V const& v, F&& fn) {
    int got = outcome(fn);
    if (!(got & want)) { Quiet q; fail(std::string("outcome:") + op, std::string(rep) + ": wanted " + outcome_name(want) + "got " + outcome_name(got) + "for " + show(v, 200)); }
    if (got != O_OK) count("refused");
  }
  template <class X> V rd(X const& x) { return read(x); }

  // Exactly one type, on which all the queries agree
  template <class X>
  void predicates(X const& x, V const& v, char const* rep) {
    auto T = [&](Kind k) { return v.k == k; };
    auto eqv = [&](bool ok, char const* op) { eval(); if (!ok) { Quiet q; fail(std::string("query:") + op, std::string(rep) + ": wrong answer for " + show(v, 200)); } };
    eqv(x.get_type() == type_of(v.k), "get_type");
    eqv(x.is_object() == T(OBJ), "is_object"); eqv(x.is_array() == T(ARR), "is_array"); eqv(x.is_aggregate() == (T(OBJ) || T(ARR)), "is_aggregate");
    eqv(x.is_str() == T(STR), "is_str"); eqv(x.is_integer() == T(INT), "is_integer"); eqv(x.is_decimal() == T(DEC), "is_decimal");
    eqv(x.is_numeric() == (T(INT) || T(DEC)), "is_numeric"); eqv(x.is_boolean() == T(BOOL), "is_boolean"); eqv(x.is_null() == T(NUL), "is_null");
    eqv(x.is_primitive() == !(T(OBJ) || T(ARR)), "is_primitive");
  }
  // Every read-only access to a value of one type.
  template <class X>
  void accessors(X const& x, V const& v, Rng& r, char const* rep) {
    auto T = [&](Kind k) { return v.k == k; };
    auto must = [&](bool ok, char const* op, std::function<void()> fn) { expect_outcome(ok ? O_OK : O_TYPE, rep, op, v, fn); };
    auto eqv = [&](bool ok, char const* op) { eval(); if (!ok) { Quiet q; fail(std::string("value:") + op, std::string(rep) + ": wrong result for " + show(v, 200)); } };
    predicates(x, v, rep);
    eqv(static_cast<bool>(x) == !(T(NUL) || (T(BOOL) && !v.b)), "operator bool");
    // Machine values
    std::string dflt = "default";
    must(T(STR), "str", [&] { char const* s = x.str(); eqv(memcmp(s, v.s.data(), v.s.size()) == 0 && s[v.s.size()] == 0, "str"); });
    must(T(STR), "strv", [&] { eqv(str(x.strv()) == v.s, "strv"); });
    must(T(INT), "integer", [&] { eqv(x.integer() == v.i, "integer"); });
    must(T(DEC), "decimal", [&] { eqv(bits(x.decimal()) == bits(v.d), "decimal"); });
    must(T(INT) || T(DEC), "numeric", [&] { eqv(bits(x.numeric()) == bits(T(INT) ? static_cast<double>(v.i) : v.d), "numeric"); });
    must(T(BOOL), "boolean", [&] { eqv(x.boolean() == v.b, "boolean"); });
    eqv(str(x.strv_or(S(dflt))) == (T(STR) ? v.s : dflt), "strv_or");
    { char const* s = x.str_or(dflt.c_str()); eqv(T(STR) ? (memcmp(s, v.s.data(), v.s.size()) == 0 && s[v.s.size()] == 0) : s == dflt.c_str(), "str_or"); }
    int64_t di = static_cast<int64_t>(r.next()); double dd = static_cast<double>(r.range(-999, 999)) / 8; bool db = r.chance(1, 2);
    eqv(x.integer_or(di) == (T(INT) ? v.i : di), "integer_or");
    eqv(bits(x.decimal_or(dd)) == bits(T(DEC) ? v.d : dd), "decimal_or");
    eqv(bits(x.numeric_or(dd)) == bits(T(INT) ? static_cast<double>(v.i) : T(DEC) ? v.d : dd), "numeric_or");
    eqv(x.boolean_or(db) == (T(BOOL) ? v.b : db), "boolean_or");
    // Sizes
    size_t want_size = T(OBJ) ? v.o.size() : T(ARR) ? v.a.size() : v.s.size();
    must(T(OBJ) || T(ARR) || T(STR), "size", [&] { eqv(x.size() == want_size, "size"); });
    must(T(OBJ) || T(ARR) || T(STR), "empty", [&] { eqv(x.empty() == (want_size == 0), "empty"); });
    // Aggregates
    must(T(OBJ) || T(ARR), "begin", [&] { auto i = x.begin(); eqv((i == x.end()) == (want_size == 0), "begin"); });
    must(T(OBJ) || T(ARR), "end", [&] { (void) x.end(); });
    must(T(OBJ) || T(ARR), "rbegin", [&] { auto i = x.rbegin(); eqv((i == x.rend()) == (want_size == 0), "rbegin"); });
    must(T(OBJ) || T(ARR), "values", [&] { eqv(x.values().size() == want_size, "values"); });
    must(T(OBJ), "key_begin", [&] { eqv((x.key_begin() == x.key_end()) == (want_size == 0), "key_begin"); });
    must(T(OBJ), "key_end", [&] { (void) x.key_end(); });
    must(T(OBJ), "rkey_begin", [&] { eqv((x.rkey_begin() == x.rkey_end()) == (want_size == 0), "rkey_begin"); });
    must(T(OBJ), "kvbegin", [&] { auto kv = x.kvbegin(); eqv((std::get<1>(kv) == x.end()) == (want_size == 0), "kvbegin"); });
    must(T(OBJ), "rkvbegin", [&] { auto kv = x.rkvbegin(); (void) kv; });
    must(T(OBJ), "keys", [&] { eqv(x.keys().size() == want_size, "keys"); });
    std::string k = T(OBJ) && !v.o.empty() && r.chance(2, 3) ? std::next(v.o.begin(), static_cast<long>(r.below(v.o.size())))->first : std::string("nope!");
    auto f = v.o.find(k); bool has = f != v.o.end();
    V want = has ? f->second : V::null();
    dart::string dk(k);
    // (heap views and the like accept any owning key)
    must(T(OBJ), "has_key", [&] { eqv(x.has_key(S(k)) == has, "has_key"); });
    must(T(OBJ), "find", [&] { auto i = x.find(S(k)); eqv((i != x.end()) == has && (!has || same(rd(*i), want)), "find"); });
    must(T(OBJ), "find_key", [&] { auto i = x.find_key(S(k)); eqv((i != x.key_end()) == has && (!has || str((*i).strv()) == k), "find_key"); });
    must(T(OBJ), "get(key)", [&] { eqv(same(rd(x.get(S(k))), want), "get(key)"); });
    must(T(OBJ), "[key]", [&] { eqv(same(rd(x[S(k)]), want), "[key]"); });
    expect_outcome(T(OBJ) ? (has ? O_OK : O_RANGE) : O_TYPE, rep, "at(key)", v, [&] { eqv(same(rd(x.at(S(k))), want), "at(key)"); });
    if (!k.empty() && k.find('\x03') == std::string::npos) eqv(same(rd(x.get_nested(S(k), '\x03')), T(OBJ) ? want : V::null()), "get_nested");
    size_t idx = r.below(v.a.size() + 2); bool in = idx < v.a.size();
    V el = in ? v.a[idx] : V::null();
    must(T(ARR), "get(idx)", [&] { eqv(same(rd(x.get(idx)), el), "get(idx)"); });
    must(T(ARR), "[idx]", [&] { eqv(same(rd(x[idx]), el), "[idx]"); });
    int badarr = T(OBJ) || T(STR) ? (O_TYPE | O_RANGE) : O_TYPE;
    expect_outcome(T(ARR) ? (in ? O_OK : O_RANGE) : badarr, rep, "at(idx)", v, [&] { eqv(same(rd(x.at(idx)), el), "at(idx)"); });
    bool some = !v.a.empty();
    must(T(ARR), "front", [&] { eqv(same(rd(x.front()), some ? v.a.front() : V::null()), "front"); });
    must(T(ARR), "back", [&] { eqv(same(rd(x.back()), some ? v.a.back() : V::null()), "back"); });
    expect_outcome(T(ARR) ? (some ? O_OK : O_RANGE) : badarr, rep, "at_front", v, [&] { eqv(same(rd(x.at_front()), v.a.front()), "at_front"); });
    expect_outcome(T(ARR) ? (some ? O_OK : O_RANGE) : badarr, rep, "at_back", v, [&] { eqv(same(rd(x.at_back()), v.a.back()), "at_back"); });
    // Casts
    must(T(INT), "as<int64_t>", [&] { eqv(x.template as<int64_t>() == v.i, "as<int64_t>"); });
    must(T(DEC), "as<double>", [&] { eqv(bits(x.template as<double>()) == bits(v.d), "as<double>"); });
    must(T(STR), "as<std::string>", [&] { eqv(x.template as<std::string>() == v.s, "as<std::string>"); });
    must(T(BOOL), "as<bool>-boolean", [&] { if (!T(BOOL)) (void) x.boolean(); eqv(x.template as<bool>() == v.b, "as<bool>"); });
    must(T(STR), "operator std::string", [&] { std::string s = static_cast<std::string>(x); eqv(s == v.s, "operator std::string"); });
    { auto m = x.template maybe_as<std::string>(); eqv(static_cast<bool>(m) == T(STR) && (!m || *m == v.s), "maybe_as<std::string>"); }
    { auto m = x.template maybe_as<double>(); eqv(static_cast<bool>(m) == T(DEC) && (!m || bits(*m) == bits(v.d)), "maybe_as<double>"); }
    { auto m = x.template maybe_as<int64_t>(); eqv(static_cast<bool>(m) == T(INT) && (!m || *m == v.i), "maybe_as<int64_t>"); }
    // none of which changed anything
    VT_SAME(v, read(x), "changed-by-reading");
    seen(mix(hash(v) ^ hash_bytes(rep, strlen(rep))));
  }
  // Defaulted lookups (not for buffers, which cannot hold a native default)
  template <class X>
  void defaults(X const& x, V const& v, Rng& r, char const* rep) {
    auto eqv = [&](bool ok, char const* op) { eval(); if (!ok) { Quiet q; fail(std::string("value:") + op, std::string(rep) + ": wrong result for " + show(v, 200)); } };
    std::string k = v.k == OBJ && !v.o.empty() && r.chance(2, 3) ? std::next(v.o.begin(), static_cast<long>(r.below(v.o.size())))->first : std::string("nope!");
    auto f = v.o.find(k);
    size_t idx = r.below(v.a.size() + 2);
    V d = V::integer(r.range(-9, 9));
    eqv(same(rd(x.get_or(S(k), d.i)), f != v.o.end() ? f->second : d), "get_or(key)");
    eqv(same(rd(x.get_or(idx, d.i)), idx < v.a.size() ? v.a[idx] : d), "get_or(idx)");
    eqv(same(rd(x.front_or(d.i)), v.a.empty() ? d : v.a.front()), "front_or");
    eqv(same(rd(x.back_or(d.i)), v.a.empty() ? d : v.a.back()), "back_or");
    VT_SAME(v, read(x), "changed-by-reading");
  }
  // Typed wrappers: constructible exactly from their own type
  template <template <class> class W, class X>
  void wrapper(X x, V const& v, bool ok, char const* rep, char const* name) {
    int want = ok ? O_OK : O_TYPE;
    std::string op = std::string("wrap:") + name;
    expect_outcome(want, rep, op.c_str(), v, [&] { W<X> w(x); VT_SAME(v, read(w.dynamic()), op); eval(); predicates(w, v, name); predicates(typename W<X>::view(w), v, name); count("wrapped"); });
    VT_SAME(v, read(x), "wrap:source");
    X y = x;
    expect_outcome(want, rep, op.c_str(), v, [&] { W<X> w(std::move(y)); VT_SAME(v, read(w.dynamic()), op); });
    if (!ok) (void) read(y);   // still a packet
    VT_SAME(v, read(x), "wrap:source");
    expect_outcome(want, rep, "as<wrapper>", v, [&] { auto w = x.template as<W<X>>(); VT_SAME(v, read(w.dynamic()), op); });
    X z = x;
    expect_outcome(want, rep, "as<wrapper>&&", v, [&] { auto w = std::move(z).template as<W<X>>(); VT_SAME(v, read(w.dynamic()), op); });
    if (!ok) (void) read(z);
    { auto m = x.template maybe_as<W<X>>(); eval(); if (static_cast<bool>(m) != ok) fail("wrap:maybe_as", std::string(rep) + " " + name + " for " + show(v, 120)); if (m) VT_SAME(v, read(m->dynamic()), op); }
  }
  template <class X>
  void wrappers(X const& x, V const& v, char const* rep) {
    wrapper<dart::basic_object>(x, v, v.k == OBJ, rep, "object");
    wrapper<dart::basic_array>(x, v, v.k == ARR, rep, "array");
    wrapper<dart::basic_string>(x, v, v.k == STR, rep, "string");
    wrapper<dart::basic_number>(x, v, v.k == INT || v.k == DEC, rep, "number");
    wrapper<dart::basic_flag>(x, v, v.k == BOOL, rep, "flag");
    wrapper<dart::basic_null>(x, v, v.k == NUL, rep, "null");
  }
  // Mutators of a type that does not support them (or of a finalized packet): refused, and nothing changes.
  // `fin`: the packet is finalized.
  template <class P>
  void mutators(P& p, V const& v, bool fin, Rng& r, char const* rep) {
    P probe = p;
    auto settled = [&](char const* op) { V now = read(p); eval(); if (!same(now, v)) { Quiet q; fail(std::string("refused-but-changed:") + op, std::string(rep) + " " + first_difference(v, now)); } };
    auto refuse = [&](bool supported, char const* op, std::function<void()> fn) {
      if (supported && !fin) return;
      expect_outcome(fin ? O_STATE : O_TYPE, rep, op, v, fn);
      settled(op);
    };
    bool o = v.k == OBJ, a = v.k == ARR;
    std::string k = o && !v.o.empty() && r.chance(2, 3) ? v.o.begin()->first : std::string("nk");
    P kp = P::make_string(S(k)), val = P::make_integer(7);
    size_t i = r.below(v.a.size() + 1);
    auto n = P::make_integer(static_cast<int64_t>(i));
    refuse(o, "add_field", [&] { p.add_field(S(k), 1); });
    refuse(o, "add_field(packet)", [&] { p.add_field(kp, val); });
    refuse(o, "add_field&&", [&] { P q = p; auto t = std::move(q).add_field(S(k), 1); });
    refuse(o, "remove_field", [&] { p.remove_field(S(k)); });
    refuse(o, "remove_field(packet)", [&] { p.remove_field(kp); });
    refuse(o, "insert(key)", [&] { p.insert(S(k), 1); });
    refuse(o, "insert(key packet)", [&] { p.insert(kp, val); });
    refuse(o, "set(key)", [&] { p.set(S(k), 1); });
    refuse(o, "erase(key)", [&] { p.erase(S(k)); });
    refuse(o, "erase(key packet)", [&] { p.erase(kp); });
    refuse(a, "push_back", [&] { p.push_back(1); });
    refuse(a, "push_front", [&] { p.push_front(val); });
    refuse(a, "push_back&&", [&] { P q = p; auto t = std::move(q).push_back(1); });
    refuse(a, "pop_back", [&] { p.pop_back(); });
    refuse(a, "pop_front", [&] { p.pop_front(); });
    refuse(a, "insert(idx)", [&] { p.insert(i, val); });
    refuse(a, "insert(idx packet)", [&] { p.insert(n, val); });
    refuse(a, "set(idx)", [&] { p.set(i, val); });
    refuse(a, "erase(idx)", [&] { p.erase(i); });
    refuse(a, "erase(idx packet)", [&] { p.erase(n); });
    refuse(a, "reserve", [&] { p.reserve(i + 1); });
    refuse(a, "resize", [&] { p.resize(i + 1, val); });
    refuse(o || a, "clear", [&] { p.clear(); });
    if (!o) { expect_outcome(O_TYPE, rep, "inject", v, [&] { (void) p.inject(S(k), 1); }); settled("inject"); }
    if (!o) { expect_outcome(O_TYPE, rep, "project", v, [&] { std::vector<std::string> ks {k}; (void) p.project(ks); }); settled("project"); }
    VT_SAME(v, read(probe), "refused-but-copy-changed");
  }
  inline V p13_value(Rng& r) {
    GenOpt o; o.big = r.chance(1, 10); o.nonfinite = r.chance(1, 8); o.depth = 1 + static_cast<unsigned>(r.below(2)); o.width = 4;
    Gen g(r, o);
    V v;
    switch (r.below(8)) {
      case 0: case 1: v = g.object(o.depth); break;
      case 2: case 3: v = g.array(o.depth); break;
      case 4: v = V::str(g.string()); break;
      default: v = g.scalar(); break;
    }
    std::function<void(V&)> nn = [&](V& x) { if (x.k == DEC && std::isnan(x.d)) x.d = std::numeric_limits<double>::infinity(); for (auto& e : x.a) nn(e); for (auto& e : x.o) nn(e.second); };
    nn(v);
    count(kind_name(v.k));
    return v;
  }
}
