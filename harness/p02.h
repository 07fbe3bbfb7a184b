// P02: every lookup finds exactly the keys and elements stored.
#pragma once
#include "dt.h"
using namespace vt;

static GenOpt p02_opts(Rng& r) {
  GenOpt o;
  o.depth = 1 + static_cast<unsigned>(r.below(3));
  o.width = 1 + static_cast<unsigned>(r.below(12));
  return o;
}

// Keys to look for: all stored ones, and absent ones close to them.
static std::vector<std::string> p02_probes(V const& v, Gen& g, size_t cap) {
  Rng& r = g.r;
  std::vector<std::string> out, have;
  for (auto& e : v.o) have.push_back(e.first);
  r.shuffle(have);
  if (have.size() > cap) have.resize(cap);
  out = have;
  for (auto& k : have) {
    std::string m = k;
    switch (r.below(9)) {
      case 0: m += static_cast<char>(r.below(256)); break;
      case 1: if (!m.empty()) m.pop_back(); break;
      case 2: if (!m.empty()) m[r.below(m.size())] ^= static_cast<char>(1 << r.below(8)); break;
      case 3: if (!m.empty()) m.back() ^= 1; break;
      case 4: if (!m.empty()) m[0] ^= static_cast<char>(0x80); break;
      case 5: m += '\0'; break;
      case 6: if (!m.empty()) m.erase(0, 1); break;
      case 7: if (m.size() > 2) m[2] ^= 4; break;
      default: if (m.size() > 1) m[1] ^= static_cast<char>(0x90); break;
    }
    out.push_back(m);
  }
  for (int n = 0; n < 3; ++n) out.push_back(g.key());
  out.push_back("");
  out.push_back(std::string(254, 'a')); out.push_back(std::string(255, 'a')); out.push_back(std::string(256, 'a'));
  out.push_back(std::string(r.below(2) ? 65535 : 65536 + r.below(300), 'b'));
  return out;
}

// Buffers have no accessors that take a default
template <class P> struct has_defaults : std::true_type {};
template <template <class> class RC> struct has_defaults<dart::basic_buffer<RC>> : std::false_type {};
template <class P> void p02_or(P const&, sv, V const*, std::false_type) {}
template <class P> void p02_or(P const& p, sv k, V const* want, std::true_type) {
  VT_SAME(want ? *want : V::str("<default>"), read(p.get_or(k, "<default>")), "get_or:key");
}
template <class P> void p02_or(P const&, V const&, size_t, std::false_type) {}
template <class P> void p02_or(P const& p, V const& v, size_t i, std::true_type) {
  VT_SAME(i < v.a.size() ? v.a[i] : V::str("<d>"), read(p.get_or(i, "<d>")), "array:get_or");
}
template <class P> void p02_or(P const&, V const&, std::false_type) {}
template <class P> void p02_or(P const& p, V const& v, std::true_type) {
  bool e = v.a.empty();
  VT_SAME(e ? V::integer(71) : v.a.front(), read(p.front_or(71)), "front_or");
  VT_SAME(e ? V::integer(72) : v.a.back(), read(p.back_or(72)), "back_or");
}
static V first_of(V const& v) { return v.a.empty() ? V::null() : v.a.front(); }
static V last_of(V const& v) { return v.a.empty() ? V::null() : v.a.back(); }
template <class P> using owner_t = std::integral_constant<bool, P::is_owning_type::value>;

// Lookup functions only owners have
template <class P> void p02_owner_key(P const&, std::string const&, V const*, std::false_type) {}
template <class P> void p02_owner_key(P const& p, std::string const& k, V const* want, std::true_type) {
  p02_or(p, S(k), want, has_defaults<P>());
  { P c = p; VT_SAME(want ? *want : V::null(), read(P(std::move(c)[S(k)])), "subscript:rvalue"); }
  { P c = p; VT_SAME(want ? *want : V::null(), read(P(std::move(c).get(S(k)))), "get:rvalue"); }
  { P c = p; bool t = throws<std::out_of_range>([&] { P d = std::move(c).at(S(k)); VT_SAME(want ? *want : V::null(), read(d), "at:rvalue"); }, "at:rvalue"); VT_CHECK(t == !want, "at:rvalue", esc(k)); }
}

template <class P> struct p02_string { static typename P::string make(std::string const& k) { return typename P::string(P::make_string(S(k))); } };

// p denotes v (an object); probe it.
template <class P>
void p02_object(P const& p, V const& v, std::vector<std::string> const& probes, Rng& r) {
  VT_CHECK(p.size() == v.o.size(), "size", std::to_string(p.size()) + " vs " + std::to_string(v.o.size()));
  VT_CHECK(p.empty() == v.o.empty(), "empty", "");
  auto end = p.end(); auto kend = p.key_end();
  for (auto& k : probes) {
    auto f = v.o.find(k);
    V const* want = f == v.o.end() ? nullptr : &f->second;
    count(want ? "present" : "absent");
    if (k.size() >= 255) count(want ? "present-long" : "absent-long");
    sv key = S(k);
    VT_CHECK(p.has_key(key) == !!want, want ? "has_key:missed" : "has_key:phantom", esc(k, 300) + " in " + show(v, 900));
    VT_SAME(want ? *want : V::null(), read(p[key]), "subscript");
    VT_SAME(want ? *want : V::null(), read(p.get(key)), "get");
    bool t = throws<std::out_of_range>([&] { VT_SAME(want ? *want : V::null(), read(p.at(key)), "at"); }, "at");
    VT_CHECK(t == !want, "at:throws", esc(k));
    auto it = p.find(key);
    VT_CHECK((it != end) == !!want && (it == end) == !want, "find:end", esc(k, 300) + " in " + show(v, 900));
    auto kt = p.find_key(key);
    VT_CHECK((kt != kend) == !!want, "find_key:end", esc(k));
    if (want) {
      VT_SAME(*want, read(*it), "find");
      { auto kp = *kt; VT_CHECK(str(kp.strv()) == k, "find_key", esc(k)); }
      // the iterators are in step with iteration: what follows is what follows in key order
      ++it; ++kt;
      auto nx = std::next(f);
      VT_CHECK((it == end) == (nx == v.o.end()), "find:successor-end", esc(k));
      if (nx != v.o.end()) {
        VT_SAME(nx->second, read(*it), "find:successor");
        auto kp = *kt; VT_CHECK(str(kp.strv()) == nx->first, "find_key:successor", esc(k));
      }
    }
    p02_owner_key(p, k, want, owner_t<P>());
    // the same key handed over as a dart string, in both of its own representations
    if (r.chance(1, 3)) {
      auto hs = dart::heap::string(dart::heap::make_string(key));
      VT_CHECK(p.has_key(hs) == !!want, "has_key:string", esc(k));
      VT_SAME(want ? *want : V::null(), read(p[hs]), "subscript:string");
      VT_SAME(want ? *want : V::null(), read(p.get(hs)), "get:string");
      VT_CHECK((p.find(hs) != end) == !!want, "find:string", esc(k));
      VT_CHECK(throws<std::out_of_range>([&] { p.at(hs); }, "at:string") == !want, "at:string", esc(k));
      count("probe-string");
      if (k.size() <= 1000) {
        dart::packet kp = dart::packet::make_object("k", dart::packet::make_string(key)).finalize()["k"];
        dart::string ks(kp);
        VT_CHECK(p.has_key(ks) == !!want, "has_key:finalized-string", esc(k));
        VT_SAME(want ? *want : V::null(), read(p[ks]), "subscript:finalized-string");
        VT_CHECK(p.has_key(kp) == !!want, "has_key:packet", esc(k));
        VT_SAME(want ? *want : V::null(), read(p[kp]), "subscript:packet");
        VT_SAME(want ? *want : V::null(), read(p.get(kp)), "get:packet");
        count("probe-packet");
      }
    }
    seen(mix(hash(v) ^ hash_bytes(k.data(), k.size())));
  }
  // Using an object as an array is an error
  VT_CHECK(throws<dart::type_error>([&] { p.get(size_t(0)); }, "object:get-index"), "object:get-index", "accepted");
  VT_CHECK(throws<dart::type_error>([&] { p[size_t(0)]; }, "object:subscript-index"), "object:subscript-index", "accepted");
  VT_CHECK(throws_any([&] { p.at(size_t(0)); }), "object:at-index", "accepted");
}

// Reference get_nested
static V const* p02_walk(V const* v, std::string const& path, char sep) {
  if (path.empty()) return v;
  size_t pos = 0;
  for (;;) {
    size_t q = path.find(sep, pos);
    std::string part = path.substr(pos, q == std::string::npos ? std::string::npos : q - pos);
    if (v->k != OBJ) return nullptr;
    auto it = v->o.find(part);
    if (it == v->o.end()) return nullptr;
    v = &it->second;
    if (q == std::string::npos) return v;
    pos = q + 1;
  }
}
template <class P>
void p02_nested(P const& p, V const& v, Rng& r, char sep) {
  // Collect some paths
  for (int n = 0; n < 6; ++n) {
    std::string path; V const* c = &v;
    while (c->k == OBJ && !c->o.empty() && r.chance(4, 5)) {
      auto it = c->o.begin(); std::advance(it, static_cast<long>(r.below(c->o.size())));
      if (it->first.find(sep) != std::string::npos) break;
      if (!path.empty()) path += sep;
      path += it->first; c = &it->second;
      if (it->first.empty()) break;
    }
    if (path.empty()) continue;
    if (r.chance(1, 4)) { path += sep; path += r.chance(1, 2) ? "x" : "nope"; }
    else if (r.chance(1, 5)) path[r.below(path.size())] ^= 2;
    if (path.back() == sep) path += 'q';
    if (path[0] == sep) continue;
    V const* want = p02_walk(&v, path, sep);
    VT_SAME(want ? *want : V::null(), read(p.get_nested(S(path), sep)), "get_nested");
    count(want ? "nested-present" : "nested-absent");
    if (want && path.find(sep) != std::string::npos) count("nested-deep");
  }
}

template <class P> void p02_owner_idx(P const&, V const&, size_t, std::false_type) {}
template <class P> void p02_owner_idx(P const& p, V const& v, size_t i, std::true_type) {
  bool in = i < v.a.size();
  V want = in ? v.a[i] : V::null();
  p02_or(p, v, i, has_defaults<P>());
  { P c = p; VT_SAME(want, read(P(std::move(c)[i])), "array:subscript-rvalue"); }
  { P c = p; VT_SAME(want, read(P(std::move(c).get(i))), "array:get-rvalue"); }
  { P c = p; bool t = throws<std::out_of_range>([&] { P d = std::move(c).at(i); VT_SAME(want, read(d), "array:at-rvalue"); }, "array:at-rvalue"); VT_CHECK(t == !in, "array:at-rvalue", ""); }
}
template <class P> void p02_owner_ends(P const&, V const&, std::false_type) {}
template <class P> void p02_owner_ends(P const& p, V const& v, std::true_type) {
  bool e = v.a.empty();
  p02_or(p, v, has_defaults<P>());
  { P c = p; VT_SAME(e ? V::null() : v.a.front(), read(P(std::move(c).front())), "front:rvalue"); }
  { P c = p; VT_SAME(e ? V::null() : v.a.back(), read(P(std::move(c).back())), "back:rvalue"); }
  { P c = p; VT_CHECK(throws<std::out_of_range>([&] { P d = std::move(c).at_front(); VT_SAME(first_of(v), read(d), "at_front:rvalue"); }, "at_front:rvalue") == e, "at_front:rvalue", ""); }
  { P c = p; VT_CHECK(throws<std::out_of_range>([&] { P d = std::move(c).at_back(); VT_SAME(last_of(v), read(d), "at_back:rvalue"); }, "at_back:rvalue") == e, "at_back:rvalue", ""); }
}
static std::vector<size_t> p02_indices(size_t n, Rng& r) {
  std::vector<size_t> ix {0, n, n + 1, n + 7, n ? n - 1 : 0, size_t(1) << 32, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 8 + 1, (size_t(1) << 61) + (n ? n - 1 : 0), n * 2 + 3};
  for (int k = 0; k < 8; ++k) ix.push_back(r.below(n + 2));
  return ix;
}
template <class P>
void p02_array(P const& p, V const& v, Rng& r) {
  size_t n = v.a.size();
  VT_CHECK(p.size() == n, "array:size", std::to_string(p.size()) + " vs " + std::to_string(n));
  VT_CHECK(p.empty() == (n == 0), "array:empty", "");
  for (size_t i : p02_indices(n, r)) {
    bool in = i < n;
    V want = in ? v.a[i] : V::null();
    VT_SAME(want, read(p[i]), "array:subscript");
    VT_SAME(want, read(p.get(i)), "array:get");
    bool t = throws<std::out_of_range>([&] { VT_SAME(want, read(p.at(i)), "array:at"); }, "array:at");
    VT_CHECK(t == !in, "array:at-throws", std::to_string(i) + " of " + std::to_string(n));
    p02_owner_idx(p, v, i, owner_t<P>());
    if (i < INT64_MAX && r.chance(1, 3)) {
      dart::heap::number num(dart::heap::make_integer(static_cast<int64_t>(i)));
      VT_SAME(want, read(p[num]), "array:subscript-number");
      VT_SAME(want, read(p.get(num)), "array:get-number");
      VT_CHECK(throws<std::out_of_range>([&] { p.at(num); }, "array:at-number") == !in, "array:at-number", "");
      dart::packet np = dart::packet::make_object("n", static_cast<int64_t>(i)).finalize()["n"];
      VT_SAME(want, read(p[np]), "array:subscript-packet");
      VT_SAME(want, read(p.get(np)), "array:get-packet");
      count("index-number");
    }
    count(in ? "index-in" : "index-out");
  }
  bool e = n == 0;
  VT_SAME(e ? V::null() : v.a.front(), read(p.front()), "front");
  VT_SAME(e ? V::null() : v.a.back(), read(p.back()), "back");
  VT_CHECK(throws<std::out_of_range>([&] { VT_SAME(first_of(v), read(p.at_front()), "at_front"); }, "at_front") == e, "at_front", "");
  VT_CHECK(throws<std::out_of_range>([&] { VT_SAME(last_of(v), read(p.at_back()), "at_back"); }, "at_back") == e, "at_back", "");
  p02_owner_ends(p, v, owner_t<P>());
  VT_CHECK(throws<dart::type_error>([&] { p.get(sv("a")); }, "array:get-key"), "array:get-key", "accepted");
  VT_CHECK(throws_any([&] { p.at(sv("a")); }), "array:at-key", "accepted");
  VT_CHECK(throws<dart::type_error>([&] { p.find(sv("a")); }, "array:find"), "array:find", "accepted");
  seen(hash(v) * 3);
}
// Everything below v as well
template <class P>
void p02_deep(P const& p, V const& v, Gen& g, unsigned lim) {
  if (v.k == OBJ) {
    p02_object(p, v, p02_probes(v, g, lim == 2 ? 40 : 6), g.r);
    if (lim) for (auto& e : v.o) if ((e.second.k == OBJ || e.second.k == ARR) && g.r.chance(2, 3)) p02_deep(P(p[S(e.first)]), e.second, g, lim - 1);
  } else if (v.k == ARR) {
    p02_array(p, v, g.r);
    if (lim) for (size_t i = 0; i < v.a.size() && i < 12; ++i) if (v.a[i].k == OBJ || v.a[i].k == ARR) p02_deep(P(p[i]), v.a[i], g, lim - 1);
  }
}
// Typed wrappers
template <class O>
void p02_wobject(O const& o, V const& v, std::vector<std::string> const& probes) {
  VT_CHECK(o.size() == v.o.size() && o.empty() == v.o.empty(), "wrapper:size", "");
  for (auto& k : probes) {
    auto f = v.o.find(k);
    V const* want = f == v.o.end() ? nullptr : &f->second;
    auto key = S(k);
    VT_CHECK(o.has_key(key) == !!want, "wrapper:has_key", esc(k));
    VT_SAME(want ? *want : V::null(), read(o[key]), "wrapper:subscript");
    VT_SAME(want ? *want : V::null(), read(o.get(key)), "wrapper:get");
    bool t = throws<std::out_of_range>([&] { VT_SAME(want ? *want : V::null(), read(o.at(key)), "wrapper:at"); }, "wrapper:at");
    VT_CHECK(t == !want, "wrapper:at", esc(k));
    auto it = o.find(key);
    VT_CHECK((it != o.end()) == !!want, "wrapper:find", esc(k));
    if (want) { VT_SAME(*want, read(*it), "wrapper:find"); auto kp = *o.find_key(key); VT_CHECK(str(kp.strv()) == k, "wrapper:find_key", ""); }
    count("wrapper-probe");
  }
}
template <class A>
void p02_warray(A const& a, V const& v, Rng& r) {
  size_t n = v.a.size();
  VT_CHECK(a.size() == n && a.empty() == (n == 0), "wrapper:array-size", "");
  for (size_t i : p02_indices(n, r)) {
    bool in = i < n; V want = in ? v.a[i] : V::null();
    VT_SAME(want, read(a[i]), "wrapper:array-subscript");
    VT_SAME(want, read(a.get(i)), "wrapper:array-get");
    VT_CHECK(throws<std::out_of_range>([&] { VT_SAME(want, read(a.at(i)), "wrapper:array-at"); }, "wrapper:array-at") == !in, "wrapper:array-at", "");
  }
  VT_SAME(n ? v.a.front() : V::null(), read(a.front()), "wrapper:front");
  VT_SAME(n ? v.a.back() : V::null(), read(a.back()), "wrapper:back");
  VT_CHECK(throws<std::out_of_range>([&] { VT_SAME(first_of(v), read(a.at_front()), "wrapper:at_front"); }, "wrapper:at_front") == (n == 0), "wrapper:at_front", "");
  VT_CHECK(throws<std::out_of_range>([&] { VT_SAME(last_of(v), read(a.at_back()), "wrapper:at_back"); }, "wrapper:at_back") == (n == 0), "wrapper:at_back", "");
  count("wrapper-array");
}

static V p02_value(Gen& g) {
  Rng& r = g.r;
  V v = V::obj();
  switch (r.below(6)) {
    case 0: v = g.root_object(); break;
    case 1: { for (auto& k : g.keys(r.below(60))) v.o[k] = g.small_scalar(); break; }
    case 2: { // dense: short keys over a tiny alphabet, so that prefixes and lengths collide
      size_t n = 1 + r.below(60);
      static char const* alpha[] = {"ab", "\x01\xff", "a\x80\xff", "\x7f\x80"};
      std::string al = alpha[r.below(4)];
      if (r.chance(1, 3)) al += '\0';
      for (size_t k = 0; k < n; ++k) { std::string s; size_t len = r.below(7); while (s.size() < len) s += al[r.below(al.size())]; v.o[s] = g.small_scalar(); }
      break;
    }
    case 3: { // lengths around the cap of the length cache
      size_t n = 1 + r.below(14);
      for (size_t k = 0; k < n; ++k) { std::string s(252 + r.below(8), 'x'); size_t at = r.chance(1, 2) ? r.below(3) : s.size() - 1 - r.below(3); s[at] = static_cast<char>(r.below(256)); v.o[s] = g.small_scalar(); }
      break;
    }
    case 4: { v.o["arr"] = g.array(2); V a = V::arr(); size_t n = r.below(40); for (size_t k = 0; k < n; ++k) a.a.push_back(g.small_scalar()); v.o[g.text(2)] = a; break; }
    default: { // nesting with plain keys, for paths
      V* c = &v; size_t n = 1 + r.below(5);
      for (size_t k = 0; k < n; ++k) { for (int q = 0; q < 3; ++q) c->o[std::string(1, static_cast<char>('a' + r.below(4)))] = g.small_scalar(); V& nx = c->o[std::string(1 + r.below(2), static_cast<char>('a' + r.below(3)))]; nx = V::obj(); c = &nx; }
      break;
    }
  }
  if (want_sample()) sample(show(v));
  return v;
}
