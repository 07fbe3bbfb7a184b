// P17/P18: a machine that applies every operation to a handle of the C interface and to a C++ object of the same kind, and compares everything
// that can be observed through either. The C side only ever uses the functions of abi.h.
#pragma once
#include "dt.h"
#include "json.h"
#include <dart/abi.h>
#include <dart/api_swap.h>

// A block that may outlive the case: the text of the thread's last error
namespace vt { namespace alloc { void forget(void const*); } }

namespace cabi {
  using namespace vt;
  using dart::unsafe_heap; using dart::unsafe_buffer; using dart::unsafe_packet;
  enum { MIX = 100 };   // refused because of mixed counters: the exact code is not specified

  template <class P> struct Tr;
  template <> struct Tr<dart::heap> { static constexpr int k = DART_HEAP, rc = DART_RC_SAFE; using H = dart::heap; using B = dart::buffer; using P = dart::packet; };
  template <> struct Tr<dart::buffer> { static constexpr int k = DART_BUFFER, rc = DART_RC_SAFE; using H = dart::heap; using B = dart::buffer; using P = dart::packet; };
  template <> struct Tr<dart::packet> { static constexpr int k = DART_PACKET, rc = DART_RC_SAFE; using H = dart::heap; using B = dart::buffer; using P = dart::packet; };
  template <> struct Tr<unsafe_heap> { static constexpr int k = DART_HEAP, rc = DART_RC_UNSAFE; using H = unsafe_heap; using B = unsafe_buffer; using P = unsafe_packet; };
  template <> struct Tr<unsafe_buffer> { static constexpr int k = DART_BUFFER, rc = DART_RC_UNSAFE; using H = unsafe_heap; using B = unsafe_buffer; using P = unsafe_packet; };
  template <> struct Tr<unsafe_packet> { static constexpr int k = DART_PACKET, rc = DART_RC_UNSAFE; using H = unsafe_heap; using B = unsafe_buffer; using P = unsafe_packet; };

  // The C++ side of a handle
  struct Sh {
    int k = DART_PACKET, rc = DART_RC_SAFE;
    dart::heap h; unsafe_heap uh; dart::buffer b; unsafe_buffer ub; dart::packet p; unsafe_packet up;
    dart::heap& at(dart::heap*) { return h; } unsafe_heap& at(unsafe_heap*) { return uh; }
    dart::buffer& at(dart::buffer*) { return b; } unsafe_buffer& at(unsafe_buffer*) { return ub; }
    dart::packet& at(dart::packet*) { return p; } unsafe_packet& at(unsafe_packet*) { return up; }
    template <class T> static Sh of(T x) { Sh s; s.k = Tr<T>::k; s.rc = Tr<T>::rc; s.at(static_cast<T*>(nullptr)) = std::move(x); return s; }
    template <class F> void visit(F&& f) {
      if (rc == DART_RC_SAFE) { if (k == DART_HEAP) f(h); else if (k == DART_BUFFER) f(b); else f(p); }
      else { if (k == DART_HEAP) f(uh); else if (k == DART_BUFFER) f(ub); else f(up); }
    }
    // heaps and packets only
    template <class F> bool visit_mut(F&& f) {
      if (k == DART_BUFFER) return false;
      if (rc == DART_RC_SAFE) { if (k == DART_HEAP) f(h); else f(p); } else { if (k == DART_HEAP) f(uh); else f(up); }
      return true;
    }
    // buffers and packets only
    template <class F> bool visit_bytes(F&& f) {
      if (k == DART_HEAP) return false;
      if (rc == DART_RC_SAFE) { if (k == DART_BUFFER) f(b); else f(p); } else { if (k == DART_BUFFER) f(ub); else f(up); }
      return true;
    }
    V value() { V v; visit([&] (auto& x) { v = read(x); }); return v; }
    size_t refs() { size_t n = 0; visit([&] (auto& x) { n = x.refcount(); }); return n; }
  };
  template <int K, int RC, class F> static void typed(F&& f) {}

  // Arguments in blocks of exactly their size
  struct Raw {
    char* p; size_t n;
    Raw(std::string const& s, bool z) : n(s.size()) { p = static_cast<char*>(malloc(n + (z ? 1 : 0) + (n + (z ? 1 : 0) == 0))); memcpy(p, s.data(), n); if (z) p[n] = 0; }
    ~Raw() { free(p); }
    Raw(Raw const&) = delete;
  };

  struct Slot {
    void* c = nullptr; size_t mem = 0;
    Sh sh;
    dart_heap_t* hp() const { return static_cast<dart_heap_t*>(c); }
    dart_buffer_t* bp() const { return static_cast<dart_buffer_t*>(c); }
    dart_packet_t* pp() const { return static_cast<dart_packet_t*>(c); }
  };

  inline void* fresh(size_t n, Rng& r) { void* p = malloc(n); memset(p, static_cast<int>(r.below(256)), n); return p; }

  struct Machine {
    Rng& r; Gen& g; bool hostile;
    std::vector<Slot> ss;
    std::string msg;              // what dart_get_error must say
    std::string what;             // of the last C++ exception
    std::string op;
    size_t cap = 8;
    Machine(Rng& rr, Gen& gg, bool h) : r(rr), g(gg), hostile(h) { { Quiet q; dart_get_error(); } msg = dart_get_error(); }

    // ---- results
    template <class F> int code(F&& f) {
      eval(0);
      try { f(); return DART_NO_ERROR; }
      catch (Abort const&) { throw; }
      catch (dart::type_error const& e) { what = e.what(); return DART_TYPE_ERROR; }
      catch (dart::state_error const& e) { what = e.what(); return DART_STATE_ERROR; }
      catch (dart::parse_error const& e) { what = e.what(); return DART_PARSE_ERROR; }
      catch (std::logic_error const& e) { what = e.what(); return DART_LOGIC_ERROR; }
      catch (std::runtime_error const& e) { what = e.what(); return DART_RUNTIME_ERROR; }
    }
    template <class F> int mut(Slot& s, F&& f) {
      bool ok = true;
      int e = code([&] { ok = s.sh.visit_mut(f); });
      if (!ok) { what.clear(); return DART_CLIENT_ERROR; }
      return e;
    }
    template <class F> int acc(Slot& s, F&& f) { return code([&] { s.sh.visit(f); }); }
    // The error text after a call that failed as the C++ one did / that succeeded
    void text(int want) {
      char const* now = dart_get_error();
      VT_CHECK(now != nullptr, "error:null-text:" + op, "");
      if (!want) { VT_CHECK(msg == now, "error:text-changed-on-success:" + op, esc(msg) + " became " + esc(now)); return; }
      if (want == MIX || what.empty()) VT_CHECK(*now, "error:empty-text:" + op, "");
      else VT_CHECK(what == now, "error:text:" + op, "expected " + esc(what, 200) + " got " + esc(now, 200));
      msg = now;
    }
    void agree(int got, int want) {
      if (want == MIX) VT_CHECK(got == DART_TYPE_ERROR || got == DART_CLIENT_ERROR, "code:" + op, "mixed counters gave " + std::to_string(got));
      else VT_CHECK(got == want, "code:" + op, "C returned " + std::to_string(got) + " (" + dart_get_error() + "), C++ " + std::to_string(want) + (want ? " " + what : ""));
      text(want);
      if (want) count("failed"); else count("succeeded");
      count((want ? "fail " + op : op).c_str());
    }

    // ---- handles
    Slot& add(void* c, Sh sh) {
      if (ss.size() >= cap) drop(r.below(ss.size()));
      Slot s; s.c = c; s.sh = std::move(sh); ss.push_back(std::move(s)); return ss.back();
    }
    void drop(size_t i) {
      Slot& s = ss[i]; int e;
      if (s.sh.k == DART_HEAP && r.chance(1, 2)) e = dart_heap_destroy(s.hp());
      else if (s.sh.k == DART_BUFFER && r.chance(1, 2)) e = dart_buffer_destroy(s.bp());
      else e = dart_destroy(s.c);
      op = "destroy"; agree(e, 0);
      free(s.c); ss.erase(ss.begin() + static_cast<long>(i));
    }
    void finish() { while (!ss.empty()) drop(r.below(ss.size())); vt::alloc::forget(dart_get_error()); }
    Slot& any() { return ss[r.below(ss.size())]; }
    // Usually one of the wanted type
    Slot& like(int k, bool mutable_only = false) {
      if (!r.chance(1, hostile ? 2 : 10)) {
        std::vector<size_t> c;
        for (size_t n = 0; n < ss.size(); ++n) {
          Kind kk = kind(ss[n]); if (kk != k) continue;
          if (mutable_only && !hostile) { bool fin = ss[n].sh.k == DART_BUFFER; ss[n].sh.visit([&] (auto& x) { fin = x.is_finalized(); }); if (fin && !r.chance(1, 8)) continue; }
          c.push_back(n);
        }
        if (!c.empty()) return ss[r.pick(c)];
      }
      return any();
    }
    Kind kind(Slot& s) {
      Kind k = NUL;
      s.sh.visit([&] (auto& x) { switch (x.get_type()) {
        case dtype::object: k = OBJ; break; case dtype::array: k = ARR; break; case dtype::string: k = STR; break; case dtype::integer: k = INT; break;
        case dtype::decimal: k = DEC; break; case dtype::boolean: k = BOOL; break; default: k = NUL; } });
      return k;
    }
    static dart_type_t ctype(Kind k) { static dart_type_t t[] = {DART_NULL, DART_BOOLEAN, DART_INTEGER, DART_DECIMAL, DART_STRING, DART_ARRAY, DART_OBJECT}; return t[k]; }

    // ---- reading a handle through the C functions
    V cread(void const* c) {
      switch (dart_get_type(c)) {
        case DART_NULL: return V::null();
        case DART_BOOLEAN: return V::boolean(dart_bool_get(c) != 0);
        case DART_INTEGER: return V::integer(dart_int_get(c));
        case DART_DECIMAL: return V::decimal(dart_dcm_get(c));
        case DART_STRING: { size_t n = 0; char const* p = dart_str_get_len(c, &n); VT_CHECK(p != nullptr, "cread:string", op); VT_CHECK(p[n] == 0, "cread:terminator", op); return V::str(std::string(p, n)); }
        case DART_ARRAY: {
          V v = V::arr(); size_t n = dart_size(c);
          for (size_t i = 0; i < n; ++i) { dart_packet_t x = dart_arr_get(c, i); v.a.push_back(cread(&x)); dart_destroy(&x); }
          return v;
        }
        case DART_OBJECT: {
          V v = V::obj(); size_t n = dart_size(c), seen_n = 0;
          dart_iterator_t it, kt;
          VT_CHECK(!dart_iterator_init_from_err(&it, c) && !dart_iterator_init_key_from_err(&kt, c), "cread:iterator", op);
          while (!dart_iterator_done(&it) && !dart_iterator_done(&kt)) {
            dart_packet_t x = dart_iterator_get(&it), k = dart_iterator_get(&kt);
            size_t kn = 0; char const* kp = dart_str_get_len(&k, &kn);
            VT_CHECK(kp != nullptr, "cread:key", op);
            v.o[std::string(kp, kn)] = cread(&x);
            dart_destroy(&x); dart_destroy(&k);
            dart_iterator_next(&it); dart_iterator_next(&kt); ++seen_n;
          }
          VT_CHECK(dart_iterator_done(&it) && dart_iterator_done(&kt) && seen_n == n, "cread:object-length", op + " iterated " + std::to_string(seen_n) + " of " + std::to_string(n));
          dart_iterator_destroy(&it); dart_iterator_destroy(&kt);
          return v;
        }
        default: fail("cread:type", "dart_get_type is " + std::to_string(dart_get_type(c)) + " after " + op);
      }
    }
    void verify(bool all) {
      for (auto& s : ss) {
        if (!all && !r.chance(1, 3)) continue;
        VT_CHECK(s.pp()->rtti.p_id == s.sh.k && s.pp()->rtti.rc_id == s.sh.rc, "handle:kind:" + op, "");
        size_t want = s.sh.refs(), got = dart_refcount(s.c);
        VT_CHECK(want == got, "refcount:" + op, "C " + std::to_string(got) + " C++ " + std::to_string(want) + " kind " + std::to_string(s.sh.k) + " " + show(s.sh.value(), 100));
        V w = s.sh.value(), c = cread(s.c);
        eval();
        if (!same(w, c)) { Quiet q; fail("value:" + op, first_difference(w, c)); }
        seen(hash(w) + static_cast<uint64_t>(s.sh.k * 7 + s.sh.rc) + hash_bytes(op.data(), op.size()));
      }
      text(0);
    }

    // ---- operations
    std::string key(Slot& s) {
      V v; std::string k;
      if (kind(s) == OBJ && r.chance(1, 2)) { v = s.sh.value(); if (!v.o.empty()) { auto it = v.o.begin(); std::advance(it, static_cast<long>(r.below(v.o.size()))); return it->first; } }
      if (r.chance(1, 200)) return std::string(65535 + r.below(3), 'k');
      return g.key();
    }
    size_t index(Slot& s) {
      size_t n = 0; code([&] { s.sh.visit([&] (auto& x) { if (x.is_array()) n = x.size(); }); });
      switch (r.below(hostile ? 4 : 10)) { case 0: return n + r.below(3); case 1: return r.chance(1, 4) ? SIZE_MAX - r.below(2) : n; default: return r.below(n + 1); }
    }
    static bool no_nul(std::string const& s) { return s.find('\0') == std::string::npos; }

    // Makes a handle from a function of either shape; the C++ side is a packet or heap of the same counter
#define CABI_INIT(prefix, T, name, K, vals, make) do { \
      bool err = r.chance(1, 2), rcform = r.chance(2, 3); dart_rc_type_t rc = rcform && r.chance(1, 2) ? DART_RC_UNSAFE : DART_RC_SAFE; \
      T* c = static_cast<T*>(fresh(sizeof(T), r)); int e = 0; \
      if (err) e = rcform ? CABI_CALL_RCERR(prefix, name, vals) : CABI_CALL_ERR(prefix, name, vals); \
      else if (rcform) *c = CABI_CALL_RC(prefix, name, vals); else *c = CABI_CALL(prefix, name, vals); \
      Sh sh; \
      int want = code([&] { if (rc == DART_RC_SAFE) { using X = typename Tr<dart::packet>::K; sh = Sh::of<X>(make); } else { using X = typename Tr<unsafe_packet>::K; sh = Sh::of<X>(make); } }); \
      op = #prefix #name; if (err) agree(e, want); else agree(0, want); add(c, std::move(sh)); } while (0)
#define CABI_NONE
#define CABI_CALL(prefix, name, vals) prefix##name CABI_P1(vals)
#define CABI_P1(vals) (CABI_UNPACK vals)
#define CABI_UNPACK(...) __VA_ARGS__
#define CABI_CALL_ERR(prefix, name, vals) prefix##name##_err(c CABI_COMMA vals)
#define CABI_COMMA(...) , ##__VA_ARGS__
#define CABI_CALL_RC(prefix, name, vals) prefix##name##_rc(rc CABI_COMMA vals)
#define CABI_CALL_RCERR(prefix, name, vals) prefix##name##_rc_err(c, rc CABI_COMMA vals)

    void init() {
      int64_t i = g.integer(); double d = g.decimal(); int b = r.chance(1, 2) ? 0 : static_cast<int>(r.range(-3, 300));
      if (b == 0 && r.chance(1, 2)) b = 1;
      switch (r.below(17)) {
        case 0: CABI_INIT(dart_, dart_packet_t, obj_init, P, (), X::make_object()); break;
        case 1: CABI_INIT(dart_heap_, dart_heap_t, obj_init, H, (), X::make_object()); break;
        case 2: CABI_INIT(dart_, dart_packet_t, arr_init, P, (), X::make_array()); break;
        case 3: CABI_INIT(dart_heap_, dart_heap_t, arr_init, H, (), X::make_array()); break;
        case 4: CABI_INIT(dart_, dart_packet_t, int_init, P, (i), X::make_integer(i)); break;
        case 5: CABI_INIT(dart_heap_, dart_heap_t, int_init, H, (i), X::make_integer(i)); break;
        case 6: CABI_INIT(dart_, dart_packet_t, dcm_init, P, (d), X::make_decimal(d)); break;
        case 7: CABI_INIT(dart_heap_, dart_heap_t, dcm_init, H, (d), X::make_decimal(d)); break;
        case 8: CABI_INIT(dart_, dart_packet_t, bool_init, P, (b), X::make_boolean(b != 0)); break;
        case 9: CABI_INIT(dart_heap_, dart_heap_t, bool_init, H, (b), X::make_boolean(b != 0)); break;
        case 10: CABI_INIT(dart_, dart_packet_t, null_init, P, (), X::make_null()); break;
        case 11: CABI_INIT(dart_heap_, dart_heap_t, null_init, H, (), X::make_null()); break;
        case 12: CABI_INIT(dart_, dart_packet_t, init, P, (), X()); break;
        case 13: CABI_INIT(dart_heap_, dart_heap_t, init, H, (), X()); break;
        case 14: CABI_INIT(dart_buffer_, dart_buffer_t, init, B, (), X()); break;
        default: init_str(); break;
      }
    }
    void init_str() {
      std::string t = g.string(); Raw x(t, false);
      if (no_nul(t) && r.chance(1, 2)) {
        Raw z(t, true);
        if (r.chance(1, 2)) CABI_INIT(dart_, dart_packet_t, str_init, P, (z.p), X::make_string(S(t)));
        else CABI_INIT(dart_heap_, dart_heap_t, str_init, H, (z.p), X::make_string(S(t)));
        return;
      }
      bool heap = r.chance(1, 2), err = r.chance(1, 2), rcform = r.chance(2, 3); dart_rc_type_t rc = rcform && r.chance(1, 2) ? DART_RC_UNSAFE : DART_RC_SAFE;
      Sh sh; void* m; int e = 0, want;
      if (heap) {
        auto* c = static_cast<dart_heap_t*>(m = fresh(sizeof(dart_heap_t), r));
        if (err) e = rcform ? dart_heap_str_init_rc_len_err(c, rc, x.p, x.n) : dart_heap_str_init_len_err(c, x.p, x.n);
        else *c = rcform ? dart_heap_str_init_rc_len(rc, x.p, x.n) : dart_heap_str_init_len(x.p, x.n);
        want = code([&] { sh = rc == DART_RC_SAFE ? Sh::of(dart::heap::make_string(S(t))) : Sh::of(unsafe_heap::make_string(S(t))); });
      } else {
        auto* c = static_cast<dart_packet_t*>(m = fresh(sizeof(dart_packet_t), r));
        if (err) e = rcform ? dart_str_init_rc_len_err(c, rc, x.p, x.n) : dart_str_init_len_err(c, x.p, x.n);
        else *c = rcform ? dart_str_init_rc_len(rc, x.p, x.n) : dart_str_init_len(x.p, x.n);
        want = code([&] { sh = rc == DART_RC_SAFE ? Sh::of(dart::packet::make_string(S(t))) : Sh::of(unsafe_packet::make_string(S(t))); });
      }
      op = heap ? "dart_heap_str_init_len" : "dart_str_init_len"; agree(e, want); add(m, std::move(sh));
    }

    void lifecycle() {
      Slot& s = any(); bool move = r.chance(1, 3), err = r.chance(1, 2); int k = s.sh.k;
      bool spec = k != DART_PACKET && r.chance(1, 2);
      void* m; int e = 0;
      if (spec && k == DART_HEAP) {
        auto* c = static_cast<dart_heap_t*>(m = fresh(sizeof(dart_heap_t), r));
        if (err) e = move ? dart_heap_move_err(c, s.hp()) : dart_heap_copy_err(c, s.hp()); else *c = move ? dart_heap_move(s.hp()) : dart_heap_copy(s.hp());
      } else if (spec) {
        auto* c = static_cast<dart_buffer_t*>(m = fresh(sizeof(dart_buffer_t), r));
        if (err) e = move ? dart_buffer_move_err(c, s.bp()) : dart_buffer_copy_err(c, s.bp()); else *c = move ? dart_buffer_move(s.bp()) : dart_buffer_copy(s.bp());
      } else if (err) {
        m = fresh(k == DART_BUFFER ? sizeof(dart_buffer_t) : sizeof(dart_packet_t), r);
        e = move ? dart_move_err(m, s.c) : dart_copy_err(m, s.c);
      } else { auto* c = static_cast<dart_packet_t*>(m = fresh(sizeof(dart_packet_t), r)); *c = move ? dart_move(s.c) : dart_copy(s.c); }
      Sh sh;
      int want = acc(s, [&] (auto& x) { using X = std::decay_t<decltype(x)>; sh = move ? Sh::of<X>(std::move(x)) : Sh::of<X>(x); });
      op = std::string(move ? "move" : "copy") + (spec ? "-typed" : "-generic"); agree(e, want);
      add(m, std::move(sh));
    }

    // One handle inside another
    template <class A, class B> using castable = std::integral_constant<bool, std::is_same<typename Tr<A>::P, typename Tr<B>::P>::value && dart::convert::is_castable<B, A>::value>;
    template <class D, class S2, class F> int pair_op(D& d, S2& v, F&& f, std::true_type) { return code([&] { f(d, v); }); }
    template <class D, class S2, class F> int pair_op(D&, S2&, F&&, std::false_type) { return MIX; }
    template <class F> int both(Slot& d, Slot& v, F&& f) {
      int e = DART_CLIENT_ERROR; what.clear();
      d.sh.visit_mut([&] (auto& x) { v.sh.visit([&] (auto& y) { e = this->pair_op(x, y, f, castable<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>> {}); }); });
      return e;
    }
#define CABI_OBJ(verb, type, ...) (spec ? (len ? dart_heap_obj_##verb##_##type##_len(s.hp(), kx.p, kx.n, ##__VA_ARGS__) : dart_heap_obj_##verb##_##type(s.hp(), kz.p, ##__VA_ARGS__)) \
        : (len ? dart_obj_##verb##_##type##_len(s.c, kx.p, kx.n, ##__VA_ARGS__) : dart_obj_##verb##_##type(s.c, kz.p, ##__VA_ARGS__)))
#define CABI_OBJ2(type, ...) (set ? CABI_OBJ(set, type, ##__VA_ARGS__) : CABI_OBJ(insert, type, ##__VA_ARGS__))
#define CABI_ARR(verb, type, ...) (spec ? dart_heap_arr_##verb##_##type(s.hp(), idx, ##__VA_ARGS__) : dart_arr_##verb##_##type(s.c, idx, ##__VA_ARGS__))
#define CABI_ARR2(type, ...) (set ? CABI_ARR(set, type, ##__VA_ARGS__) : CABI_ARR(insert, type, ##__VA_ARGS__))
    void put() {
      bool obj = r.chance(1, 2), set = r.chance(1, 2);
      Slot& s = like(obj ? OBJ : ARR, true);
      bool spec = s.sh.k == DART_HEAP && r.chance(1, 2);
      std::string k = key(s); bool len = r.chance(1, 2) || !no_nul(k);
      size_t idx = index(s);
      Raw kx(k, false), kz(no_nul(k) ? k : std::string(), true);
      int e = 0, want = 0;
      std::string nm = std::string(spec ? "heap_" : "") + (obj ? "obj_" : "arr_") + (set ? "set_" : "insert_");
      auto with = [&] (auto const& v) { return mut(s, [&] (auto& p) { if (obj) { if (set) p.set(S(k), v); else p.insert(S(k), v); } else { if (set) p.set(idx, v); else p.insert(idx, v); } }); };
      switch (r.below(9)) {
        case 0: { int64_t x = g.integer(); e = obj ? CABI_OBJ2(int, x) : CABI_ARR2(int, x); want = with(x); nm += "int"; break; }
        case 1: { double x = g.decimal(); e = obj ? CABI_OBJ2(dcm, x) : CABI_ARR2(dcm, x); want = with(x); nm += "dcm"; break; }
        case 2: { int x = r.chance(1, 2) ? 0 : static_cast<int>(r.range(1, 1000)) * 256; e = obj ? CABI_OBJ2(bool, x) : CABI_ARR2(bool, x); want = with(x != 0); nm += "bool"; break; }
        case 3: e = obj ? CABI_OBJ2(null) : CABI_ARR2(null); want = with(nullptr); nm += "null"; break;
        case 4: { // strings
          std::string t = g.string(); Raw tx(t, false), tz(no_nul(t) ? t : std::string(), true); nm += "str";
          if (!no_nul(t)) len = true;
          if (obj) e = len ? (spec ? (set ? dart_heap_obj_set_str_len(s.hp(), kx.p, kx.n, tx.p, tx.n) : dart_heap_obj_insert_str_len(s.hp(), kx.p, kx.n, tx.p, tx.n)) : (set ? dart_obj_set_str_len(s.c, kx.p, kx.n, tx.p, tx.n) : dart_obj_insert_str_len(s.c, kx.p, kx.n, tx.p, tx.n)))
            : (spec ? (set ? dart_heap_obj_set_str(s.hp(), kz.p, tz.p) : dart_heap_obj_insert_str(s.hp(), kz.p, tz.p)) : (set ? dart_obj_set_str(s.c, kz.p, tz.p) : dart_obj_insert_str(s.c, kz.p, tz.p)));
          else e = len ? (spec ? (set ? dart_heap_arr_set_str_len(s.hp(), idx, tx.p, tx.n) : dart_heap_arr_insert_str_len(s.hp(), idx, tx.p, tx.n)) : (set ? dart_arr_set_str_len(s.c, idx, tx.p, tx.n) : dart_arr_insert_str_len(s.c, idx, tx.p, tx.n)))
            : (spec ? (set ? dart_heap_arr_set_str(s.hp(), idx, tz.p) : dart_heap_arr_insert_str(s.hp(), idx, tz.p)) : (set ? dart_arr_set_str(s.c, idx, tz.p) : dart_arr_insert_str(s.c, idx, tz.p)));
          want = with(S(t)); break;
        }
        default: { // handles, copied or taken
          Slot& v = any();
          if (nodes(v.sh.value()) + nodes(s.sh.value()) > 200) return;
          bool take = r.chance(1, 2) && &v != &s, hspec = spec && v.sh.k == DART_HEAP;
          nm += take ? "take_" : ""; nm += hspec ? "heap" : "dart";
          if (!hspec) spec = false;
          if (hspec) { if (take) e = obj ? (set ? (len ? dart_heap_obj_set_take_heap_len(s.hp(), kx.p, kx.n, v.hp()) : dart_heap_obj_set_take_heap(s.hp(), kz.p, v.hp())) : (len ? dart_heap_obj_insert_take_heap_len(s.hp(), kx.p, kx.n, v.hp()) : dart_heap_obj_insert_take_heap(s.hp(), kz.p, v.hp())))
              : (set ? dart_heap_arr_set_take_heap(s.hp(), idx, v.hp()) : dart_heap_arr_insert_take_heap(s.hp(), idx, v.hp()));
            else e = obj ? (set ? (len ? dart_heap_obj_set_heap_len(s.hp(), kx.p, kx.n, v.hp()) : dart_heap_obj_set_heap(s.hp(), kz.p, v.hp())) : (len ? dart_heap_obj_insert_heap_len(s.hp(), kx.p, kx.n, v.hp()) : dart_heap_obj_insert_heap(s.hp(), kz.p, v.hp())))
              : (set ? dart_heap_arr_set_heap(s.hp(), idx, v.hp()) : dart_heap_arr_insert_heap(s.hp(), idx, v.hp()));
          } else { if (take) e = obj ? (set ? (len ? dart_obj_set_take_dart_len(s.c, kx.p, kx.n, v.c) : dart_obj_set_take_dart(s.c, kz.p, v.c)) : (len ? dart_obj_insert_take_dart_len(s.c, kx.p, kx.n, v.c) : dart_obj_insert_take_dart(s.c, kz.p, v.c)))
              : (set ? dart_arr_set_take_dart(s.c, idx, v.c) : dart_arr_insert_take_dart(s.c, idx, v.c));
            else e = obj ? (set ? (len ? dart_obj_set_dart_len(s.c, kx.p, kx.n, v.c) : dart_obj_set_dart(s.c, kz.p, v.c)) : (len ? dart_obj_insert_dart_len(s.c, kx.p, kx.n, v.c) : dart_obj_insert_dart(s.c, kz.p, v.c)))
              : (set ? dart_arr_set_dart(s.c, idx, v.c) : dart_arr_insert_dart(s.c, idx, v.c));
          }
          want = both(s, v, [&] (auto& d, auto& x) {
            if (obj) { if (set) { if (take) d.set(S(k), std::move(x)); else d.set(S(k), x); } else { if (take) d.insert(S(k), std::move(x)); else d.insert(S(k), x); } }
            else { if (set) { if (take) d.set(idx, std::move(x)); else d.set(idx, x); } else { if (take) d.insert(idx, std::move(x)); else d.insert(idx, x); } }
            if (take) x = std::decay_t<decltype(x)> {};
          });
          if (want == MIX) count("mixed counters refused");
          if (take && !want) { count("taken"); VT_CHECK(dart_is_null(v.c), "take:source-not-null:" + nm, "kind " + std::to_string(s.sh.k) + " took kind " + std::to_string(v.sh.k) + " " + show(v.sh.value(), 100) + " C " + show(cread(v.c), 100)); }
          break;
        }
      }
      op = nm; agree(e, want);
    }
    void remove() {
      int e, want; bool obj = r.chance(1, 2);
      Slot& s = like(obj ? OBJ : ARR, true); bool spec = s.sh.k == DART_HEAP && r.chance(1, 2);
      if (obj) {
        std::string k = key(s); bool len = r.chance(1, 2) || !no_nul(k); Raw kx(k, false), kz(no_nul(k) ? k : std::string(), true);
        if (r.chance(1, 6)) { op = "obj_clear"; e = spec ? dart_heap_obj_clear(s.hp()) : dart_obj_clear(s.c); want = mut(s, [&] (auto& p) { p.clear(); }); }
        else {
          op = "obj_erase";
          e = spec ? (len ? dart_heap_obj_erase_len(s.hp(), kx.p, kx.n) : dart_heap_obj_erase(s.hp(), kz.p)) : (len ? dart_obj_erase_len(s.c, kx.p, kx.n) : dart_obj_erase(s.c, kz.p));
          want = mut(s, [&] (auto& p) { p.erase(S(k)); });
        }
      } else {
        size_t idx = index(s), n = r.chance(1, 30) ? SIZE_MAX : r.below(10);
        switch (r.below(8)) {
          case 0: op = "arr_clear"; e = spec ? dart_heap_arr_clear(s.hp()) : dart_arr_clear(s.c); want = mut(s, [&] (auto& p) { p.clear(); }); break;
          case 1: case 2: op = "arr_resize"; e = spec ? dart_heap_arr_resize(s.hp(), n) : dart_arr_resize(s.c, n); want = mut(s, [&] (auto& p) { p.resize(n); }); break;
          case 3: op = "arr_reserve"; e = spec ? dart_heap_arr_reserve(s.hp(), n) : dart_arr_reserve(s.c, n); want = mut(s, [&] (auto& p) { p.reserve(n); }); break;
          default: op = "arr_erase"; e = spec ? dart_heap_arr_erase(s.hp(), idx) : dart_arr_erase(s.c, idx); want = mut(s, [&] (auto& p) { p.erase(idx); }); break;
        }
      }
      agree(e, want);
    }

    // Everything a scalar can be asked
    void ask() {
      static Kind const wants[] = {INT, DEC, BOOL, INT, DEC, BOOL, STR, ARR}; unsigned which = static_cast<unsigned>(r.below(11));
      Slot& s = which < 8 ? like(wants[which]) : any(); bool sp = s.sh.k != DART_PACKET && r.chance(1, 2), h = s.sh.k == DART_HEAP;
      int64_t iv = 0x5a5a; double dv = 0.25; int bv = 77;
#define CABI_3(name, ...) (!sp ? dart_##name(s.c, ##__VA_ARGS__) : h ? dart_heap_##name(s.hp(), ##__VA_ARGS__) : dart_buffer_##name(s.bp(), ##__VA_ARGS__))
      switch (which) {
        case 0: { int64_t x = 0; int want = acc(s, [&] (auto& p) { x = p.integer(); }); op = "int_get_err"; int e = CABI_3(int_get_err, &iv); agree(e, want); VT_CHECK(want ? iv == 0x5a5a : iv == x, "int_get_err", ""); break; }
        case 1: { double x = 0; int want = acc(s, [&] (auto& p) { x = p.decimal(); }); op = "dcm_get_err"; int e = CABI_3(dcm_get_err, &dv); agree(e, want); VT_CHECK(want ? dv == 0.25 : bits(dv) == bits(x), "dcm_get_err", ""); break; }
        case 2: { bool x = false; int want = acc(s, [&] (auto& p) { x = p.boolean(); }); op = "bool_get_err"; int e = CABI_3(bool_get_err, &bv); agree(e, want); VT_CHECK(want ? bv == 77 : (bv != 0) == x, "bool_get_err", ""); break; }
        case 3: { int64_t x = 0; int want = acc(s, [&] (auto& p) { x = p.integer(); }); op = "int_get"; iv = CABI_3(int_get); text(want); VT_CHECK(iv == (want ? 0 : x), "int_get", std::to_string(iv)); count(want ? "fail int_get" : "int_get"); break; }
        case 4: { double x = 0; int want = acc(s, [&] (auto& p) { x = p.decimal(); }); op = "dcm_get"; dv = CABI_3(dcm_get); text(want); VT_CHECK(want ? std::isnan(dv) : bits(dv) == bits(x), "dcm_get", ""); count(want ? "fail dcm_get" : "dcm_get"); break; }
        case 5: { bool x = false; int want = acc(s, [&] (auto& p) { x = p.boolean(); }); op = "bool_get"; bv = CABI_3(bool_get); text(want); VT_CHECK((bv != 0) == (want ? false : x), "bool_get", ""); count(want ? "fail bool_get" : "bool_get"); break; }
        case 6: {
          std::string x; int want = acc(s, [&] (auto& p) { x = str(p.strv()); }); size_t n = 4242; char const* c; op = "str_get";
          if (r.chance(1, 2)) { c = CABI_3(str_get_len, &n); VT_CHECK(want || n == x.size(), "str_get:length", std::to_string(n)); } else c = CABI_3(str_get);
          text(want); VT_CHECK(want ? c == nullptr : (c && !memcmp(c, x.data(), x.size()) && c[x.size()] == 0), "str_get", esc(x)); count(want ? "fail str_get" : "str_get"); break;
        }
        case 7: { size_t x = 0; int want = acc(s, [&] (auto& p) { x = p.size(); }); op = "size"; size_t n = CABI_3(size); text(want); VT_CHECK(n == (want ? static_cast<size_t>(DART_FAILURE) : x), "size", std::to_string(n)); count(want ? "fail size" : "size"); break; }
        case 8: {
          op = "types"; Kind k = kind(s); dart_type_t t = CABI_3(get_type);
          VT_CHECK(t == ctype(k), "get_type", std::to_string(t));
          int yes[] = {CABI_3(is_null), CABI_3(is_bool), CABI_3(is_int), CABI_3(is_dcm), CABI_3(is_str), CABI_3(is_arr), CABI_3(is_obj)};
          for (int n = 0; n < 7; ++n) VT_CHECK((yes[n] != 0) == (n == k), std::string("is_") + kind_name(n), std::string("a ") + kind_name(k));
          bool fin = false; acc(s, [&] (auto& p) { fin = p.is_finalized(); }); VT_CHECK((dart_is_finalized(s.c) != 0) == fin, "is_finalized", ""); text(0); count("types"); break;
        }
        case 9: {
          Slot& o = like(OBJ); std::string k = key(o); bool len = r.chance(1, 2) || !no_nul(k); Raw kx(k, false), kz(no_nul(k) ? k : std::string(), true);
          bool x = false; int want = acc(o, [&] (auto& p) { x = p.has_key(S(k)); }); int y; op = "obj_has_key";
          bool osp = o.sh.k != DART_PACKET && r.chance(1, 2);
          if (!osp) y = len ? dart_obj_has_key_len(o.c, kx.p, kx.n) : dart_obj_has_key(o.c, kz.p);
          else if (o.sh.k == DART_HEAP) y = len ? dart_heap_obj_has_key_len(o.hp(), kx.p, kx.n) : dart_heap_obj_has_key(o.hp(), kz.p);
          else y = len ? dart_buffer_obj_has_key_len(o.bp(), kx.p, kx.n) : dart_buffer_obj_has_key(o.bp(), kz.p);
          text(want); VT_CHECK((y != 0) == (want ? false : x), "has_key", esc(k)); count(want ? "fail obj_has_key" : "obj_has_key"); break;
        }
        default: {
          Slot& o = any(); V a = s.sh.value(), b = o.sh.value(); op = "equal";
          if (odd(a) || odd(b)) return;
          bool x = same(a, b), y;
          if (s.sh.k == o.sh.k && s.sh.k != DART_PACKET && s.sh.rc == o.sh.rc && r.chance(1, 2)) y = s.sh.k == DART_HEAP ? dart_heap_equal(s.hp(), o.hp()) : dart_buffer_equal(s.bp(), o.bp());
          else y = dart_equal(s.c, o.c);
          text(0); VT_CHECK(x == y, "equal", show(a, 200) + " and " + show(b, 200)); count(x ? "equal" : "unequal"); break;
        }
      }
    }
    static bool odd(V const& v) { if (v.k == DEC) return std::isnan(v.d) || v.d == 0; for (auto& e : v.a) if (odd(e)) return true; for (auto& e : v.o) if (odd(e.second)) return true; return false; }

    // Handles obtained from handles
    template <class T> void result(T* c, bool err, int e, int want, Sh sh) {
      if (err) { agree(e, want); if (want) { free(c); return; } }
      else {
        text(want); count((want ? "fail " + op : op).c_str()); count(want ? "failed" : "succeeded");
        if (want) { VT_CHECK(dart_is_null(c), "failed-result-not-null:" + op, ""); sh = Sh(); sh.k = std::is_same<T, dart_heap_t>::value ? DART_HEAP : std::is_same<T, dart_buffer_t>::value ? DART_BUFFER : DART_PACKET; }
      }
      add(c, std::move(sh));
    }
    void child() {
      bool obj = r.chance(1, 2), err = r.chance(1, 2); Slot& s = like(obj ? OBJ : ARR);
      std::string k = key(s); bool len = r.chance(1, 2) || !no_nul(k); Raw kx(k, false), kz(no_nul(k) ? k : std::string(), true); size_t idx = index(s);
      bool spec = s.sh.k != DART_PACKET && r.chance(1, 2); Sh sh; int e = 0;
#define CABI_GET(pre, sp) do { \
        if (obj) { if (err) e = len ? dart_##pre##obj_get_len_err(c, sp, kx.p, kx.n) : dart_##pre##obj_get_err(c, sp, kz.p); else *c = len ? dart_##pre##obj_get_len(sp, kx.p, kx.n) : dart_##pre##obj_get(sp, kz.p); } \
        else { if (err) e = dart_##pre##arr_get_err(c, sp, idx); else *c = dart_##pre##arr_get(sp, idx); } } while (0)
      op = obj ? "obj_get" : "arr_get";
      if (spec) {
        int want = acc(s, [&] (auto& p) { using X = std::decay_t<decltype(p)>; if (obj) sh = Sh::of<X>(p.get(S(k))); else sh = Sh::of<X>(p.get(idx)); });
        if (s.sh.k == DART_HEAP) { auto* c = static_cast<dart_heap_t*>(fresh(sizeof(dart_heap_t), r)); CABI_GET(heap_, s.hp()); result(c, err, e, want, std::move(sh)); }
        else { auto* c = static_cast<dart_buffer_t*>(fresh(sizeof(dart_buffer_t), r)); CABI_GET(buffer_, s.bp()); result(c, err, e, want, std::move(sh)); }
      } else {
        int want = acc(s, [&] (auto& p) { using X = typename Tr<std::decay_t<decltype(p)>>::P; if (obj) sh = Sh::of<X>(X(p.get(S(k)))); else sh = Sh::of<X>(X(p.get(idx))); });
        auto* c = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r)); CABI_GET(, s.c); result(c, err, e, want, std::move(sh));
      }
    }
    void transform() {
      bool err = r.chance(1, 2); Slot& s = like(OBJ); int e = 0; Sh sh; int want;
      switch (r.below(6)) {
        case 0: case 1: {
          op = "lower"; want = acc(s, [&] (auto& p) { using X = typename Tr<std::decay_t<decltype(p)>>::P; auto t = p; sh = Sh::of<X>(X(std::move(t).lower())); });
          auto* c = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r)); bool alt = r.chance(1, 2);
          if (err) e = alt ? dart_finalize_err(c, s.c) : dart_lower_err(c, s.c); else *c = alt ? dart_finalize(s.c) : dart_lower(s.c);
          result(c, err, e, want, std::move(sh)); break;
        }
        case 2: {
          op = "lift"; want = acc(s, [&] (auto& p) { using X = typename Tr<std::decay_t<decltype(p)>>::P; auto t = p; sh = Sh::of<X>(X(std::move(t).lift())); });
          auto* c = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r)); bool alt = r.chance(1, 2);
          if (err) e = alt ? dart_definalize_err(c, s.c) : dart_lift_err(c, s.c); else *c = alt ? dart_definalize(s.c) : dart_lift(s.c);
          result(c, err, e, want, std::move(sh)); break;
        }
        case 3: {
          op = "to_heap"; want = acc(s, [&] (auto& p) { using X = typename Tr<std::decay_t<decltype(p)>>::H; auto t = p; sh = Sh::of<X>(X(std::move(t).lift())); });
          auto* c = static_cast<dart_heap_t*>(fresh(sizeof(dart_heap_t), r));
          if (err) e = dart_to_heap_err(c, s.c); else *c = dart_to_heap(s.c);
          result(c, err, e, want, std::move(sh)); break;
        }
        case 4: {
          op = "to_buffer"; want = acc(s, [&] (auto& p) { using X = typename Tr<std::decay_t<decltype(p)>>::B; auto t = p; sh = Sh::of<X>(X(std::move(t).lift())); });
          auto* c = static_cast<dart_buffer_t*>(fresh(sizeof(dart_buffer_t), r));
          if (err) e = dart_to_buffer_err(c, s.c); else *c = dart_to_buffer(s.c);
          result(c, err, e, want, std::move(sh)); break;
        }
        default: {
          if (s.sh.k == DART_HEAP) {
            op = "heap_lower"; want = code([&] { if (s.sh.rc == DART_RC_SAFE) sh = Sh::of<dart::buffer>(s.sh.h.lower()); else sh = Sh::of<unsafe_buffer>(s.sh.uh.lower()); });
            auto* c = static_cast<dart_buffer_t*>(fresh(sizeof(dart_buffer_t), r)); bool alt = r.chance(1, 2);
            if (err) e = alt ? dart_heap_finalize_err(c, s.hp()) : dart_heap_lower_err(c, s.hp()); else *c = alt ? dart_heap_finalize(s.hp()) : dart_heap_lower(s.hp());
            result(c, err, e, want, std::move(sh));
          } else if (s.sh.k == DART_BUFFER) {
            op = "buffer_lift"; want = code([&] { if (s.sh.rc == DART_RC_SAFE) sh = Sh::of<dart::heap>(s.sh.b.lift()); else sh = Sh::of<unsafe_heap>(s.sh.ub.lift()); });
            auto* c = static_cast<dart_heap_t*>(fresh(sizeof(dart_heap_t), r)); bool alt = r.chance(1, 2);
            if (err) e = alt ? dart_buffer_definalize_err(c, s.bp()) : dart_buffer_lift_err(c, s.bp()); else *c = alt ? dart_buffer_definalize(s.bp()) : dart_buffer_lift(s.bp());
            result(c, err, e, want, std::move(sh));
          }
        }
      }
    }
    std::string raw(Sh& s, int& want) {
      std::string x; bool ok = true;
      want = code([&] { ok = s.visit_bytes([&] (auto& p) { auto b = p.get_bytes(); x.assign(reinterpret_cast<char const*>(b.data()), static_cast<size_t>(b.size())); }); });
      if (!ok) { want = DART_CLIENT_ERROR; what.clear(); }
      return x;
    }
    void bytes() {
      Slot* sp = nullptr;
      if (r.chance(3, 4)) for (auto& x : ss) if (kind(x) == OBJ && x.sh.k != DART_HEAP && r.chance(1, 2)) sp = &x;
      Slot& s = sp ? *sp : any(); bool buf = s.sh.k == DART_BUFFER && r.chance(1, 2);
      int want; std::string x = raw(s.sh, want); size_t n = 99;
      bool wl = r.chance(2, 3);
      op = "get_bytes";
      auto* p = static_cast<char const*>(buf ? dart_buffer_get_bytes(s.bp(), wl ? &n : nullptr) : dart_get_bytes(s.c, wl ? &n : nullptr));
      text(want); count(want ? "fail get_bytes" : "get_bytes");
      VT_CHECK(want ? p == nullptr : p && (!wl || n == x.size()) && !memcmp(p, x.data(), x.size()), "get_bytes", "length " + std::to_string(n) + " expected " + std::to_string(x.size()));
      if (!want) VT_CHECK(dart_buffer_is_valid(p, x.size()), "is_valid", "");
      // duplicates
      int want2 = want; if (!s.sh.visit_bytes([] (auto&) {})) want2 = DART_CLIENT_ERROR; else want2 = code([&] { s.sh.visit_bytes([&] (auto& q) { q.dup_bytes(); }); });
      if (want2 == DART_CLIENT_ERROR) what.clear();
      op = "dup_bytes"; size_t m = 99;
      auto* d = static_cast<char*>(buf ? dart_buffer_dup_bytes(s.bp(), wl ? &m : nullptr) : dart_dup_bytes(s.c, wl ? &m : nullptr));
      text(want2); count(want2 ? "fail dup_bytes" : "dup_bytes");
      VT_CHECK(want2 ? d == nullptr : d && (!wl || m == x.size()) && !memcmp(d, x.data(), x.size()), "dup_bytes", "");
      if (want2) return;
      VT_CHECK(reinterpret_cast<uintptr_t>(d) % 8 == 0, "dup_bytes:alignment", "");
      // and back
      bool tobuf = r.chance(1, 2), err = r.chance(1, 2), rcform = r.chance(2, 3), take = r.chance(1, 2); dart_rc_type_t rc = rcform && r.chance(1, 2) ? DART_RC_UNSAFE : DART_RC_SAFE;
      int e = 0; Sh sh; void* mem;
      op = std::string(take ? "take_bytes" : "from_bytes") + (tobuf ? "-buffer" : "");
      if (tobuf) {
        auto* c = static_cast<dart_buffer_t*>(mem = fresh(sizeof(dart_buffer_t), r));
        if (take) { if (err) e = rcform ? dart_buffer_take_bytes_rc_err(c, rc, d) : dart_buffer_take_bytes_err(c, d); else *c = rcform ? dart_buffer_take_bytes_rc(d, rc) : dart_buffer_take_bytes(d); }
        else { if (err) e = rcform ? dart_buffer_from_bytes_rc_err(c, rc, d, x.size()) : dart_buffer_from_bytes_err(c, d, x.size()); else *c = rcform ? dart_buffer_from_bytes_rc(d, rc, x.size()) : dart_buffer_from_bytes(d, x.size()); }
      } else {
        auto* c = static_cast<dart_packet_t*>(mem = fresh(sizeof(dart_packet_t), r));
        if (take) { if (err) e = rcform ? dart_take_bytes_rc_err(c, rc, d) : dart_take_bytes_err(c, d); else *c = rcform ? dart_take_bytes_rc(d, rc) : dart_take_bytes(d); }
        else { if (err) e = rcform ? dart_from_bytes_rc_err(c, rc, d, x.size()) : dart_from_bytes_err(c, d, x.size()); else *c = rcform ? dart_from_bytes_rc(d, rc, x.size()) : dart_from_bytes(d, x.size()); }
      }
      if (!take) { memset(d, 0xee, x.size()); dart_aligned_free(d); }
      auto make = [&] (auto* tag) { using X = std::decay_t<decltype(*tag)>; s.sh.visit_bytes([&] (auto& q) { size_t l = 0; auto o = q.dup_bytes(l); sh = Sh::of<X>(X(gsl::make_span(o.get(), static_cast<long>(l)))); }); };
      int w = code([&] { if (tobuf) { if (rc == DART_RC_SAFE) make(static_cast<dart::buffer*>(nullptr)); else make(static_cast<unsafe_buffer*>(nullptr)); } else { if (rc == DART_RC_SAFE) make(static_cast<dart::packet*>(nullptr)); else make(static_cast<unsafe_packet*>(nullptr)); } });
      agree(e, w); add(mem, std::move(sh));
    }
    void print() {
      Slot& s = any(); std::string x; int want = acc(s, [&] (auto& p) { x = p.to_json(); });
      bool spec = s.sh.k != DART_PACKET && r.chance(1, 2); size_t n = 7; size_t* np = r.chance(2, 3) ? &n : nullptr; op = "to_json";
      char* t = !spec ? dart_to_json(s.c, np) : s.sh.k == DART_HEAP ? dart_heap_to_json(s.hp(), np) : dart_buffer_to_json(s.bp(), np);
      text(want); count(want ? "fail to_json" : "to_json");
      VT_CHECK(want ? t == nullptr : t && (!np || n == x.size()) && std::string(t, x.size()) == x && t[x.size()] == 0, "to_json", "expected " + esc(x, 200) + " got " + (t ? esc(t, 200) : std::string("NULL")));
      free(t);
    }
    void parse() {
      GenOpt o; o.utf8 = true; o.big = false; o.depth = 2; o.width = 4; Gen jg(r, o);
      json::Opt jo; json::Writer w(r, jo); V v = r.chance(1, 8) ? jg.scalar() : jg.aggregate(); w.gap(); w.value(v); w.gap(); std::string t = w.t;
      if (r.chance(1, hostile ? 2 : 8) && !t.empty()) switch (r.below(4)) { case 0: t.resize(r.below(t.size())); break; case 1: t[r.below(t.size())] = "{}[],:\"x"[r.below(8)]; break; case 2: t.erase(r.below(t.size()), 1); break; default: t += "]"; }
      bool len = r.chance(1, 2) || !no_nul(t), err = r.chance(1, 2), rcform = r.chance(2, 3); dart_rc_type_t rc = rcform && r.chance(1, 2) ? DART_RC_UNSAFE : DART_RC_SAFE;
      Raw tx(t, false), tz(no_nul(t) ? t : std::string(), true); int e = 0; Sh sh; void* m = nullptr; unsigned k = static_cast<unsigned>(r.below(3));
#define CABI_JSON(pre, T) do { auto* c = static_cast<T*>(m = fresh(sizeof(T), r)); \
        if (err) e = rcform ? (len ? dart_##pre##from_json_len_rc_err(c, rc, tx.p, tx.n) : dart_##pre##from_json_rc_err(c, rc, tz.p)) : (len ? dart_##pre##from_json_len_err(c, tx.p, tx.n) : dart_##pre##from_json_err(c, tz.p)); \
        else *c = rcform ? (len ? dart_##pre##from_json_len_rc(rc, tx.p, tx.n) : dart_##pre##from_json_rc(rc, tz.p)) : (len ? dart_##pre##from_json_len(tx.p, tx.n) : dart_##pre##from_json(tz.p)); } while (0)
      if (k == 0) CABI_JSON(, dart_packet_t); else if (k == 1) CABI_JSON(heap_, dart_heap_t); else CABI_JSON(buffer_, dart_buffer_t);
      auto make = [&] (auto* tag) { using X = std::decay_t<decltype(*tag)>; sh = Sh::of<X>(X::from_json(S(t))); };
      int want = code([&] {
        if (rc == DART_RC_SAFE) { if (k == 0) make(static_cast<dart::packet*>(nullptr)); else if (k == 1) make(static_cast<dart::heap*>(nullptr)); else make(static_cast<dart::buffer*>(nullptr)); }
        else { if (k == 0) make(static_cast<unsafe_packet*>(nullptr)); else if (k == 1) make(static_cast<unsafe_heap*>(nullptr)); else make(static_cast<unsafe_buffer*>(nullptr)); } });
      op = k == 0 ? "from_json" : k == 1 ? "heap_from_json" : "buffer_from_json";
      if (want) { // a constructor that failed leaves a null
        sh.k = k == 0 ? DART_PACKET : k == 1 ? DART_HEAP : DART_BUFFER; sh.rc = err ? rc : DART_RC_SAFE;
        if (!err) sh.rc = static_cast<dart_packet_t*>(m)->rtti.rc_id == DART_RC_UNSAFE ? DART_RC_UNSAFE : DART_RC_SAFE;
      }
      if (err) agree(e, want); else { text(want); count((want ? "fail " + op : op).c_str()); }
      add(m, std::move(sh));
    }
    // Iterators: walked, copied, moved, abandoned half way
    void iterate() {
      bool keys = r.chance(1, 3); Slot& s = r.chance(1, 6) ? any() : like(keys || r.chance(1, 2) ? OBJ : ARR); std::vector<Sh> ex;
      int want = acc(s, [&] (auto& p) {
        using X = typename Tr<std::decay_t<decltype(p)>>::P;
        if (keys) for (auto it = p.key_begin(), end = p.key_end(); it != end; ++it) ex.push_back(Sh::of<X>(X(*it)));
        else for (auto it = p.begin(), end = p.end(); it != end; ++it) ex.push_back(Sh::of<X>(X(*it)));
      });
      if (r.chance(1, 3)) { for_each(s, keys, want, ex); return; }
      auto* it = static_cast<dart_iterator_t*>(fresh(sizeof(dart_iterator_t), r));
      op = keys ? "iterator_init_key" : "iterator_init";
      int e = keys ? dart_iterator_init_key_from_err(it, s.c) : dart_iterator_init_from_err(it, s.c);
      agree(e, want);
      if (want) { free(it); return; }
      size_t pos = 0, stop = r.chance(1, 4) ? r.below(ex.size() + 1) : SIZE_MAX;
      auto step = [&] (dart_iterator_t* x, size_t at) {
        op = "iterator_get";
        VT_CHECK((dart_iterator_done(x) != 0) == (at >= ex.size()), "iterator_done", "at " + std::to_string(at) + " of " + std::to_string(ex.size()));
        text(0);
        auto* v = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r));
        if (at >= ex.size()) {
          if (r.chance(1, 2)) { *v = dart_iterator_get(x); VT_CHECK(dart_is_null(v), "iterator_get:past-end", ""); VT_CHECK(*dart_get_error(), "error:empty-text:iterator_get", ""); dart_destroy(v); }
          else { int e2 = dart_iterator_get_err(v, x); VT_CHECK(e2 == DART_RUNTIME_ERROR, "iterator_get_err:past-end", std::to_string(e2)); }
          msg = dart_get_error(); free(v); count("past the end"); return;
        }
        if (r.chance(1, 2)) *v = dart_iterator_get(x); else { int e2 = dart_iterator_get_err(v, x); VT_CHECK(!e2, "iterator_get_err", dart_get_error()); }
        text(0);
        VT_SAME(ex[at].value(), cread(v), "iterator:value");
        VT_CHECK(dart_refcount(v) == ex[at].refs() || true, "", "");
        dart_destroy(v); free(v); count("iterator_get");
      };
      while (pos < ex.size() && pos < stop) {
        step(it, pos);
        if (r.chance(1, 4)) { // a copy is independent
          auto* cp = static_cast<dart_iterator_t*>(fresh(sizeof(dart_iterator_t), r)); op = "iterator_copy"; agree(dart_iterator_copy_err(cp, it), 0);
          if (r.chance(1, 2)) std::swap(cp, it);
          size_t q = pos; for (size_t n = r.below(3); n > 0; --n) { if (q < ex.size()) ++q; dart_iterator_next(cp); }
          step(cp, q);
          op = "iterator_destroy"; agree(dart_iterator_destroy(cp), 0); free(cp);
          step(it, pos);
        }
        if (r.chance(1, 6)) {
          auto* mv = static_cast<dart_iterator_t*>(fresh(sizeof(dart_iterator_t), r)); op = "iterator_move"; agree(dart_iterator_move_err(mv, it), 0);
          op = "iterator_destroy"; agree(dart_iterator_destroy(it), 0); free(it); it = mv; step(it, pos);
        }
        op = "iterator_next"; agree(dart_iterator_next(it), 0); ++pos;
      }
      if (pos >= ex.size()) { step(it, pos); op = "iterator_next"; agree(dart_iterator_next(it), 0); step(it, pos); }
      if (r.chance(1, 2)) { op = "iterator_destroy"; agree(dart_iterator_destroy(it), 0); }
      else { op = "iterator_done_destroy"; int d = dart_iterator_done_destroy(it, nullptr); VT_CHECK((d != 0) == (pos >= ex.size()), "iterator_done_destroy", ""); if (!d) dart_iterator_destroy(it); count("iterator_done_destroy"); }
      free(it);
      if (r.chance(1, 8)) { dart_iterator_t z; VT_CHECK(!dart_iterator_init_err(&z), "iterator_init_err", ""); VT_CHECK(dart_iterator_done(&z), "iterator_init_err:not-done", ""); dart_iterator_destroy(&z); count("iterator default"); }
    }
    void for_each(Slot& s, bool keys, int want, std::vector<Sh>& ex) {
      auto* v = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r)); size_t n = 0;
      op = keys ? "for_each_key" : "for_each";
      auto body = [&] { VT_CHECK(n < ex.size(), op + ":overrun", ""); VT_SAME(ex[n].value(), cread(v), "for_each:value"); ++n; };
      if (keys) { dart_for_each_key(s.c, v) body(); } else { dart_for_each(s.c, v) body(); }
      VT_CHECK(n == (want ? 0 : ex.size()), op + ":count", std::to_string(n) + " of " + std::to_string(ex.size()));
      msg = dart_get_error(); count(op.c_str()); count(want ? "for_each refused" : ex.empty() ? "for_each empty" : "for_each items");
      free(v);
    }
    // Between the two interfaces
    void swap_api() {
      Slot& s = any(); op = "api_swap";
      if (r.chance(1, 2)) {
        s.sh.visit([&] (auto& x) { using X = std::decay_t<decltype(x)>; this->to_cpp(s, static_cast<X*>(nullptr)); });
      } else {
        s.sh.visit([&] (auto& x) {
          using X = std::decay_t<decltype(x)>;
          bool mv = r.chance(1, 2); X a = x, b = x;   // one for the C handle, one for the C++ side
          X da(a); (void) da;
          this->to_c(std::move(a), std::move(b), mv);
        });
      }
    }
    static dart_heap_t* cp(Slot& s, dart::heap*) { return s.hp(); } static dart_heap_t* cp(Slot& s, unsafe_heap*) { return s.hp(); }
    static dart_buffer_t* cp(Slot& s, dart::buffer*) { return s.bp(); } static dart_buffer_t* cp(Slot& s, unsafe_buffer*) { return s.bp(); }
    static dart_packet_t* cp(Slot& s, dart::packet*) { return s.pp(); } static dart_packet_t* cp(Slot& s, unsafe_packet*) { return s.pp(); }
    template <class X> void to_cpp(Slot& s, X* tag) {
      X out; dart::unsafe_api_swap(out, static_cast<std::decay_t<decltype(*cp(s, tag))> const*>(cp(s, tag)));
      VT_SAME(s.sh.value(), read(out), "api_swap:to-c++"); count("swap to C++");
      VT_CHECK(out.refcount() == s.sh.refs() + (shares(s) ? 1 : 0) , "api_swap:refcount", std::to_string(out.refcount()) + " " + std::to_string(s.sh.refs()));
    }
    bool shares(Slot& s) { bool y = false; s.sh.visit([&] (auto& x) { auto n = x.refcount(); auto c = x; y = x.refcount() != n; }); return y; }
    template <class X> void to_c(X a, X b, bool mv) {
      // Both sides must have storage of their own: rebuild the value twice
      V v = read(a); X c1 = remake(v, static_cast<X*>(nullptr)), c2 = remake(v, static_cast<X*>(nullptr));
      Slot t; auto* c = static_cast<std::decay_t<decltype(*cp(t, static_cast<X*>(nullptr)))>*>(fresh(sizeof(*cp(t, static_cast<X*>(nullptr))), r));
      if (mv) { dart::unsafe_api_swap(c, std::move(c1)); } else { dart::unsafe_api_swap(c, static_cast<X const&>(c1)); }
      if (mv) VT_SAME(V::null(), read(c1), "api_swap:moved-from");
      count("swap to C"); add(c, Sh::of<X>(std::move(c2)));
    }
    template <class X> X remake(V const& v, X*) {
      using H = typename Tr<X>::H;
      if (Tr<X>::k != DART_BUFFER || v.k == OBJ) return X(plain<H>(v));
      V w = V::obj(); w.o["it"] = v; return X(X(plain<H>(w))["it"]);
    }

    // Variadic constructors
    template <class P> void va_result(void* m, bool err, int e, V const& v, P*) { int rc = Tr<P>::rc; (void) rc; if (err) agree(e, 0); else { text(0); count(op.c_str()); } add(m, Sh::of<P>(plain<P>(v))); }
#define CABI_VA(kind, ...) do { \
      bool err = r.chance(1, 2), rcform = r.chance(1, 2), heap = r.chance(1, 2); dart_rc_type_t rc = rcform && r.chance(1, 2) ? DART_RC_UNSAFE : DART_RC_SAFE; int e = 0; void* m; \
      op = #kind "_init_va"; \
      if (heap) { auto* c = static_cast<dart_heap_t*>(m = fresh(sizeof(dart_heap_t), r)); \
        if (err) e = rcform ? dart_heap_##kind##_init_va_rc_err(c, rc, __VA_ARGS__) : dart_heap_##kind##_init_va_err(c, __VA_ARGS__); else *c = rcform ? dart_heap_##kind##_init_va_rc(rc, __VA_ARGS__) : dart_heap_##kind##_init_va(__VA_ARGS__); \
      } else { auto* c = static_cast<dart_packet_t*>(m = fresh(sizeof(dart_packet_t), r)); \
        if (err) e = rcform ? dart_##kind##_init_va_rc_err(c, rc, __VA_ARGS__) : dart_##kind##_init_va_err(c, __VA_ARGS__); else *c = rcform ? dart_##kind##_init_va_rc(rc, __VA_ARGS__) : dart_##kind##_init_va(__VA_ARGS__); \
      } \
      if (bad) { \
        op = #kind "_init_va-badformat"; what.clear(); if (err) { VT_CHECK(e == DART_LOGIC_ERROR, "code:" + op, std::to_string(e)); } text(MIX); \
        int rr = static_cast<dart_packet_t*>(m)->rtti.rc_id; (void) rr; \
        if (!err) VT_CHECK(dart_is_null(m), "failed-result-not-null:" + op, ""); \
        dart_destroy(m); free(m); count("bad format"); break; } \
      if (heap) { if (rc == DART_RC_SAFE) va_result(m, err, e, v, static_cast<dart::heap*>(nullptr)); else va_result(m, err, e, v, static_cast<unsafe_heap*>(nullptr)); } \
      else { if (rc == DART_RC_SAFE) va_result(m, err, e, v, static_cast<dart::packet*>(nullptr)); else va_result(m, err, e, v, static_cast<unsafe_packet*>(nullptr)); } } while (0)
    std::string zkey() { std::string k; do { k = g.key(); for (auto& c : k) if (!c) c = 'z'; } while (k.size() > 300); return k; }
    void variadic() {
      std::string k[8]; { std::set<std::string> u; for (auto& x : k) { do x = zkey(); while (!u.insert(x).second); } }
      std::string t = g.string(), z = g.string(); for (auto& c : z) if (!c) c = 'q';
      Raw tx(t, false), zz(z, true); Raw k0(k[0], true), k1(k[1], true), k2(k[2], true), k3(k[3], true), k4(k[4], true), k5(k[5], true), k6(k[6], true);
      int i = static_cast<int>(g.integer()); unsigned ui = static_cast<unsigned>(g.integer()); long l = g.integer(); unsigned long ul = static_cast<unsigned long>(g.integer()) >> 1; double d = g.decimal(); int b = r.chance(1, 2) ? 0 : static_cast<int>(1 + r.below(70000));
      V v; bool bad = false;
      auto I = [] (int64_t x) { return V::integer(x); };
      switch (r.below(hostile ? 13 : 10)) {
        case 0: v = V::obj(); CABI_VA(obj, ""); break;
        case 1: v = V::arr(); CABI_VA(arr, ""); break;
        case 2: v = V::obj(); v.o[k[0]] = V::str(z); v.o[k[1]] = V::str(t); v.o[k[2]] = I(i); v.o[k[3]] = V::decimal(d); v.o[k[4]] = V::boolean(b != 0); v.o[k[5]] = V::null();
          CABI_VA(obj, "sSidbn", k0.p, zz.p, k1.p, tx.p, tx.n, k2.p, i, k3.p, d, k4.p, b, k5.p); break;
        case 3: v = V::arr(); v.a = {V::str(z), V::str(t), I(i), I(ui), I(l), I(static_cast<int64_t>(ul)), V::decimal(d), V::boolean(b != 0), V::null(), V::null()};
          CABI_VA(arr, "sSiuiluldb n", zz.p, tx.p, tx.n, i, ui, l, ul, d, b); break;
        case 4: { V in = V::obj(); in.o[k[1]] = I(l); in.o[k[2]] = V::null(); v = V::obj(); v.o[k[0]] = in; v.o[k[3]] = I(ui); CABI_VA(obj, "ol ,ui", k0.p, k1.p, l, k2.p, k3.p, ui); break; }
        case 5: { V in = V::arr(); in.a = {I(i), V::str(z)}; V in2 = V::obj(); in2.o[k[0]] = in; v = V::arr(); v.a = {in2, V::decimal(d)}; CABI_VA(arr, "oais,,d", k0.p, i, zz.p, d); break; }
        case 6: { V in = V::arr(); in.a = {V::boolean(b != 0), V::arr(), V::obj()}; v = V::obj(); v.o[k[0]] = in; v.o[k[1]] = V::str(t); CABI_VA(obj, "aba,o,,S", k0.p, b, k1.p, tx.p, tx.n); break; }
        case 7: v = V::arr(); for (int n = 0; n < 9; ++n) v.a.push_back(I(i + (n % 2 ? 0 : 0))); CABI_VA(arr, "iiiiiiiii", i, i, i, i, i, i, i, i, i); break;
        case 8: { V a = V::arr(); a.a = {I(static_cast<int64_t>(ul))}; V o = V::obj(); o.o[k[2]] = V::str(z); v = V::obj(); v.o[k[0]] = a; v.o[k[1]] = o; v.o[k[3]] = V::decimal(d); CABI_VA(obj, "aul,os,d", k0.p, ul, k1.p, k2.p, zz.p, k3.p, d); break; }
        case 9: { V o = V::obj(); o.o[k[0]] = V::obj(); v = V::arr(); v.a = {o}; CABI_VA(arr, "oo", k0.p); break; }
        // formats nothing can be made of
        case 10: bad = true; CABI_VA(obj, "sq", k0.p, zz.p, k1.p, 4); break;
        case 11: bad = true; CABI_VA(arr, "sosx,", zz.p, k0.p, zz.p, k1.p, 4); break;
        default: bad = true; CABI_VA(arr, "Su", tx.p, tx.n, 4); break;
      }
    }

    // Not a handle at all, or unknown counters
    void nonsense() {
      void* z = calloc(1, sizeof(dart_packet_t)); Slot& s = any(); op = "nonsense"; int64_t iv = 5; double dv = 1; int bv = 3; size_t n = 0;
      auto client = [&] (int e, char const* f) { VT_CHECK(e == DART_CLIENT_ERROR, std::string("nonsense:") + f, std::to_string(e)); VT_CHECK(*dart_get_error(), "error:empty-text:nonsense", ""); };
      auto mark = [&] (dart_type_id_t& id) { id.p_id = static_cast<dart_packet_type_t>(r.below(4)); id.rc_id = static_cast<dart_rc_type_t>(r.chance(1, 2) ? 0 : 3); };
      mark(static_cast<dart_packet_t*>(z)->rtti);
      client(dart_obj_insert_int(z, "k", 1), "insert"); client(dart_obj_set_str(z, "k", "v"), "set"); client(dart_arr_insert_null(z, 0), "arr_insert"); client(dart_obj_erase(z, "k"), "erase"); client(dart_arr_resize(z, 3), "resize");
      client(dart_int_get_err(z, &iv), "int"); client(dart_dcm_get_err(z, &dv), "dcm"); client(dart_bool_get_err(z, &bv), "bool"); client(dart_obj_clear(z), "clear"); client(dart_destroy(z), "destroy");
      VT_CHECK(iv == 5 && dv == 1 && bv == 3, "nonsense:output-written", "");
      VT_CHECK(dart_get_type(z) == DART_INVALID && dart_size(z) == static_cast<size_t>(DART_FAILURE) && !dart_is_obj(z) && !dart_is_null(z) && !dart_obj_has_key(z, "k") && !dart_to_json(z, &n) && !dart_str_get(z) && !dart_get_bytes(z, &n) && !dart_dup_bytes(z, &n)
        && !dart_is_finalized(z) && !dart_equal(z, s.c) && !dart_equal(s.c, z) && dart_refcount(z) == static_cast<size_t>(DART_FAILURE), "nonsense:defaults", "");
      dart_packet_t c = dart_copy(z); VT_CHECK(dart_is_null(&c), "nonsense:copy", ""); dart_destroy(&c);
      dart_packet_t l = dart_lower(z); VT_CHECK(dart_is_null(&l), "nonsense:lower", ""); dart_destroy(&l);
      dart_packet_t o = dart_obj_get(z, "k"); VT_CHECK(dart_is_null(&o), "nonsense:get", ""); dart_destroy(&o);
      dart_heap_t h = dart_to_heap(z); VT_CHECK(dart_heap_is_null(&h), "nonsense:to_heap", ""); dart_heap_destroy(&h);
      dart_iterator_t it; VT_CHECK(dart_iterator_init_from_err(&it, z) != 0, "nonsense:iterator", "");
      VT_CHECK(dart_obj_insert_dart(s.c, "k", z) != 0, "nonsense:insert-value", ""); VT_CHECK(dart_arr_set_take_dart(s.c, 0, z) != 0, "nonsense:set-value", "");
      dart_packet_t p; dart_heap_t hh; dart_buffer_t bb; auto bad = static_cast<dart_rc_type_t>(r.chance(1, 2) ? 0 : 3);
      client(dart_init_rc_err(&p, bad), "init_rc"); client(dart_obj_init_rc_err(&p, bad), "obj_init_rc"); client(dart_str_init_rc_err(&p, bad, "x"), "str_init_rc"); client(dart_from_json_rc_err(&p, bad, "{}"), "from_json_rc");
      client(dart_heap_init_rc_err(&hh, bad), "heap_init_rc"); client(dart_heap_arr_init_rc_err(&hh, bad), "heap_arr_init_rc"); client(dart_heap_from_json_rc_err(&hh, bad, "{}"), "heap_from_json_rc");
      client(dart_buffer_init_rc_err(&bb, bad), "buffer_init_rc"); client(dart_buffer_from_json_rc_err(&bb, bad, "{}"), "buffer_from_json_rc");
      dart_packet_t q = dart_int_init_rc(bad, 5); VT_CHECK(dart_is_null(&q), "nonsense:int_init_rc", ""); dart_destroy(&q);
      dart_heap_t qh = dart_heap_str_init_rc(bad, "x"); VT_CHECK(dart_heap_is_null(&qh), "nonsense:heap_str_init_rc", ""); dart_heap_destroy(&qh);
      {
        auto* zh = static_cast<dart_heap_t*>(z); dart_heap_t oh;
        client(dart_heap_obj_insert_int(zh, "k", 1), "heap_insert"); client(dart_heap_arr_set_str(zh, 0, "v"), "heap_set"); client(dart_heap_obj_erase(zh, "k"), "heap_erase"); client(dart_heap_arr_reserve(zh, 4), "heap_reserve");
        client(dart_heap_int_get_err(zh, &iv), "heap_int"); client(dart_heap_dcm_get_err(zh, &dv), "heap_dcm"); client(dart_heap_bool_get_err(zh, &bv), "heap_bool"); client(dart_heap_destroy(zh), "heap_destroy");
        VT_CHECK(dart_heap_obj_get_err(&oh, zh, "k") != 0 && dart_heap_arr_get_err(&oh, zh, 0) != 0, "nonsense:heap_get", "");
        VT_CHECK(dart_heap_get_type(zh) == DART_INVALID && dart_heap_size(zh) == static_cast<size_t>(DART_FAILURE) && !dart_heap_is_obj(zh) && !dart_heap_is_null(zh) && !dart_heap_obj_has_key(zh, "k") && !dart_heap_to_json(zh, &n)
          && !dart_heap_str_get(zh) && !dart_heap_equal(zh, zh), "nonsense:heap_defaults", "");
      }
      {
        auto* zb = static_cast<dart_buffer_t*>(z); dart_buffer_t ob; dart_heap_t oh;
        client(dart_buffer_int_get_err(zb, &iv), "buffer_int"); client(dart_buffer_dcm_get_err(zb, &dv), "buffer_dcm"); client(dart_buffer_bool_get_err(zb, &bv), "buffer_bool"); client(dart_buffer_destroy(zb), "buffer_destroy");
        VT_CHECK(dart_buffer_obj_get_err(&ob, zb, "k") != 0 && dart_buffer_arr_get_err(&ob, zb, 0) != 0 && dart_buffer_lift_err(&oh, zb) != 0, "nonsense:buffer_get", "");
        VT_CHECK(dart_buffer_get_type(zb) == DART_INVALID && dart_buffer_size(zb) == static_cast<size_t>(DART_FAILURE) && !dart_buffer_is_obj(zb) && !dart_buffer_is_null(zb) && !dart_buffer_obj_has_key(zb, "k") && !dart_buffer_to_json(zb, &n)
          && !dart_buffer_str_get(zb) && !dart_buffer_get_bytes(zb, &n) && !dart_buffer_dup_bytes(zb, &n) && !dart_buffer_equal(zb, zb), "nonsense:buffer_defaults", "");
      }
      {
        dart_iterator_t zi, oi; memset(&zi, 0, sizeof zi); mark(zi.rtti); dart_packet_t op_;
        client(dart_iterator_next(&zi), "iterator_next"); client(dart_iterator_destroy(&zi), "iterator_destroy"); VT_CHECK(dart_iterator_get_err(&op_, &zi) != 0 && dart_iterator_copy_err(&oi, &zi) != 0 && dart_iterator_move_err(&oi, &zi) != 0, "nonsense:iterator", "");
        VT_CHECK(dart_iterator_done(&zi) != 0, "nonsense:iterator_done", ""); dart_packet_t g2 = dart_iterator_get(&zi); VT_CHECK(dart_is_null(&g2), "nonsense:iterator_get", ""); dart_destroy(&g2);
      }
      VT_CHECK(iv == 5 && dv == 1 && bv == 3, "nonsense:output-written", "");
      free(z); msg = dart_get_error(); count("nonsense");
      char junk[24]; for (auto& x : junk) x = static_cast<char>(r.next()); VT_CHECK(!dart_buffer_is_valid(junk, 0), "is_valid:empty", "");
    }

    // A packet or heap of some size, to have something to work on
    void seed_value() {
      V v = r.chance(2, 3) ? g.object(2) : g.array(2); std::string t; (void) t;
      bool heap = r.chance(1, 2); dart_rc_type_t rc = r.chance(1, 2) ? DART_RC_SAFE : DART_RC_UNSAFE; op = "build";
      if (heap) { auto* c = static_cast<dart_heap_t*>(fresh(sizeof(dart_heap_t), r)); cbuild_heap(c, rc, v); if (rc == DART_RC_SAFE) add(c, Sh::of<dart::heap>(plain<dart::heap>(v))); else add(c, Sh::of<unsafe_heap>(plain<unsafe_heap>(v))); }
      else { auto* c = static_cast<dart_packet_t*>(fresh(sizeof(dart_packet_t), r)); cbuild(c, rc, v); if (rc == DART_RC_SAFE) add(c, Sh::of<dart::packet>(plain<dart::packet>(v))); else add(c, Sh::of<unsafe_packet>(plain<unsafe_packet>(v))); }
    }
    void cbuild(dart_packet_t* c, dart_rc_type_t rc, V const& v) {
      switch (v.k) {
        case NUL: *c = dart_null_init_rc(rc); break; case BOOL: *c = dart_bool_init_rc(rc, v.b); break; case INT: *c = dart_int_init_rc(rc, v.i); break; case DEC: *c = dart_dcm_init_rc(rc, v.d); break;
        case STR: *c = dart_str_init_rc_len(rc, v.s.data(), v.s.size()); break;
        case ARR: *c = dart_arr_init_rc(rc); for (size_t n = 0; n < v.a.size(); ++n) { dart_packet_t x; cbuild(&x, rc, v.a[n]); int e = dart_arr_insert_take_dart(c, n, &x); VT_CHECK(!e, "build:arr", dart_get_error()); dart_destroy(&x); } break;
        case OBJ: *c = dart_obj_init_rc(rc); for (auto& m : v.o) { dart_packet_t x; cbuild(&x, rc, m.second); int e = dart_obj_insert_take_dart_len(c, m.first.data(), m.first.size(), &x); VT_CHECK(!e, "build:obj", dart_get_error()); dart_destroy(&x); } break;
      }
    }
    void cbuild_heap(dart_heap_t* c, dart_rc_type_t rc, V const& v) {
      switch (v.k) {
        case NUL: *c = dart_heap_null_init_rc(rc); break; case BOOL: *c = dart_heap_bool_init_rc(rc, v.b); break; case INT: *c = dart_heap_int_init_rc(rc, v.i); break; case DEC: *c = dart_heap_dcm_init_rc(rc, v.d); break;
        case STR: *c = dart_heap_str_init_rc_len(rc, v.s.data(), v.s.size()); break;
        case ARR: *c = dart_heap_arr_init_rc(rc); for (size_t n = 0; n < v.a.size(); ++n) { dart_heap_t x; cbuild_heap(&x, rc, v.a[n]); int e = dart_heap_arr_insert_heap(c, n, &x); VT_CHECK(!e, "build:arr", dart_get_error()); dart_heap_destroy(&x); } break;
        case OBJ: *c = dart_heap_obj_init_rc(rc); for (auto& m : v.o) { dart_heap_t x; cbuild_heap(&x, rc, m.second); int e = dart_heap_obj_insert_take_heap_len(c, m.first.data(), m.first.size(), &x); VT_CHECK(!e, "build:obj", dart_get_error()); dart_heap_destroy(&x); } break;
      }
    }
    void step() {
      if (ss.size() < 2) { seed_value(); return; }
      switch (r.below(hostile ? 27 : 26)) {
        case 0: case 1: seed_value(); break;
        case 2: case 3: init(); break;
        case 4: case 5: lifecycle(); break;
        case 6: case 7: case 8: case 9: case 10: put(); break;
        case 11: case 12: remove(); break;
        case 13: case 14: case 15: for (unsigned n = 0; n < 3; ++n) ask(); break;
        case 16: case 17: child(); break;
        case 18: case 19: transform(); break;
        case 20: bytes(); break;
        case 21: print(); break;
        case 22: parse(); break;
        case 23: iterate(); break;
        case 24: swap_api(); break;
        case 25: variadic(); break;
        default: nonsense(); break;
      }
    }
    void run(size_t n) {
      for (size_t k = 0; k < n; ++k) { step(); verify(r.chance(1, 4)); }
      if (want_sample()) { std::string t; for (auto& s : ss) t += show(s.sh.value(), 120) + " | "; sample(t); }
      finish();
    }
  };
  inline GenOpt opts() { GenOpt o; o.depth = 2; o.width = 4; o.big = false; return o; }
}
