// P11: YAML.
#pragma once
#include "p09.h"
#include <yaml.h>

namespace vt { namespace yaml {
  // What a plain scalar denotes in the types the library offers
  inline V plain_scalar(std::string const& s, bool& vague) {
    if (s == "null") return V::null();
    if (s == "true" || s == "false") return V::boolean(s == "true");
    size_t p = 0; auto dig = [&](size_t q) { return q < s.size() && s[q] >= '0' && s[q] <= '9'; };
    if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p;
    if (!dig(p)) return V::str(s);
    size_t b = p;
    if (s[p] == '0' && p + 1 < s.size() && (s[p + 1] == 'b' || s[p + 1] == 'B')) vague = true;   // binary for newer C libraries
    if (s[p] == '0' && p + 1 < s.size() && (s[p + 1] == 'x' || s[p + 1] == 'X')) {
      p += 2; size_t h = p; while (p < s.size() && isxdigit(static_cast<unsigned char>(s[p]))) ++p;
      if (p == s.size() && p > h) { errno = 0; char* e; long long x = strtoll(s.c_str(), &e, 16); if (errno) { vague = true; return V::str(s); } return V::integer(x); }
      if (s.find_first_of(".pP", b) != std::string::npos) vague = true;
      return V::str(s);
    }
    while (dig(p)) ++p;
    bool octal = s[b] == '0' && p - b > 1;
    bool notoct = octal && s.find_first_of("89", b) < p;
    if (p == s.size()) {
      if (notoct) return V::str(s);
      errno = 0; char* e; long long x = strtoll(s.c_str(), &e, octal ? 8 : 10);
      if (errno) { vague = true; return V::str(s); }
      return V::integer(x);
    }
    size_t q = p; bool frac = false;
    if (q < s.size() && s[q] == '.') { frac = true; ++q; while (dig(q)) ++q; }
    if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { size_t m = q + 1; if (m < s.size() && (s[m] == '+' || s[m] == '-')) ++m; if (dig(m)) { frac = true; q = m; while (dig(q)) ++q; } }
    if (frac && q == s.size()) {
      if (octal) vague = true;
      errno = 0; double d = strtod(s.c_str(), nullptr);
      if (errno) { vague = true; return V::str(s); }
      return V::decimal(d);
    }
    return V::str(s);
  }
  // The first document of a text, from the event stream of the YAML library, by recursive descent
  struct Doc {
    struct Bad { std::string why; };
    yaml_parser_t p; bool vague = false, longkey = false; size_t dep = 0, maxdep = 0; std::vector<char> buf;
    explicit Doc(std::string const& t) : buf(t.begin(), t.end()) { buf.push_back(0); yaml_parser_initialize(&p); yaml_parser_set_input_string(&p, reinterpret_cast<unsigned char const*>(buf.data()), t.size()); }
    ~Doc() { yaml_parser_delete(&p); }
    struct Ev { yaml_event_t e; bool live = false; ~Ev() { if (live) yaml_event_delete(&e); } };
    void next(Ev& e) { if (!yaml_parser_parse(&p, &e.e)) throw Bad {p.problem ? p.problem : "syntax"}; e.live = true; }
    V node(yaml_event_t const& e) {
      if (++dep > maxdep) maxdep = dep;
      if (dep > 3000) throw Bad {"too deep"};
      V v;
      switch (e.type) {
        case YAML_SCALAR_EVENT: {
          std::string s(reinterpret_cast<char const*>(e.data.scalar.value), e.data.scalar.length);
          if (e.data.scalar.tag) vague = true;
          v = e.data.scalar.style == YAML_PLAIN_SCALAR_STYLE ? plain_scalar(s, vague) : V::str(s);
          break;
        }
        case YAML_SEQUENCE_START_EVENT: {
          if (e.data.sequence_start.tag) vague = true;
          v = V::arr();
          for (;;) { Ev c; next(c); if (c.e.type == YAML_SEQUENCE_END_EVENT) break; v.a.push_back(node(c.e)); }
          break;
        }
        case YAML_MAPPING_START_EVENT: {
          if (e.data.mapping_start.tag) vague = true;
          v = V::obj();
          for (;;) {
            Ev k; next(k); if (k.e.type == YAML_MAPPING_END_EVENT) break;
            if (k.e.type != YAML_SCALAR_EVENT) throw Bad {"complex key"};
            std::string s(reinterpret_cast<char const*>(k.e.data.scalar.value), k.e.data.scalar.length);
            if (s.size() > 65535) longkey = true;
            Ev c; next(c); V x = node(c.e); v.o[s] = std::move(x);
          }
          break;
        }
        case YAML_ALIAS_EVENT: throw Bad {"alias"};
        default: throw Bad {"event"};
      }
      --dep; return v;
    }
    V document() {
      { Ev e; next(e); }
      Ev e; next(e);
      if (e.e.type == YAML_STREAM_END_EVENT) return V::obj();
      Ev r; next(r);
      if (r.e.type == YAML_SCALAR_EVENT) throw Bad {"naked scalar"};
      V v = node(r.e);
      Ev d; next(d);
      return v;
    }
  };
  inline json::Result parse(std::string const& t) {
    json::Result r; Doc d(t);
    try { r.v = d.document(); r.ok = true; } catch (Doc::Bad const& b) { r.why = b.why; }
    r.vague = d.vague; r.longkey = d.longkey; r.depth = d.maxdep;
    return r;
  }

  template <class H, class B, class P>
  void all_routes(std::string const& t, Rng& r, V const* known = nullptr) {
    json::Result ref;
    { Quiet q; ref = parse(t); }
    if (ref.depth > 1200) return;
    if (known) {
      VT_CHECK(ref.ok && same(ref.v, *known), "harness:writer", "text " + brief(t) + " " + ref.why + " " + first_difference(*known, ref.v));
    }
    Exact x(t); sv s = x.view();
    std::string bytes_h, bytes_b;
    Out oh = attempt([&] { auto h = H::from_yaml(s); V v = read(h); if (v.k == OBJ) bytes_h = raw_of(B(h)); return v; });
    Out ob = attempt([&] { auto b = B::from_yaml(s); bytes_b = raw_of(b); return read(b); });
    auto judge = [&](Out const& o, bool fin, char const* key) {
      if (!ref.ok || ref.longkey) { want_out(o.k != Out::VALUE, key, t, o, "an error: " + ref.why); return; }
      if (ref.v.k == ARR && fin) { want_out(o.k == Out::TYPE, key, t, o, "a type error for the root"); return; }
      want_out(o.k == Out::VALUE, key, t, o, show(ref.v, 300));
      if (!ref.vague) VT_CHECK(same(ref.v, o.v), key, "text " + brief(t) + " " + first_difference(ref.v, o.v));
    };
    judge(oh, false, "heap"); judge(ob, true, "buffer");
    if (oh.k == Out::VALUE && ob.k == Out::VALUE) { VT_SAME(oh.v, ob.v, "heap-vs-buffer"); VT_CHECK(bytes_h == bytes_b, "heap-vs-buffer:bytes", brief(t)); }
    bool fin = r.chance(1, 2);
    Out const& want = fin ? ob : oh;
    Out op = attempt([&] { auto p = P::from_yaml(s, fin); if (p.is_finalized() != fin) fail("packet:form", ""); return read(p); });
    want_out(op.k == want.k && (op.k != Out::VALUE || same(op.v, want.v)), "packet", t, op, out_name(want.k));
    count(ref.ok ? ref.vague ? "vague" : "accepted" : "rejected");
    if (ref.ok && ref.v.k == ARR) count("array-root");
    if (!ref.ok) { if (ref.why == "alias") count("alias"); if (ref.why == "complex key") count("complex-key"); if (ref.why == "naked scalar") count("naked-scalar"); }
    if (ref.longkey) count("longkey");
    seen(hash_bytes(t.data(), t.size()));
  }

  // ----- texts with a known value -----
  struct Writer {
    Rng& r; std::string t; bool anchors = false; unsigned nanchor = 0;
    explicit Writer(Rng& x) : r(x) {}
    static bool safe_plain(std::string const& s) {
      if (s.empty() || !isalpha(static_cast<unsigned char>(s[0])) || s.size() > 60) return false;
      for (char c : s) if (!isalnum(static_cast<unsigned char>(c)) && c != '_') return false;
      return s != "null" && s != "true" && s != "false";
    }
    static bool printable(std::string const& s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return true; }
    void dq(std::string const& s) {
      t += '"'; char b[16];
      for (size_t n = 0; n < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[n]);
        if (c < 0x80) {
          ++n;
          if (c == '"' || c == '\\') { t += '\\'; t += static_cast<char>(c); }
          else if (c == 0 && r.chance(1, 2)) t += "\\0";
          else if (c == 27 && r.chance(1, 2)) t += "\\e";
          else if (c == 7 && r.chance(1, 2)) t += "\\a";
          else if (c == 10 && r.chance(1, 2)) t += "\\n";
          else if (c == 9 && r.chance(1, 2)) t += "\\t";
          else if (c < 32 || c == 127 || r.chance(1, 30)) { unsigned w = static_cast<unsigned>(r.below(3)); snprintf(b, sizeof b, w == 0 ? "\\x%02x" : w == 1 ? "\\u%04X" : "\\U%08x", c); t += b; }
          else t += static_cast<char>(c);
          continue;
        }
        size_t len = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
        uint32_t u = len == 2 ? c & 31u : len == 3 ? c & 15u : c & 7u;
        for (size_t k = 1; k < len; ++k) u = (u << 6) | (static_cast<unsigned char>(s[n + k]) & 63u);
        n += len;
        if (u < 0x10000) snprintf(b, sizeof b, "\\u%04x", u); else snprintf(b, sizeof b, "\\U%08X", u);
        t += b;
      }
      t += '"';
    }
    void key(std::string const& s) {
      if (safe_plain(s) && r.chance(2, 3)) t += s;
      else if (printable(s) && r.chance(1, 2)) sq(s);
      else dq(s);
    }
    void sq(std::string const& s) { t += '\''; for (char c : s) { if (c == '\'') t += '\''; t += c; } t += '\''; }
    void number(V const& v) {
      char b[64];
      if (v.k == INT) { if (v.i >= 0 && r.chance(1, 8)) { snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v.i)); t += b; } else if (v.i > 0 && r.chance(1, 10)) { snprintf(b, sizeof b, "0%llo", static_cast<unsigned long long>(v.i)); t += b; } else { if (v.i > 0 && r.chance(1, 10)) t += '+'; t += std::to_string(v.i); } return; }
      snprintf(b, sizeof b, r.chance(1, 2) ? "%.17g" : "%.17e", v.d); t += b;
      if (!strpbrk(b, ".e")) t += r.chance(1, 2) ? ".0" : "e0";
    }
    void anchor() { if (anchors && r.chance(1, 5)) t += "&a" + std::to_string(nanchor++) + " "; }
    void scalar(V const& v) {
      switch (v.k) {
        case NUL: t += "null"; break;
        case BOOL: t += v.b ? "true" : "false"; break;
        case INT: case DEC: number(v); break;
        default: if (safe_plain(v.s) && r.chance(2, 3)) t += v.s; else if (printable(v.s) && r.chance(1, 2)) sq(v.s); else dq(v.s); break;
      }
    }
    void flow(V const& v) {
      anchor();
      if (v.k == ARR) { t += '['; bool f = true; for (auto& e : v.a) { if (!f) t += r.chance(1, 2) ? ", " : " , "; f = false; flow(e); } if (!f && r.chance(1, 6)) t += ", "; t += ']'; }
      else if (v.k == OBJ) { t += "{"; bool f = true; for (auto& e : v.o) { if (!f) t += ", "; f = false; key(e.first); t += r.chance(1, 2) ? ": " : " : "; flow(e.second); } t += "}"; }
      else scalar(v);
    }
    static bool literal_ok(std::string const& s) {
      if (s.empty() || s[0] == ' ' || s[0] == '\n' || s.back() == '\n' || s.find("\n\n") != std::string::npos || s.find("\n ") != std::string::npos) return false;
      for (unsigned char c : s) if ((c < 32 && c != '\n') || c > 126) return false;
      return true;
    }
    void eol() { if (r.chance(1, 10)) t += " # a: [comment"; t += '\n'; if (r.chance(1, 12)) t += "\n"; }
    // Positioned after "key:" or "-"; leaves the cursor at the start of a line
    void block(V const& v, size_t ind) {
      std::string pad(ind, ' ');
      bool empty = (v.k == ARR && v.a.empty()) || (v.k == OBJ && v.o.empty());
      if (v.k < ARR || empty || r.chance(1, 4)) {
        t += ' ';
        if (v.k == STR && literal_ok(v.s) && r.chance(1, 3)) {
          bool fold = v.s.find('\n') == std::string::npos && r.chance(1, 2);
          t += fold ? ">-\n" : "|-\n"; std::string in(ind + 2, ' ');
          size_t p = 0; for (;;) { size_t q = v.s.find('\n', p); t += in + v.s.substr(p, q == std::string::npos ? q : q - p) + "\n"; if (q == std::string::npos) break; p = q + 1; }
          return;
        }
        flow(v); eol(); return;
      }
      if (anchors && r.chance(1, 5)) t += " &b" + std::to_string(nanchor++);
      eol();
      if (v.k == ARR) { for (auto& e : v.a) { t += pad + "-"; block(e, ind + 1 + r.below(3)); } }
      else {
        std::vector<Obj::const_iterator> es; for (auto it = v.o.begin(); it != v.o.end(); ++it) es.push_back(it);
        r.shuffle(es);
        for (auto& it : es) {
          if (r.chance(1, 20)) { t += pad; key(it->first); t += ": overwritten\n"; }
          t += pad; if (r.chance(1, 12)) { t += "? "; key(it->first); t += "\n" + pad + ":"; } else { key(it->first); t += ":"; }
          block(it->second, ind + 1 + r.below(3));
        }
      }
    }
    std::string document(V const& v) {
      anchors = r.chance(1, 5);
      if (r.chance(1, 8)) t += "# leading comment\n";
      if (r.chance(1, 10)) t += "%YAML 1.1\n---"; else if (r.chance(1, 3)) t += "---"; else {
        bool empty = (v.k == ARR && v.a.empty()) || (v.k == OBJ && v.o.empty());
        if (empty || r.chance(1, 4)) { flow(v); t += '\n'; } else block0(v);
        tail(); return t;
      }
      block(v, 0); tail(); return t;
    }
    void block0(V const& v) {
      std::string save = t; t.clear(); block(v, 0);
      // drop the part standing on the parent's line
      if (t[0] == ' ' || t[0] == '\n') t.erase(0, 1);
      t = save + t;
    }
    void tail() {
      switch (r.below(8)) { case 0: t += "...\n"; break; case 1: t += "---\n- other: document\n"; break; case 2: t += "# end"; break; case 3: t += "...\n%YAML 1.1\n---\n*gone"; break; default: break; }
    }
  };
  inline std::string tok(Rng& r) {
    static char const* const t[] = {"- ", "? ", ": ", "a: ", "b: ", "a", "b", "1", "-1", "0x1f", "017", "089", "1.5", "1e5", "-.5", ".5", "1.", "+1", "-", "+", "null", "~", "true", "false", "yes", "\n", "\n  ", "\n ", "\n    ", "[", "]", "{", "}", ",", ", ", "\"", "'", "\"x\"", "'y'", "|\n", ">\n", "|-\n ", "&a ", "*a", "*b", "!!str ", "!x ", "%YAML 1.1\n", "%TAG ! x\n", "---\n", "...\n", "# c\n", "\t", "@", "`", "<<: ", "\\", "\"\\x41\"", "\"\\uD800\"", "\"\\0\"", "{a: 1}", "[1, 2]", "{[a]: b}", "? [a]\n: b\n", "\xef\xbb\xbf", "\xff", "\xc3\xa9", "\x01", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e308", "1e309", "0x", "0x1.8p3", "-0", "1_000", "12:30", "2001-01-01", "inf", ".inf", "-.inf", "nul", "nulls", "tru", "trues", "null ", "truefalse"};
    return t[r.below(sizeof t / sizeof *t)];
  }
  inline std::string mutated(Rng& r, std::string t) {
    for (size_t n = 1 + r.below(3); n > 0; --n) {
      size_t p = r.below(t.size() + 1);
      switch (r.below(7)) {
        case 0: if (p < t.size()) t.erase(p, 1 + r.below(3)); break;
        case 1: case 2: t.insert(p, tok(r)); break;
        case 3: if (p < t.size()) t[p] = "{}[],:\"\\0123-+.e&*!|>%@`'\n #?\t\0"[r.below(32)]; break;
        case 4: if (p < t.size()) t[p] = static_cast<char>(static_cast<unsigned char>(t[p]) ^ (1u << r.below(8))); break;
        case 5: t.resize(p); break;
        default: { size_t q = r.below(t.size() + 1); if (q > p) t.insert(q, t.substr(p, std::min<size_t>(q - p, 60))); break; }
      }
    }
    return t;
  }
}}
