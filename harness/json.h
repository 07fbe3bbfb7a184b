// An independent JSON reader (RFC 8259, with the optional extensions the library documents) and a text generator.
#pragma once
#include "vt.h"
#include <cerrno>
#include <cstdlib>

namespace vt { namespace json {
  struct Opt { bool comments = false, commas = false, nan = false; };
  struct Result {
    bool ok = false;
    V v;
    bool inftail = false;      // NaN or Infinity directly followed by a fraction or an exponent
    bool vague = false;        // RFC 8259 leaves the outcome open (lone surrogates, invalid UTF-8, doubles at the edge of the range)
    bool longkey = false;      // a key no packet can hold
    size_t depth = 0;
    int root = -1;             // first character of the root value
    std::string why;
  };
  struct Reader {
    std::string const& t; Opt o; size_t p = 0; Result& res; size_t dep = 0;
    Reader(std::string const& text, Opt opt, Result& r) : t(text), o(opt), res(r) {}
    struct Bad { char const* why; };
    [[noreturn]] void bad(char const* w) { throw Bad {w}; }
    int peek() const { return p < t.size() ? static_cast<unsigned char>(t[p]) : -1; }
    void ws() {
      for (;;) {
        int c = peek();
        if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { ++p; continue; }
        if (o.comments && c == '/') {
          if (p + 1 < t.size() && t[p + 1] == '*') {
            size_t e = t.find("*/", p + 2); if (e == std::string::npos) bad("comment");
            if (t.find('\0', p) < e) res.vague = true;
            p = e + 2; continue;
          }
          if (p + 1 < t.size() && t[p + 1] == '/') { while (p < t.size() && t[p] != '\n') { if (!t[p]) res.vague = true; ++p; } if (p < t.size()) ++p; continue; }
          bad("comment");
        }
        return;
      }
    }
    unsigned hex4() {
      unsigned u = 0;
      for (int n = 0; n < 4; ++n) {
        int c = peek(); ++p; u <<= 4;
        if (c >= '0' && c <= '9') u += static_cast<unsigned>(c - '0'); else if (c >= 'a' && c <= 'f') u += static_cast<unsigned>(c - 'a' + 10); else if (c >= 'A' && c <= 'F') u += static_cast<unsigned>(c - 'A' + 10); else bad("hex");
      }
      return u;
    }
    static void put(std::string& s, uint32_t c) {
      if (c < 0x80) s += static_cast<char>(c);
      else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
      else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
      else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    std::string string() {
      if (peek() != '"') bad("quote");
      ++p; std::string s;
      for (;;) {
        int c = peek(); if (c < 0) bad("unterminated");
        ++p;
        if (c == '"') break;
        if (c < 0x20) bad("control character");
        if (c != '\\') { s += static_cast<char>(c); continue; }
        c = peek(); ++p;
        switch (c) {
          case '"': s += '"'; break; case '\\': s += '\\'; break; case '/': s += '/'; break;
          case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
          case 'u': {
            uint32_t u = hex4();
            if (u >= 0xD800 && u < 0xDC00) {
              if (peek() == '\\' && p + 1 < t.size() && t[p + 1] == 'u') { p += 2; uint32_t l = hex4(); if (l >= 0xDC00 && l < 0xE000) u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); else { res.vague = true; bad("surrogate"); } }
              else { res.vague = true; bad("surrogate"); }
            } else if (u >= 0xDC00 && u < 0xE000) res.vague = true;
            put(s, u); break;
          }
          default: bad("escape");
        }
      }
      if (!Gen::valid_utf8(s)) res.vague = true;
      return s;
    }
    V number() {
      size_t b = p; bool frac = false;
      if (peek() == '-') ++p;
      if (o.nan && (peek() == 'N' || peek() == 'I')) {
        bool neg = t[b] == '-';
        { size_t q = p; while (q < t.size() && isalpha(static_cast<unsigned char>(t[q])) && t[q] != 'e' && t[q] != 'E') ++q; if (q < t.size() && (t[q] == '.' || t[q] == 'e' || t[q] == 'E')) res.inftail = true; }
        if (t.compare(p, 3, "NaN") == 0) { p += 3; return V::decimal(std::numeric_limits<double>::quiet_NaN()); }
        double inf = neg ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
        if (t.compare(p, 8, "Infinity") == 0) { p += 8; return V::decimal(inf); }
        if (t.compare(p, 3, "Inf") == 0) { p += 3; if (peek() == 'i') bad("inf"); return V::decimal(inf); }
        bad("nan");
      }
      if (peek() == '0') ++p;
      else if (peek() >= '1' && peek() <= '9') while (peek() >= '0' && peek() <= '9') ++p;
      else bad("number");
      if (peek() == '.') { frac = true; ++p; if (!(peek() >= '0' && peek() <= '9')) bad("fraction"); while (peek() >= '0' && peek() <= '9') ++p; }
      if (peek() == 'e' || peek() == 'E') { frac = true; ++p; if (peek() == '+' || peek() == '-') ++p; if (!(peek() >= '0' && peek() <= '9')) bad("exponent"); while (peek() >= '0' && peek() <= '9') ++p; }
      std::string s = t.substr(b, p - b);
      if (!frac) { errno = 0; char* e; long long x = strtoll(s.c_str(), &e, 10); if (errno != ERANGE) return V::integer(x); }
      double d = strtod(s.c_str(), nullptr);
      // a zero with a huge exponent: in range, but parsers may give up on it
      { size_t e = s.find_first_of("eE"); if (d == 0 && e != std::string::npos && s[e + 1] != '-' && atof(s.c_str() + e + 1) > 300) res.vague = true; }
      if (std::fabs(d) > 1.7976931348623150e308) { res.vague = true; if (!std::isfinite(d)) bad("range"); }
      return V::decimal(d);
    }
    V value() {
      struct Deep { size_t& d; Deep(size_t& x, size_t& m) : d(x) { if (++d > m) m = d; } ~Deep() { --d; } } deep(dep, res.depth);
      ws();
      switch (peek()) {
        case '{': {
          ++p; V v = V::obj(); ws();
          if (peek() == '}') { ++p; return v; }
          for (;;) {
            ws(); std::string k = string(); if (k.size() > 65535) res.longkey = true;
            ws(); if (peek() != ':') bad("colon"); ++p;
            V x = value(); v.o[k] = std::move(x);
            ws(); int c = peek(); ++p;
            if (c == '}') return v;
            if (c != ',') bad("comma");
            if (o.commas) { ws(); if (peek() == '}') { ++p; return v; } }
          }
        }
        case '[': {
          ++p; V v = V::arr(); ws();
          if (peek() == ']') { ++p; return v; }
          for (;;) {
            v.a.push_back(value());
            ws(); int c = peek(); ++p;
            if (c == ']') return v;
            if (c != ',') bad("comma");
            if (o.commas) { ws(); if (peek() == ']') { ++p; return v; } }
          }
        }
        case '"': return V::str(string());
        case 't': if (t.compare(p, 4, "true")) bad("literal"); p += 4; return V::boolean(true);
        case 'f': if (t.compare(p, 5, "false")) bad("literal"); p += 5; return V::boolean(false);
        case 'n': if (t.compare(p, 4, "null")) bad("literal"); p += 4; return V::null();
        default: return number();
      }
    }
  };
  inline Result parse(std::string const& t, Opt o = Opt()) {
    Result r; Reader rd(t, o, r);
    try {
      rd.ws(); r.root = rd.peek();
      r.v = rd.value(); rd.ws();
      if (rd.p != t.size()) { bool pad = true; for (size_t n = rd.p; n < t.size(); ++n) pad = pad && !t[n]; if (pad) r.vague = true; r.why = "trailing text"; if (!pad) return r; }
      r.ok = true;
    } catch (Reader::Bad const& b) { r.why = b.why; }
    return r;
  }
  // Equal up to the accuracy of the reader's default number conversion
  inline bool close(V const& x, V const& y, double rel) {
    if (x.k != y.k) return false;
    if (x.k == DEC) {
      if (bits(x.d) == bits(y.d) || (std::isnan(x.d) && std::isnan(y.d))) return true;
      if (rel == 0 || !std::isfinite(x.d) || !std::isfinite(y.d)) return false;
      double m = std::max(std::fabs(x.d), std::fabs(y.d));
      return std::fabs(x.d - y.d) <= m * rel || std::fabs(x.d - y.d) <= 3e-323;
    }
    if (x.k == ARR) { if (x.a.size() != y.a.size()) return false; for (size_t n = 0; n < x.a.size(); ++n) if (!close(x.a[n], y.a[n], rel)) return false; return true; }
    if (x.k == OBJ) {
      if (x.o.size() != y.o.size()) return false;
      auto p = x.o.begin(); auto q = y.o.begin();
      for (; p != x.o.end(); ++p, ++q) if (p->first != q->first || !close(p->second, q->second, rel)) return false;
      return true;
    }
    return same(x, y);
  }

  inline std::string difference(V const& a, V const& b, double rel, std::string path = "$") {
    if (close(a, b, rel)) return "";
    if (a.k == ARR && b.k == ARR && a.a.size() == b.a.size()) { for (size_t n = 0; n < a.a.size(); ++n) { auto d = difference(a.a[n], b.a[n], rel, path + "[" + std::to_string(n) + "]"); if (!d.empty()) return d; } }
    if (a.k == OBJ && b.k == OBJ) { for (auto& e : a.o) { auto it = b.o.find(e.first); if (it == b.o.end()) return path + " lacks " + esc(e.first); auto d = difference(e.second, it->second, rel, path + "." + esc(e.first, 20)); if (!d.empty()) return d; } }
    return path + ": " + show(a, 200) + " vs " + show(b, 200);
  }

  // Text for a value, in one of its many spellings
  struct Writer {
    Rng& r; Opt o; bool dups = false, exact = false; unsigned style = 0;   // style 0: compact
    std::string t;
    Writer(Rng& rng, Opt opt) : r(rng), o(opt) { style = static_cast<unsigned>(r.below(3)); dups = r.chance(1, 4); }
    void gap() {
      if (!style) return;
      if (style == 2 || r.chance(1, 4)) for (size_t n = r.below(3); n > 0; --n) t += " \t\n\r"[r.below(4)];
      if (o.comments && r.chance(1, 8)) t += r.chance(1, 2) ? "/* a, \"} */" : "// x ]}\n";
    }
    void hex(uint32_t u) { char b[8]; snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", u); t += b; }
    void string(std::string const& s) {
      t += '"';
      bool ascii = r.chance(1, 4);
      for (size_t n = 0; n < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[n]);
        if (c < 0x80) {
          char const* simple = strchr("\"\\\b\f\n\r\t/", c);
          if (c && simple && *simple && (c != '/' || r.chance(1, 2))) {
            if (c == '/' || r.chance(3, 4)) { t += '\\'; t += "\"\\bfnrt/"[pos(c)]; }
            else hex(c);
          } else if (c < 0x20) hex(c);
          else if (r.chance(1, 20)) hex(c);
          else t += static_cast<char>(c);
          ++n;
        } else {
          size_t len = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
          std::string ch = s.substr(n, len);
          if (Gen::valid_utf8(ch) && (ascii || r.chance(1, 8))) {
            uint32_t u = len == 2 ? c & 31u : len == 3 ? c & 15u : c & 7u;
            for (size_t k = 1; k < len; ++k) u = (u << 6) | (static_cast<unsigned char>(ch[k]) & 63u);
            if (u >= 0xD800 && u < 0xE000) t += ch;   // not really valid, leave alone
            else if (u < 0x10000) hex(u); else { u -= 0x10000; hex(0xD800 + (u >> 10)); hex(0xDC00 + (u & 0x3ff)); }
          } else t += ch;
          n += len;
        }
      }
      t += '"';
    }
    static size_t pos(unsigned char c) { return static_cast<size_t>(strchr("\"\\\b\f\n\r\t/", c) - "\"\\\b\f\n\r\t/"); }
    void number(double d) {
      char b[400];
      if (std::isnan(d)) { t += "NaN"; return; }
      if (std::isinf(d)) { t += d < 0 ? (r.chance(1, 2) ? "-Inf" : "-Infinity") : (r.chance(1, 2) ? "Inf" : "Infinity"); return; }
      switch (r.below(4)) {
        case 0: snprintf(b, sizeof b, "%.17e", d); break;
        case 1: if (std::fabs(d) < 1e40) { snprintf(b, sizeof b, "%.40f", d); break; } // fall through
        default: snprintf(b, sizeof b, "%.17g", d); break;
      }
      std::string s = b;
      if (s.find_first_of(".eE") == std::string::npos) s += r.chance(1, 2) ? ".0" : "e0";
      if (r.chance(1, 4)) for (auto& c : s) if (c == 'e') c = 'E';
      t += s;
    }
    void value(V const& v) {
      gap();
      switch (v.k) {
        case NUL: t += "null"; break;
        case BOOL: t += v.b ? "true" : "false"; break;
        case INT: t += std::to_string(v.i); break;
        case DEC: number(v.d); break;
        case STR: string(v.s); break;
        case ARR: {
          t += '['; bool first = true;
          for (auto& e : v.a) { if (!first) t += ','; first = false; value(e); gap(); }
          if (!first && o.commas && r.chance(1, 3)) { t += ','; gap(); }
          gap(); t += ']'; break;
        }
        case OBJ: {
          t += '{'; bool first = true;
          std::vector<Obj::const_iterator> es; for (auto it = v.o.begin(); it != v.o.end(); ++it) es.push_back(it);
          r.shuffle(es);
          for (auto& it : es) {
            if (dups && r.chance(1, 4)) { if (!first) t += ','; first = false; gap(); string(it->first); t += ':'; Gen g(r, GenOpt()); g.o.utf8 = true; g.o.big = false; value(g.value(1)); }
            if (!first) t += ','; first = false; gap(); string(it->first); gap(); t += ':'; value(it->second); gap();
          }
          if (!first && o.commas && r.chance(1, 3)) { t += ','; gap(); }
          gap(); t += '}'; break;
        }
      }
    }
  };
}}
