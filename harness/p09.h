// P09: parsing JSON, judged by an independent reader.
#pragma once
#include "dt.h"
#include "json.h"
#include <climits>

namespace vt {
  struct Out { enum K { VALUE, PARSE, TYPE, OTHER } k = OTHER; V v; std::string what; };
  inline char const* out_name(int k) { static char const* n[] = {"value", "parse_error", "type_error", "other exception"}; return n[k]; }
  template <class F> Out attempt(F&& f) {
    Out o;
    try { o.v = f(); o.k = Out::VALUE; }
    catch (dart::parse_error const& e) { o.k = Out::PARSE; o.what = e.what(); }
    catch (dart::type_error const& e) { o.k = Out::TYPE; o.what = e.what(); }
    catch (Abort const&) { throw; }
    catch (std::exception const& e) { o.k = Out::OTHER; o.what = e.what(); }
    if (o.k != Out::VALUE && o.what.empty()) fail("error-text", "an error without a message");
    return o;
  }
  // The text, in a block of exactly its size
  struct Exact {
    char* p; size_t n;
    explicit Exact(std::string const& s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
    sv view() const { return sv(p, n); }
  };
  inline std::string brief(std::string const& t) { return esc(t, 400); }
  inline void want_out(bool ok, char const* key, std::string const& t, Out const& o, std::string const& want) {
    eval();
    if (!ok) { Quiet q; fail(key, "text " + brief(t) + " wanted " + want + " got " + out_name(o.k) + " " + (o.k == Out::VALUE ? show(o.v, 300) : o.what)); }
  }
  constexpr double default_rel = 4e-15;
  // How one route must behave
  inline void judge(std::string const& t, json::Result const& ref, Out const& o, bool finalized, double rel, char const* key) {
    if (ref.vague) { if (o.k == Out::VALUE && ref.ok) want_out(json::close(ref.v, o.v, rel), key, t, o, show(ref.v, 300)); return; }
    if (ref.longkey) { want_out(o.k != Out::VALUE, key, t, o, "an error for an oversized key"); return; }
    // A root that cannot be a packet of this kind may be refused before the rest is read.
    bool agg = ref.root == '{' || ref.root == '[' || ref.root < 0;
    if (!ref.ok && ref.inftail && o.k == Out::TYPE) return;
    if (!ref.ok && ref.inftail && o.k == Out::VALUE) { eval(); report("infinity-with-tail", "text " + brief(t).substr(0, 200) + " read as " + show(o.v, 100)); return; }
    if (!ref.ok) { want_out(o.k == Out::PARSE || (!agg && o.k == Out::TYPE), key, t, o, std::string("a parse error: ") + ref.why); return; }
    if (ref.v.k == OBJ || (ref.v.k == ARR && !finalized)) { if (o.k == Out::VALUE && !json::close(ref.v, o.v, rel)) fail(key, "text " + brief(t).substr(0, 200) + " " + json::difference(ref.v, o.v, rel)); want_out(o.k == Out::VALUE, key, t, o, show(ref.v, 300)); return; }
    want_out(o.k == Out::TYPE, key, t, o, "a type error for the root");
  }
  inline std::string raw_of(dart::buffer const& b) { auto s = b.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }
  inline std::string raw_of(dart::unsafe_buffer const& b) { auto s = b.get_bytes(); return std::string(reinterpret_cast<char const*>(s.data()), static_cast<size_t>(s.size())); }

  template <class H, class B, class P, unsigned F>
  void all_routes(std::string const& t, Rng& r, double rel = default_rel) {
    json::Opt o;
    o.comments = F & dart::parse_comments; o.commas = F & dart::parse_trailing_commas; o.nan = F & dart::parse_nan;
    json::Result ref;
    { Quiet q; ref = json::parse(t, o); }
    if (ref.depth > 1500) return;
    Exact x(t); sv s = x.view();
    std::string bytes_b, bytes_h;
    bool mk = false;
    Out oh = attempt([&] { auto h = H::template from_json<F>(s); V v = read(h); mk = h.is_object(); if (mk) bytes_h = raw_of(B(h)); return v; });
    judge(t, ref, oh, false, rel, "heap");
    Out ob = attempt([&] { auto b = B::template from_json<F>(s); bytes_b = raw_of(b); return read(b); });
    judge(t, ref, ob, true, rel, "buffer");
    // The two forms agree bit for bit wherever both accept
    if (oh.k == Out::VALUE && ob.k == Out::VALUE) {
      VT_SAME(oh.v, ob.v, "heap-vs-buffer");
      VT_CHECK(bytes_h == bytes_b, "heap-vs-buffer:bytes", brief(t));
    }
    if (!ref.vague && !ref.longkey && oh.k == Out::VALUE && oh.v.k == OBJ) VT_CHECK(ob.k == Out::VALUE, "heap-accepts-buffer-refuses", brief(t));
    // Other spellings of the same call
    auto alias = [&](Out const& want, char const* key, auto&& f) {
      Out got = attempt(f);
      want_out(got.k == want.k && (got.k != Out::VALUE || same(got.v, want.v)), key, t, got, std::string(out_name(want.k)) + " as from_json");
    };
    switch (r.below(6)) {
      case 0: alias(oh, "packet", [&] { auto p = P::template from_json<F>(s, false); if (p.is_finalized()) fail("packet:form", "finalized"); return read(p); }); break;
      case 1: alias(ob, "packet-finalized", [&] { auto p = P::template from_json<F>(s, true); if (!p.is_finalized()) fail("packet:form", "not finalized"); return read(p); }); break;
      case 2: alias(oh, "heap-parse", [&] { return read(H::template parse<F>(s)); }); break;
      case 3: alias(ob, "buffer-parse", [&] { return read(B::template parse<F>(s)); }); break;
      case 4: alias(r.chance(1, 2) ? oh : oh, "packet-parse", [&] { return read(P::template parse<F>(s)); }); break;
      default: alias(ob, "packet-parse-finalized", [&] { return read(P::template parse<F>(s, true)); }); break;
    }
    if (ref.vague) count("vague"); else if (ref.ok) count("accepted"); else count("rejected");
    if (!ref.vague && ref.ok && ref.v.k == ARR) count("array-root");
    if (!ref.vague && ref.ok && ref.v.k < ARR) count("scalar-root");
    if (ref.longkey) count("longkey");
    seen(hash_bytes(t.data(), t.size(), F + 99));
  }

  // ----- texts -----
  inline std::string write(Rng& r, V const& v, json::Opt o) { json::Writer w(r, o); w.gap(); w.value(v); w.gap(); return w.t; }
  inline json::Opt any_opt(Rng& r) { json::Opt o; if (r.chance(1, 3)) o.comments = true; if (r.chance(1, 3)) o.commas = true; if (r.chance(1, 3)) o.nan = true; return o; }
  inline GenOpt json_opts(Rng& r, bool nan) { GenOpt o; o.utf8 = true; o.nonfinite = nan; o.big = r.chance(1, 6); o.depth = 1 + static_cast<unsigned>(r.below(4)); o.width = 1 + static_cast<unsigned>(r.below(7)); return o; }
  inline std::string valid_text(Rng& r, json::Opt o) {
    Gen g(r, json_opts(r, o.nan));
    V v = r.chance(1, 40) ? g.chain(static_cast<unsigned>(r.below(300))) : r.chance(1, 6) ? g.any() : r.chance(1, 6) ? g.array(g.o.depth) : g.root_object();
    return write(r, v, o);
  }
  inline std::string token(Rng& r) {
    static char const* const t[] = {"{", "}", "[", "]", ",", ":", "\"\"", "\"a\"", "\"b\"", "1", "-1", "0", "null", "true", "false", "1.5", "1e5", " ", "\n", "\"", "\\", "nul", "tru", "-", "+", ".", "e", "01", "1.", ".5", "1e", "1e+", "-0", "0x1",
      "NaN", "Infinity", "Inf", "-Inf", "-Infinity", "-NaN", "Infinit", "Na", "//", "/*", "*/", "/", "// c\n", "/* c */", ",}", ",]", "{}", "[]", "{\"a\":1}", "\"\\u0000\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "\"\\u12\"", "\"\\x\"", "\t", "\x01", "\xef\xbb\xbf", "\"\xc3\xa9\"", "\"\xff\"", "'a'", "TRUE",
      "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e308", "1e309", "-1e400", "1e-400", "123456789012345678901234567890"};
    return t[r.below(sizeof t / sizeof *t)];
  }
  inline std::string mutated(Rng& r, std::string t) {
    for (size_t n = 1 + r.below(3); n > 0; --n) {
      size_t p = r.below(t.size() + 1);
      switch (r.below(9)) {
        case 0: if (p < t.size()) t.erase(p, 1 + r.below(3)); break;
        case 1: t.insert(p, token(r)); break;
        case 2: if (p < t.size()) t[p] = "{}[],:\"\\0123456789-+.eEtfn /*\0NI"[r.below(33)]; break;
        case 3: if (p < t.size()) t[p] = static_cast<char>(static_cast<unsigned char>(t[p]) ^ (1u << r.below(8))); break;
        case 4: t.resize(p); break;
        case 5: { size_t q = r.below(t.size() + 1); if (q > p) t.insert(q, t.substr(p, std::min<size_t>(q - p, 40))); break; }
        case 6: t += token(r); break;
        case 7: t.insert(p, 1, '\0'); if (r.chance(1, 2)) { t += '\0'; t += token(r); } break;
        default: { size_t q = t.find_first_of("{}[]:,", p); if (q != std::string::npos) t[q] = "{}[]:,"[r.below(6)]; break; }
      }
    }
    return t;
  }
  inline std::string number_text(Rng& r) {
    Gen g(r, GenOpt());
    char b[500];
    switch (r.below(9)) {
      case 0: return std::to_string(g.integer());
      case 1: { std::string s = std::to_string(r.next()); if (r.chance(1, 2)) s += std::to_string(r.next()); return (r.chance(1, 2) ? "-" : "") + s; }
      case 2: snprintf(b, sizeof b, "%.17g", g.decimal()); return b;
      case 3: snprintf(b, sizeof b, "%.*e", static_cast<int>(r.below(30)), g.decimal()); return b;
      case 4: snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(60)), g.decimal()); return b;
      case 5: snprintf(b, sizeof b, "%d.%llue%d", static_cast<int>(r.range(-9, 9)), static_cast<unsigned long long>(r.next()), static_cast<int>(r.range(-330, 310))); return b;
      case 6: { static char const* const e[] = {"0", "-0", "-0.0", "0.0", "0e0", "0E-0", "-0e5", "1E5", "1e+5", "1e05", "9007199254740993", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.7976931348623157e308", "2.2250738585072014e-308", "4.9406564584124654e-324", "1e-320", "1e-400", "100000000000000000000"}; return e[r.below(sizeof e / sizeof *e)]; }
      case 7: { static char const* const e[] = {"00", "01", "-", "-01", "+1", "1.", ".1", "1.e5", "1e", "1e+", "1.5.5", "1e5.5", "0x10", "1_000", "--1", "1-", "Infinity", "NaN", "-NaN", "-Infinity", "Inf", "inf", "nan", "1e400", "-1e400", "1.8e308"}; return e[r.below(sizeof e / sizeof *e)]; }
      default: { std::string s = "0."; s += std::string(r.below(20), '0'); s += std::to_string(r.next()); if (r.chance(1, 2)) s += "e" + std::to_string(r.range(-290, 290)); return s; }
    }
  }
  inline std::string string_text(Rng& r) {
    std::string s = "\"";
    char b[32];
    for (size_t n = r.below(12); n > 0; --n) {
      switch (r.below(10)) {
        case 0: s += '\\'; s += "\"\\/bfnrt"[r.below(8)]; break;
        case 1: snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", static_cast<unsigned>(r.below(0x10000))); s += b; break;
        case 2: { unsigned c = static_cast<unsigned>(r.below(0x100000)); snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + (c >> 10), 0xDC00 + (c & 0x3ff)); s += b; break; }
        case 3: s += "\\u0000"; break;
        case 4: { Gen g(r, GenOpt()); g.put_cp(s, static_cast<uint32_t>(r.chance(1, 2) ? 0x80 + r.below(0x700) : 0x10000 + r.below(0x100000))); break; }
        case 5: if (r.chance(1, 8)) s += static_cast<char>(r.below(32)); break;
        case 6: if (r.chance(1, 8)) { s += '\\'; s += static_cast<char>('a' + r.below(26)); } break;
        case 7: if (r.chance(1, 10)) { s += "\\u"; s += "12g"; } else if (r.chance(1, 10)) s += static_cast<char>(0x80 + r.below(128)); break;
        default: s += static_cast<char>('#' + r.below(57)); break;
      }
    }
    for (auto& c : s) if (&c != &s[0] && c == '\\' && &c == &s[s.size() - 1]) c = 'z';
    s += '"';
    return s;
  }
  // Texts whose finalized form is largest in proportion to the text
  inline std::string dense_text(Rng& r) {
    static char const* const item[] = {"[]", "{}", "0", "1", "null", "\"\"", "true", "1.5", "{\"\":0}", "[[]]", "[0]", "{\"\":{}}", "1e9", "3000000000"};
    std::string t; bool obj = r.chance(1, 3); size_t n = r.chance(1, 4) ? r.below(400) : r.below(12);
    std::string one = item[r.below(sizeof item / sizeof *item)]; bool mix = r.chance(1, 3);
    std::string key;
    t = obj ? "{" : r.chance(1, 2) ? "{\"\":[" : "{\"k\":[";
    for (size_t k = 0; k < n; ++k) {
      if (k) t += ',';
      if (obj) { t += '"'; if (k) t += static_cast<char>('a' + k % 26); if (k >= 27) t += std::to_string(k); t += "\":"; }
      t += mix ? item[r.below(sizeof item / sizeof *item)] : one.c_str();
    }
    t += obj ? "}" : "]}";
    if (r.chance(1, 3)) { size_t d = r.below(60); std::string a, z; for (size_t k = 0; k < d; ++k) { if (r.chance(1, 2)) { a += "{\"\":"; z.insert(0, "}"); } else if (k) { a += "["; z.insert(0, "]"); } } t = "{\"\":" + a + t + z + "}"; }
    return t;
  }
}
