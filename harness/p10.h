// P10: what to_json and operator<< print.
#pragma once
#include "p09.h"
#include <sstream>

namespace vt {
  inline bool finite(V const& v) {
    if (v.k == DEC && !std::isfinite(v.d)) return false;
    for (auto& e : v.a) if (!finite(e)) return false;
    for (auto& e : v.o) if (!finite(e.second)) return false;
    return true;
  }
  // One print of one handle: F are the write flags.
  template <unsigned F, class T>
  void printed(T const& h, V const& v, bool fin, std::string& first, char const* key) {
    bool nan = F & dart::write_nan;
    std::string t;
    if (!fin && !nan) {
      VT_CHECK(throws<std::invalid_argument>([&] { t = h.template to_json<F>(); }, key), std::string(key) + ":nonfinite", "printed " + brief(t) + " for " + show(v, 300));
      count("refused");
    } else {
      t = h.template to_json<F>();
      if (first.empty()) {
        json::Opt o; o.nan = nan && !fin;
        json::Result res = json::parse(t, o);
        VT_CHECK(res.ok, std::string(key) + ":malformed", "text " + brief(t) + " " + res.why + " for " + show(v, 300));
        VT_SAME(v, res.v, (std::string(key) + ":value").c_str());
        first = t;
      }
      VT_CHECK(t == first, std::string(key) + ":text", "prints " + brief(t) + " elsewhere " + brief(first));
      VT_CHECK(t.size() == strlen(t.c_str()), std::string(key) + ":nul", "");
    }
    count("printed");
  }
  template <class T>
  void both(T const& h, V const& v, bool fin, std::string& plain_text, std::string& nan_text, char const* key) {
    printed<dart::write_default>(h, v, fin, plain_text, key);
    printed<dart::write_nan>(h, v, fin, nan_text, key);
    VT_SAME(v, read(h), "print:changed");
  }
  template <class T>
  void streamed(T const& h, V const& v, bool fin, std::string const& text, char const* key) {
    std::ostringstream os; os << "<";
    if (!fin) { VT_CHECK(throws<std::invalid_argument>([&] { os << h; }, key), std::string(key) + ":nonfinite", show(v, 200)); return; }
    os << h << ">";
    VT_CHECK(os.str() == "<" + text + ">", key, brief(os.str()) + " instead of " + brief(text));
    count("streamed");
  }
  template <class T> std::string stream_text(T const& h) { std::ostringstream os; os << h; return os.str(); }

  template <class H, class B, class P>
  void all_prints(V const& v, Rng& r) {
    bool fin = finite(v);
    std::string t, tn;
    H h = build<H>(v, r); P p = build<P>(v, r);
    both(h, v, fin, t, tn, "heap");
    both(p, v, fin, t, tn, "packet");
    if (r.chance(1, 2)) streamed(h, v, fin, t, "stream:heap"); else streamed(p, v, fin, t, "stream:packet");
    auto hv = typename H::view(h); both(hv, v, fin, t, tn, "heap-view");
    auto pv = typename P::view(p); both(pv, v, fin, t, tn, "packet-view");
    // finalized, through a holder where the root is no object
    H holder = H::make_object("k", h);
    B b = holder.lower(); B c = b["k"];
    both(c, v, fin, t, tn, "buffer");
    if (r.chance(1, 2)) streamed(c, v, fin, t, "stream:buffer");
    auto bv = typename B::view(c); both(bv, v, fin, t, tn, "buffer-view");
    P fp = P::make_object("k", p).finalize(); P fc = fp["k"];
    VT_CHECK(fc.is_finalized(), "print:form", "");
    both(fc, v, fin, t, tn, "packet-finalized");
    if (r.chance(1, 2)) streamed(fc, v, fin, t, "stream:packet-finalized");
    P l = fc; l.lift(); both(l, v, fin, t, tn, "lifted");
    if (v.k == OBJ) { B root(h); both(root, v, fin, t, tn, "buffer-root"); }
    // parsing it back
    if (fin && depth(v) < 900) {
      if (v.k >= ARR) {
        H back = H::from_json(S(t)); V w = read(back);
        VT_CHECK(json::close(v, w, default_rel), "parse-back", json::difference(v, w, default_rel));
        if (same(v, w)) VT_CHECK(back == h && !(back != h), "parse-back:equal", "");
        P q = P::from_json(S(t), v.k == OBJ && r.chance(1, 2));
        VT_CHECK(json::close(v, read(q), default_rel), "parse-back:packet", json::difference(v, read(q), default_rel));
        std::string again = H::from_json(S(t)).to_json();
        if (same(v, w)) VT_CHECK(again == t, "parse-back:text", brief(again) + " instead of " + brief(t));
        count("parsed-back");
      }
    } else if (!fin && v.k >= ARR && depth(v) < 900) {
      H back = H::template from_json<dart::parse_nan>(S(tn)); V w = read(back);
      VT_CHECK(json::close(v, w, default_rel), "parse-back:nan", json::difference(v, w, default_rel));
      count("parsed-back-nan");
    }
  }

  template <class X>
  void wrapped(X const& w, V const& v, std::string& t, std::string& tn, bool stream, char const* key) {
    bool fin = finite(v);
    both(w, v, fin, t, tn, key);
    if (stream) streamed(w, v, fin, t, key);
    count("wrapper");
  }
  template <class P>
  void wrappers(V const& v, P const& p, std::string& t, std::string& tn, char const* key) {
    switch (v.k) {
      case OBJ: { typename P::object w(p); wrapped(w, v, t, tn, true, key); break; }
      case ARR: { typename P::array w(p); wrapped(w, v, t, tn, true, key); break; }
      case STR: { typename P::string w(p); wrapped(w, v, t, tn, true, key); break; }
      case INT: case DEC: { typename P::number w(p); wrapped(w, v, t, tn, true, key); break; }
      case BOOL: { typename P::flag w(p); wrapped(w, v, t, tn, true, key); break; }
      case NUL: { typename P::null w(p); wrapped(w, v, t, tn, true, key); break; }
    }
  }
}
