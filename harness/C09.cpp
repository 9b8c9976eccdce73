// Character classes and named sets match exactly the code points they denote.
#include "common.h"
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/uset.h>
#include <unicode/ustring.h>

static const char* ENC[] = {"UTF-8", "ASCII", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};

// characters around every boundary of the set, and some others
static std::vector<uint32_t> probes(Src& s, const CpSet& set, const std::vector<uint32_t>& alpha) {
  std::vector<uint32_t> v;
  size_t n = set.r.size();
  for (size_t k = 0; k < n && k < 12; ++k) {
    auto& r = set.r[n <= 12 ? k : s.below(n)];
    for (uint32_t c : {r.first - 1, r.first, r.second, r.second + 1}) v.push_back(c);
    v.push_back(r.first + (uint32_t) s.below((uint64_t) r.second - r.first + 1));
  }
  for (uint32_t c : alpha) { v.push_back(c); v.push_back(c ^ 32); v.push_back(c + 1); }
  for (int k = 0; k < 6; ++k) v.push_back((uint32_t) s.small(MAXCP));
  for (uint32_t c : {0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xD7FFu, 0xE000u, 0xFFFFu, 0x10000u, 0x10FFFFu, 0x41u, 0x39u, 0x5Fu, 0x20u, 0x85u}) v.push_back(c);
  return v;
}

static void points(Case& c) {
  Src& s = c.s;
  const Enc& e = encByName(ENC[s.below(7)]);
  GenOpts o;
  o.richClasses = true; o.emptyClasses = true;
  o.alpha = genAlphabet(s, (int) s.below(4));
  o.ci = s.chance(1, 3); o.uni = s.chance(1, 2);
  ClassExpr x = genClass(s, o, 3);
  Pat p; p.ci = o.ci; p.uni = o.uni;
  Node n; n.t = Node::CHARS; n.set = x.set;
  p.root = p.add(n); p.text = x.text;
  uint32_t depth = s.pick(std::vector<uint32_t>{0, 1, 2, UINT32_MAX});
  c.note("class", [&] { return quote(p.text); });
  c.note("opts", [&] { return cat("enc=", e.name, " ci=", p.ci, " uni=", p.uni, " depth=", depth); });
  c.note("set", [&] { return x.set.str(); });
  c.ident(p.text + e.name);
  Lg g;
  bool ok = g.build({{p.text, false, p.ci, p.uni, e.name, 0}}, depth);
  if (x.err) {
    c.check(!ok, "a class without members was accepted: " + quote(p.text));
    c.label("empty: rejected");
    c.nontrivial = true;
    return;
  }
  Pat::Fit f = p.fits(e);
  if (f != Pat::FITS) { c.check(!ok, cat("a class with nothing in ", e.name, " was accepted: ", quote(p.text))); c.label("not in encoding: rejected"); return; }
  c.check(ok, "class was rejected: " + quote(p.text) + " " + g.err);
  Bytes t; unsigned in = 0, out = 0;
  for (uint32_t cp : probes(s, x.set, o.alpha)) { Bytes b = e.encode(cp); if (!b.empty()) ++(x.set.has(cp) ? in : out); t += b; }
  for (size_t k = s.below(4); k; --k) t += (char) s.below(256);
  c.note("text", [&] { return hex(t.substr(0, 100)); });
  std::vector<Hit> want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  if (want != got) c.fail(cat("class ", quote(p.text), " in ", e.name, " ci=", p.ci, " uni=", p.uni, ": expected ", hitsStr(want), " got ", hitsStr(got), " in ", hex(t)));
  if (in && out) c.nontrivial = true;
  c.label("probes", in + out);
}

// classes with raw bytes, in encodings where no byte is also the start of a
// longer member
static void withBytes(Case& c) {
  Src& s = c.s;
  const int k = (int) s.below(3);
  const Enc& e = encByName(k == 0 ? "ASCII" : k == 1 ? "ISO-8859-1" : "UTF-8");
  GenOpts o;
  o.richClasses = false; o.emptyClasses = true; o.classBytes = true;
  o.alpha = k == 2 ? genAlphabet(s, 0) : genAlphabet(s, 3);
  o.negclass = true;
  o.ci = s.chance(1, 3); o.uni = s.chance(1, 2);
  o.escapes = s.chance(1, 2);
  for (int i = 0; i < 4; ++i) {
    unsigned b = (unsigned) s.below(256);
    if (k == 2) b = s.chance(1, 2) ? b & 0x7F : 0x80 | (b & 0x3F);
    o.byteAlpha.push_back(b);
  }
  o.byteAlpha.push_back(o.alpha[0] & 0x7F);
  o.byteAlpha.push_back((o.alpha[0] & 0x7F) + 1 & 0x7F);
  ClassExpr x = genClass(s, o, 2);
  Pat p; p.ci = o.ci; p.uni = o.uni;
  Node n; n.t = Node::CHARS; n.set = x.set; n.bytes = x.bytes;
  // a byte that starts a longer member would be ambiguous
  if (k == 2 && !x.bytes.empty()) for (unsigned b = 0xC0; b < 256; ++b) c.require(!x.bytes[b] || x.set.empty());
  p.root = p.add(n); p.text = x.text;
  if (s.chance(1, 3)) {                                     // in front of something
    Node m; m.t = Node::CHARS; m.set = CpSet('a', 'a');
    int l = p.root, r = p.add(m);
    Node q; q.t = Node::CAT; q.l = l; q.r = r; p.root = p.add(q);
    if (p.ci) p.n[r].set = foldClosure(p.n[r].set, !p.uni);
    p.text += "a";
  }
  c.note("class", [&] { return quote(p.text); });
  c.note("opts", [&] { return cat("enc=", e.name, " ci=", p.ci, " uni=", p.uni); });
  c.note("set", [&] { return p.ast(); });
  Lg g;
  bool ok = g.build({{p.text, false, p.ci, p.uni, e.name, 0}}, (uint32_t) s.below(3));
  if (x.err) { c.check(!ok, "a class without members was accepted: " + quote(p.text)); c.label("empty: rejected"); return; }
  if (p.fits(e) != Pat::FITS) { c.check(!ok, "a class with nothing in the encoding was accepted: " + quote(p.text)); return; }
  c.check(ok, "class was rejected: " + quote(p.text) + " " + g.err);
  Bytes t;
  for (unsigned b = 0; b < 256; ++b) { t += (char) b; if (s.chance(1, 4)) t += 'a'; if (s.chance(1, 8)) t += 'a'; }
  for (int i = 0; i < 40; ++i) { Bytes b; if (s.chance(2, 3) && sampleMatch(s, p, e, b)) t += b; else t += e.encode(s.pick(o.alpha)); }
  c.ident(p.text + t);
  std::vector<Hit> want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  if (want != got) c.fail(cat("class ", quote(p.text), " in ", e.name, " ci=", p.ci, " uni=", p.uni, ": expected ", hitsStr(want, 300), " got ", hitsStr(got, 300), " in ", hex(t)));
  if (!x.bytes.empty()) { c.label("raw bytes"); c.nontrivial = true; }
}

// negated classes with raw bytes in them: with characters too, none of the
// characters encoded as those bytes; with bytes only, any other byte
static void negatedBytes(Case& c) {
  Src& s = c.s;
  static const char* encs[] = {"ASCII", "ISO-8859-1", "UTF-8", "UTF-8", "UTF-16LE"};
  const Enc& e = encByName(encs[s.below(5)]);
  const bool ci = s.chance(1, 3), uni = s.chance(1, 2);
  std::vector<uint32_t> alpha = genAlphabet(s, (int) s.below(4));
  CpSet chars; std::vector<bool> bytes(256, false); bool anyByte = false, anyChar = false;
  std::string text = "[^";
  for (size_t n = 1 + s.small(5); n; --n) {
    char b[32];
    if (s.chance(1, 2)) {
      unsigned v = s.chance(1, 3) ? (unsigned) s.below(256) : s.chance(1, 2) ? s.pick(alpha) & 0xFF : 'a' + (unsigned) s.below(4);
      unsigned w = s.chance(1, 4) ? std::min(255u, v + 1 + (unsigned) s.small(8)) : v;
      if (w > v) snprintf(b, sizeof b, "\\z%02X-\\z%02x", v, w); else snprintf(b, sizeof b, "\\z%02X", v);
      for (unsigned k = v; k <= w; ++k) bytes[k] = true;
      anyByte = true;
    }
    else {
      uint32_t v = s.chance(1, 3) ? 'a' + (uint32_t) s.below(6) : s.pick(alpha);
      snprintf(b, sizeof b, "\\x{%X}", v);
      chars.add(v); anyChar = true;
    }
    text += b;
  }
  text += "]";
  c.require(anyByte);
  Pat p; p.ci = ci; p.uni = uni;
  Node n; n.t = Node::CHARS;
  if (anyChar) {
    n.set = ~(ci ? foldClosure(chars, !uni) : chars);
    for (uint32_t k = 0; k < 256; ++k) { Bytes b = e.encode(k); if (b.size() == 1 && bytes[(unsigned char) b[0]]) n.set = n.set - CpSet(k, k); }
  }
  else { n.bytes.assign(256, false); for (int k = 0; k < 256; ++k) n.bytes[k] = !bytes[k]; }
  p.root = p.add(n); p.text = text;
  if (s.chance(1, 3)) {                                   // twice over
    p.text += p.text;
    Node q; q.t = Node::CAT; q.l = p.root; q.r = p.root; p.root = p.add(q);
  }
  uint32_t depth = (uint32_t) s.below(3);
  c.note("class", [&] { return quote(p.text); });
  c.note("opts", [&] { return cat("enc=", e.name, " ci=", p.ci, " uni=", p.uni, " depth=", depth); });
  c.note("set", [&] { return p.ast(); });
  c.require(p.fits(e) == Pat::FITS);
  Lg g;
  c.check(g.build({{p.text, false, ci, uni, e.name, 0}}, depth), "class was rejected: " + quote(p.text) + " " + g.err);
  Bytes t;
  for (unsigned b = 0; b < 256; ++b) if (s.chance(1, 2)) t += (char) b;
  for (uint32_t cp : probes(s, n.set.empty() ? chars : n.set, alpha)) t += e.encode(cp);
  c.ident(p.text + e.name + t);
  std::vector<Hit> want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  if (want != got) c.fail(cat("class ", quote(p.text), " in ", e.name, " ci=", p.ci, " uni=", p.uni, ": expected ", hitsStr(want, 300), " got ", hitsStr(got, 300), " in ", hex(t)));
  if (!want.empty()) c.nontrivial = true;
}

// bytes which are almost encodings of members: a byte off by a little or set to
// where the ranges of some encoding end, missing, or doubled
static void malformed(Case& c) {
  Src& s = c.s;
  static const unsigned char EDGE[] = {0x00, 0x01, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0x10, 0x11, 0xFF};
  const Enc& e = encByName(s.chance(1, 2) ? "UTF-8" : ENC[s.below(7)]);
  GenOpts o;
  o.richClasses = true;
  o.alpha = genAlphabet(s, (int) s.below(4));
  o.ci = s.chance(1, 6); o.uni = s.chance(2, 3);
  ClassExpr x;
  switch (s.below(5)) {
  case 0: x.text = "."; x.set = ~CpSet(); break;
  case 1: {                                               // nearly everything
    uint32_t a = s.pick(o.alpha), b = a + (uint32_t) s.small(300);
    if (a <= 0xDFFF && b >= 0xD800) b = 0xD7FF;
    c.require(a < b && b <= MAXCP);
    char buf[64]; snprintf(buf, sizeof buf, "[^\\x{%X}-\\x{%X}]", a, b);
    x.text = buf; x.set = CpSet(a, b); if (o.ci) x.set = foldClosure(x.set, !o.uni); x.set = ~x.set;
    break;
  }
  case 2: {                                               // one wide range
    uint32_t a = (uint32_t) s.small(0xFFFF), b = a + 1 + (uint32_t) s.below(MAXCP - a);
    if (a >= 0xD800 && a <= 0xDFFF) a = 0xE000;
    if (b >= 0xD800 && b <= 0xDFFF) b = 0xD7FF;
    c.require(a < b);
    o.ci = false;
    char buf[64]; snprintf(buf, sizeof buf, "[\\x{%X}-\\x{%X}]", a, b);
    x.text = buf; x.set = CpSet(a, b);
    break;
  }
  default: x = genClass(s, o, 2);
  }
  c.require(!x.err);
  Pat p; p.ci = o.ci; p.uni = o.uni;
  Node n; n.t = Node::CHARS; n.set = x.set;
  p.root = p.add(n); p.text = x.text;
  c.require(p.fits(e) == Pat::FITS);
  if (s.chance(1, 3)) {                                   // twice over
    p.text += p.text;
    Node q; q.t = Node::CAT; q.l = p.root; q.r = p.root; p.root = p.add(q);
  }
  uint32_t depth = s.pick(std::vector<uint32_t>{0, 1, 2, UINT32_MAX});
  c.note("class", [&] { return quote(p.text); });
  c.note("opts", [&] { return cat("enc=", e.name, " ci=", p.ci, " uni=", p.uni, " depth=", depth); });
  Lg g;
  c.check(g.build({{p.text, false, p.ci, p.uni, e.name, 0}}, depth), "class was rejected: " + quote(p.text) + " " + g.err);
  Bytes t; unsigned near = 0;
  std::vector<uint32_t> pr = probes(s, x.set, o.alpha);
  for (int k = 0; k < 60; ++k) {
    Bytes b = e.encode(s.chance(1, 2) ? s.pick(pr) : x.set.nth(s.below(x.set.size())));
    if (b.empty()) continue;
    const size_t i = s.below(b.size());
    switch (s.below(8)) {
    case 0: b[i] = (char) (b[i] + 1); break;
    case 1: b[i] = (char) (b[i] - 1); break;
    case 2: b.erase(i, 1); break;
    case 3: b.insert(i, 1, b[i]); break;
    case 4: break;
    default: b[i] = (char) EDGE[s.below(sizeof EDGE)]; if (s.chance(1, 4)) b[s.below(b.size())] = (char) EDGE[s.below(sizeof EDGE)];
    }
    t += b; ++near;
  }
  c.ident(p.text + e.name + t);
  c.note("text", [&] { return hex(t); });
  std::vector<Hit> want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  if (want != got) c.fail(cat("class ", quote(p.text), " in ", e.name, " ci=", p.ci, " uni=", p.uni, ": expected ", hitsStr(want, 100), " got ", hitsStr(got, 100), " in ", hex(t)));
  if (!want.empty() && want.size() < near) c.nontrivial = true;
}

// every code point there is
struct Everything { Bytes text; std::vector<uint32_t> off; std::vector<uint32_t> cps; };
static const Everything& everything(const Enc& e) {
  static std::map<std::string, Everything> memo;
  Everything& v = memo[e.name];
  if (v.text.empty()) for (uint32_t c = 0; c <= MAXCP; ++c) {
    Bytes b = e.encode(c);
    if (b.empty()) continue;
    v.cps.push_back(c); v.off.push_back((uint32_t) v.text.size()); v.text += b;
  }
  return v;
}
static void compareAll(Case& c, const std::string& text, const CpSet& set, bool ci, bool uni, const Enc& e) {
  Lg g;
  c.check(g.build({{text, false, ci, uni, e.name, 0}}, (uint32_t) c.s.below(3)), "rejected: " + quote(text) + " " + g.err);
  const Everything& v = everything(e);
  std::vector<Hit> got = searchAll(g.ctx, v.text);
  // hits of single characters; those astride two characters cannot happen when
  // the encoding is self-synchronising (UTF-8), and are skipped otherwise
  std::vector<bool> is(v.cps.size(), false);
  const bool self = e.name == "UTF-8" || e.unit() == 1;
  size_t i = 0;
  for (auto& h : got) {
    while (i < v.off.size() && v.off[i] < h.start) ++i;
    bool whole = i < v.off.size() && v.off[i] == h.start && h.end == (i + 1 < v.off.size() ? v.off[i + 1] : v.text.size());
    if (whole) is[i] = true;
    else if (self) c.fail(cat(quote(text), " matched ", h.start, "-", h.end, ", which is no character of ", e.name));
    else return;                                             // a straddling hit hides others: undecided here
  }
  for (size_t k = 0; k < is.size(); ++k)
    if (is[k] != set.has(v.cps[k])) { char b[64]; snprintf(b, sizeof b, "U+%04X", v.cps[k]); c.fail(cat(quote(text), " ci=", ci, " uni=", uni, " enc=", e.name, is[k] ? " matches " : " does not match ", b)); }
  c.label("code points checked", is.size());
  if (!set.empty() && !(~set).empty()) c.nontrivial = true;
}
static void exhaustive(Case& c) {
  Src& s = c.s;
  const Enc& e = encByName(s.pick(std::vector<std::string>{"UTF-8", "UTF-8", "UTF-8", "UTF-32LE", "UTF-32BE", "UTF-16BE"}));
  GenOpts o;
  o.richClasses = true;
  o.alpha = genAlphabet(s, (int) s.below(3));
  o.ci = s.chance(1, 2); o.uni = s.chance(2, 3);
  ClassExpr x = genClass(s, o, 2);
  c.require(!x.err);
  Pat p; Node n; n.t = Node::CHARS; n.set = x.set; p.root = p.add(n);
  c.require(p.fits(e) == Pat::FITS);
  c.note("class", [&] { return cat(quote(x.text), " ci=", o.ci, " uni=", o.uni, " ", e.name); });
  c.note("set", [&] { return x.set.str(); });
  c.ident(x.text + e.name + (o.ci ? "i" : "") + (o.uni ? "u" : ""));
  compareAll(c, x.text, x.set, o.ci, o.uni, e);
}

// named properties; membership as ICU's character database has it, not as
// its pattern parser does
struct Named { std::string name; int kind; int prop; int32_t val; };
static const std::vector<Named>& names() {
  static std::vector<Named> v;
  if (!v.empty()) return v;
  auto put = [&](const char* n, int k, int p, int32_t x) { if (n && *n) v.push_back({n, k, p, x}); };
  for (int p = 0; p < UCHAR_BINARY_LIMIT; ++p) {
    // emoji properties of strings have no set of code points
    for (auto k : {U_LONG_PROPERTY_NAME, U_SHORT_PROPERTY_NAME}) {
      const char* n = u_getPropertyName((UProperty) p, k);
      if (p >= UCHAR_BASIC_EMOJI && p <= UCHAR_RGI_EMOJI) continue;
      put(n, 0, p, 1);
    }
  }
  for (int cat_ = 0; cat_ < U_CHAR_CATEGORY_COUNT; ++cat_)
    for (auto k : {U_LONG_PROPERTY_NAME, U_SHORT_PROPERTY_NAME}) {
      const char* n = u_getPropertyValueName(UCHAR_GENERAL_CATEGORY, cat_, k);
      put(n, 1, UCHAR_GENERAL_CATEGORY, cat_);
      if (n) { put((std::string("gc=") + n).c_str(), 1, UCHAR_GENERAL_CATEGORY, cat_); put((std::string("General_Category=") + n).c_str(), 1, UCHAR_GENERAL_CATEGORY, cat_); }
    }
  for (UProperty p : {UCHAR_SCRIPT, UCHAR_BLOCK, UCHAR_BIDI_CLASS, UCHAR_EAST_ASIAN_WIDTH, UCHAR_LINE_BREAK, UCHAR_NUMERIC_TYPE, UCHAR_CANONICAL_COMBINING_CLASS})
    for (int x = u_getIntPropertyMinValue(p); x <= u_getIntPropertyMaxValue(p); ++x)
      for (auto k : {U_LONG_PROPERTY_NAME, U_SHORT_PROPERTY_NAME}) {
        const char* n = u_getPropertyValueName(p, x, k);
        if (!n) continue;
        for (auto pk : {U_LONG_PROPERTY_NAME, U_SHORT_PROPERTY_NAME}) { const char* pn = u_getPropertyName(p, pk); if (pn) put((std::string(pn) + "=" + n).c_str(), 1, p, x); }
        if (p == UCHAR_SCRIPT) put(n, 2, p, x);
      }
  return v;
}
static const CpSet& memberSet(const Named& n) {
  static std::map<std::pair<int, int32_t>, CpSet> memo;
  auto key = std::make_pair(n.prop, n.val);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  CpSet o;
  uint32_t lo = 0; bool in = false;
  for (uint32_t c = 0; c <= MAXCP + 1; ++c) {
    bool m = c <= MAXCP && (n.kind == 0 ? (bool) u_hasBinaryProperty(c, (UProperty) n.prop) : u_getIntPropertyValue(c, (UProperty) n.prop) == n.val);
    if (m && !in) { lo = c; in = true; }
    else if (!m && in) { o.r.push_back({lo, c - 1}); in = false; }
  }
  return memo[key] = o;
}
static void named(Case& c) {
  Src& s = c.s;
  const Named& n = names()[s.below(names().size())];
  std::string nm = n.name;
  if (s.chance(1, 4)) for (auto& ch : nm) if (s.chance(1, 2)) ch = (char) (isupper((unsigned char) ch) ? tolower(ch) : toupper(ch));
  if (s.chance(1, 6)) for (auto& ch : nm) if (ch == '_') ch = s.chance(1, 2) ? ' ' : '-';
  const CpSet* set = &memberSet(n);
  CpSet tmp;
  bool neg = s.chance(1, 3), br = s.chance(1, 3), ng2 = br && s.chance(1, 2);
  std::string t = std::string(neg ? "\\P{" : "\\p{") + nm + "}";
  if (neg) { tmp = ~*set; set = &tmp; }
  bool uni = s.chance(1, 2);
  if (br) { t = (ng2 ? "[^" : "[") + t + "]"; if (ng2) { tmp = ~*set; set = &tmp; } }
  const Enc& e = encByName(s.chance(3, 4) ? "UTF-8" : "UTF-32LE");
  c.note("class", [&] { return cat(t, " uni=", uni, " ", e.name); });
  c.ident(t + e.name);
  Pat p; Node x; x.t = Node::CHARS; x.set = *set; 
  p.root = p.add(x);
  if (set->empty() || p.fits(e) != Pat::FITS) {
    Lg g;
    c.check(!g.build({{t, false, false, uni, e.name, 0}}, 0), "a set without characters was accepted: " + t);
    c.label("empty: rejected");
    return;
  }
  compareAll(c, t, *set, false, uni, e);
}
// names ICU has never heard of
static void unknown(Case& c) {
  Src& s = c.s;
  std::string nm;
  size_t n = 1 + s.small(12);
  for (size_t i = 0; i < n; ++i) nm += s.chance(1, 8) ? s.pick(std::string("_= :^-&[]{\\")) : (char) ('a' + s.below(26));
  std::string whole = std::string(s.chance(1, 3) ? "\\P{" : "\\p{") + nm + "}";
  UErrorCode ec = U_ZERO_ERROR;
  UChar u[100];
  u_uastrncpy(u, whole.c_str(), 100);
  USet* us = uset_openPattern(u, -1, &ec);
  if (us) uset_close(us);
  c.require(U_FAILURE(ec));
  c.note("pattern", [&] { return quote(whole); });
  c.ident(whole);
  std::string t = s.chance(1, 2) ? whole : "[" + whole + "]";
  Lg g;
  c.check(!g.build({{t, false, s.chance(1, 2), s.chance(1, 2), "UTF-8", 0}}, 0), "unknown property was accepted: " + quote(t));
  c.check(!g.err.empty(), "no error message");
  c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C09";
  s.rule = "Generated class expressions (ranges, named sets, properties, nesting, negation, && -- ~~ chains, literal ] - ^ in their special positions, raw bytes, ASCII/Unicode mode, case folding) over every model encoding, matched against characters on and around every boundary of the set they denote; some against every code point there is ('exhaustive', 'named': every property name and value ICU knows). Classes denoting nothing must be rejected. Non-trivial: the text has characters inside and outside the set (or the class is one to be rejected).";
  s.parts = {
    {"points", points, 60000, 600000},
    {"bytes", withBytes, 40000, 400000},
    {"negated-bytes", negatedBytes, 40000, 400000},
    {"malformed", malformed, 40000, 400000},
    {"exhaustive", exhaustive, 700, 10000},
    {"named", named, 1500, 20000},
    {"unknown", unknown, 3000, 30000},
  };
  return s;
}
