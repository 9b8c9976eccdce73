// A pattern matches exactly the encoded forms of what it denotes.
#include "icuenc.h"
#include <lightgrep/transforms.h>

static const size_t NCANON = sizeof(LG_CANONICAL_ENCODINGS) / sizeof(LG_CANONICAL_ENCODINGS[0]);
static const size_t NNAMES = sizeof(LG_ENCODINGS) / sizeof(LG_ENCODINGS[0]);

// An encoding, under its canonical name or another. To keep the cost of the
// models down each run of the generator looks at some of them only.
static const IcuEnc& genEnc(Src& s, std::string& nm) {
  if (s.chance(1, 4)) {
    static const char* uni[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "gb18030-2022", "windows-936-2000", "ibm-943_P15A-2003", "windows-950-2000", "euc-jp-2007", "ibm-1252_P100-2000", "ibm-37_P100-1995"};
    nm = uni[s.below(12)];
    return icuEnc(nm);
  }
  size_t k = s.below(NCANON);
  const IcuEnc& e = icuEnc(LG_CANONICAL_ENCODINGS[k]);
  nm = LG_CANONICAL_ENCODINGS[k];
  if (s.chance(1, 3)) {
    std::vector<const char*> al;
    for (auto& x : LG_ENCODINGS) if (x.idx == k) al.push_back(x.name);
    if (!al.empty()) nm = s.pick(al);
  }
  return e;
}
static std::vector<uint32_t> alphaOf(Src& s, const IcuEnc& e, bool foreign = false) {
  std::vector<uint32_t> a;
  for (size_t n = 2 + s.below(3); n; --n) {
    uint32_t c = s.chance(1, 4) ? 'a' + (uint32_t) s.below(4) : e.round.nth(s.below(e.round.size()));
    if (s.chance(1, 4) && !a.empty()) c = a.back() + 1;
    if (e.round.has(c)) a.push_back(c);
  }
  if (a.empty()) a.push_back(e.round.nth(0));
  if (foreign && s.chance(1, 12)) a.push_back(s.pick(std::vector<uint32_t>{0xE9, 0x416, 0x3B1, 0x5D0, 0xE01, 0x4E00, 0x3042, 0xAC00, 0x1F600, 0x20000, 0x10FFFF}));
  if (a.size() < 2) a.push_back(e.round.nth(e.round.size() / 2));
  std::sort(a.begin(), a.end());
  a.erase(std::unique(a.begin(), a.end()), a.end());
  return a;
}

static void patterns(Case& c) {
  Src& s = c.s;
  std::string nm;
  const IcuEnc& e = genEnc(s, nm);
  c.require(!e.round.empty());
  if (!e.plain) { c.label("stateful encoding"); return; }
  GenOpts o;
  o.alpha = alphaOf(s, e, true);
  o.nullableLoops = false; o.empties = false; o.dot = false; o.negclass = false;
  o.maxExpanded = 16; o.depth = 2; o.maxRanges = 25; o.uni = false;
  o.ci = s.chance(1, 8);
  Pat p;
  if (s.chance(1, 2)) { std::vector<uint32_t> w; for (size_t n = 1 + s.small(5); n; --n) w.push_back(s.pick(o.alpha)); p = literalPat(w, s.chance(1, 2), o.ci, s.chance(1, 2)); }
  else p = genPattern(s, o);
  Bytes t = genText(s, {&p}, e, o.alpha, 120);
  uint32_t depth = p.has(Node::REP) ? (uint32_t) s.below(4) : genDepth(s, p.expanded() * 2);
  c.note("pattern", [&] { return cat(quote(p.text), p.fixed ? " fixed" : "", " ci=", p.ci, " uni=", p.uni, " ", nm, " (", e.name, ") depth=", depth); });
  c.note("meaning", [&] { return p.ast(); });
  c.note("text", [&] { return hex(t); });
  c.ident(p.text + nm + t);
  // characters with a one-way mapping are left out of the comparison
  for (auto& n : p.n) if (n.t == Node::CHARS) {
    c.require((n.set & e.oneWay).empty());
    // thousands of unrelated byte sequences take minutes to compile inside repetitions
    c.require((n.set & e.round).size() < 800 || !strncmp(e.name.c_str(), "UTF", 3));
  }
  Lg g;
  Pat::Fit f = p.fits(e);
  bool ok = g.build({{p.text, p.fixed, p.ci, p.uni, nm, 0}}, depth);
  if (!ok) {
    if (f != Pat::FITS) { c.check(!g.err.empty(), "no message"); c.label("unencodable: rejected"); return; }
    c.fail(cat(quote(p.text), " was rejected in ", nm, ": ", g.err));
  }
  c.check(f != Pat::NOFIT, cat(quote(p.text), " has characters not in ", nm, " but was accepted"));
  auto want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  c.note("hits", [&] { return hitsStr(got); });
  if (want != got) c.fail(cat(quote(p.text), " in ", nm, ": expected ", hitsStr(want), " got ", hitsStr(got), " in ", hex(t)));
  if (!want.empty()) { c.nontrivial = true; c.label("has hits"); }
}

// a class against (nearly) every character of the encoding
static void members(Case& c) {
  Src& s = c.s;
  std::string nm;
  const IcuEnc& e = genEnc(s, nm);
  c.require(!e.round.empty());
  if (!e.plain) { c.label("stateful encoding"); return; }
  GenOpts o;
  o.richClasses = s.chance(1, 2);
  o.alpha = alphaOf(s, e);
  o.ci = s.chance(1, 4); o.uni = s.chance(1, 2);
  ClassExpr x;
  if (s.chance(1, 6)) { x.text = "."; x.set = CpSet(0, MAXCP); }
  else x = genClass(s, o, 2);
  c.require(!x.err);
  CpSet in = x.set & e.round;
  c.note("class", [&] { return cat(quote(x.text), " ci=", o.ci, " uni=", o.uni, " ", nm); });
  c.note("set", [&] { return x.set.str(); });
  c.ident(x.text + nm + (o.ci ? "i" : "") + (o.uni ? "u" : ""));
  Lg g;
  bool ok = g.build({{x.text, false, o.ci, o.uni, nm, 0}}, (uint32_t) s.below(3));
  if (in.empty()) { c.check(!ok, cat(quote(x.text), " has nothing in ", nm, " but was accepted")); c.label("nothing in encoding: rejected"); return; }
  c.check(ok, cat(quote(x.text), " was rejected in ", nm, ": ", g.err));
  // each character on its own
  std::vector<uint32_t> cps;
  uint64_t n = e.round.size();
  if (n <= 300) for (uint64_t i = 0; i < n; ++i) cps.push_back(e.round.nth(i));
  else {
    uint64_t from = s.below(n);
    for (int i = 0; i < 150; ++i) cps.push_back(e.round.nth((from + i) % n));
    uint64_t m = in.size();
    for (int i = 0; i < 60; ++i) cps.push_back(in.nth(s.below(m)));
    for (size_t i = 0; i < in.r.size() && i < 20; ++i) for (uint32_t d : {in.r[i].first - 1, in.r[i].first, in.r[i].second, in.r[i].second + 1}) if (e.round.has(d)) cps.push_back(d);
    for (int i = 0; i < 30; ++i) cps.push_back(e.round.nth(s.below(n)));
  }
  unsigned yes = 0, no = 0;
  for (uint32_t cp : cps) {
    Bytes b = e.encode(cp);
    lg_reset_context(g.ctx);
    auto h = searchAll(g.ctx, b);
    bool hit = !h.empty() && h[0].start == 0 && h[0].end == b.size();
    // a part of the character may itself be the code of a member
    bool part = !hit && !h.empty();
    if (hit != x.set.has(cp)) c.fail(cat(quote(x.text), " ci=", o.ci, " uni=", o.uni, " in ", nm, hit ? " matches " : " does not match ", CpSet(cp, cp).str(), " = ", hex(b)));
    if (part) {
      uint32_t d; const unsigned char* q = (const unsigned char*) b.data();
      for (auto& y : h) if (e.decode(q + y.start, q + b.size(), d) != y.end - y.start || !x.set.has(d)) c.fail(cat(quote(x.text), " in ", nm, " matches ", y.start, "-", y.end, " of ", hex(b), ", which is no member"));
    }
    ++(hit ? yes : no);
  }
  c.label("characters checked", yes + no);
  if (yes && no) c.nontrivial = true;
}

// transformation chains, and names that are none
static void chains(Case& c) {
  Src& s = c.s;
  std::string nm;
  const IcuEnc& e = genEnc(s, nm);
  c.require(e.plain);
  std::string chain;
  for (size_t n = s.small(2); n; --n) chain += "identity|";
  chain += nm;
  unsigned oces = 0;
  for (size_t n = s.small(3); n; --n) if (s.chance(1, 2)) { chain += "|OCE"; ++oces; } else chain += "|identity";
  auto a = alphaOf(s, e);
  std::vector<uint32_t> w;
  for (size_t n = 1 + s.small(6); n; --n) w.push_back(s.pick(a));
  Pat p = literalPat(w, s.chance(1, 2), false, false);
  // a class at the end, now and then
  CpSet last(w.back(), w.back());
  if (!p.fixed && s.chance(1, 2)) { last.add(a[0]); last.add(a.back()); p.text += "[" + renderChar(s, a[0], true, true) + renderChar(s, a.back(), true, true) + renderChar(s, w.back(), true, true) + "]";
    Node x; x.t = Node::CHARS; x.set = last; int id = p.add(x); Node q; q.t = Node::CAT; q.l = p.root; q.r = id; p.root = p.add(q); }
  Bytes t = genText(s, {&p}, e, a, 100), u = t;
  for (unsigned k = 0; k < oces; ++k) for (auto& ch : u) ch = (char) oce()[(unsigned char) ch];
  c.note("pattern", [&] { return cat(quote(p.text), p.fixed ? " fixed" : "", " in ", chain); });
  c.note("text", [&] { return hex(u); });
  c.ident(p.text + chain + u);
  for (auto& n : p.n) if (n.t == Node::CHARS) c.require((n.set & e.oneWay).empty());
  Lg g;
  c.check(g.build({{p.text, p.fixed, false, false, chain, 0}}, (uint32_t) s.below(3)), cat(quote(p.text), " was rejected in ", chain, ": ", g.err));
  auto want = Matcher(p, e).all(t), got = searchAll(g.ctx, u);
  if (want != got) c.fail(cat(quote(p.text), " in ", chain, ": expected ", hitsStr(want), " got ", hitsStr(got), " in ", hex(u)));
  LG_PatternInfo* pi = lg_prog_pattern_info(g.prog, 0);
  c.check(pi && chain == pi->EncodingChain, "the encoding chain is reported as " + std::string(pi ? pi->EncodingChain : "(none)") + ", was " + chain);
  if (!want.empty() && chain != nm) c.nontrivial = true;
}
static void badNames(Case& c) {
  Src& s = c.s;
  std::string chain;
  auto word = [&] { std::string w; for (size_t n = s.small(8); n; --n) w += s.pick(std::string("abUTF-8_16LEOC isoX0|,;\xC3\xA9")); return w; };
  switch (s.below(6)) {
  case 0: chain = word(); break;
  case 1: chain = std::string("OCE|") + LG_CANONICAL_ENCODINGS[s.below(NCANON)]; break;
  case 2: chain = cat(LG_CANONICAL_ENCODINGS[s.below(NCANON)], "|", LG_CANONICAL_ENCODINGS[s.below(NCANON)]); break;
  case 3: chain = cat(LG_CANONICAL_ENCODINGS[s.below(NCANON)], "|", word(), "x"); break;
  case 4: chain = s.pick(std::vector<std::string>{"identity", "identity|identity", "|", "", "||", "OCE", "rot13|UTF-8", "UTF-8|XOR5", "UTF-8 ", " UTF-8", "UTF-8|OCE|UTF-8"}); break;
  case 5: { chain = LG_CANONICAL_ENCODINGS[s.below(NCANON)]; chain.insert(s.below(chain.size() + 1), 1, s.pick(std::string("x!~ \x01"))); break; }
  }
  // independently: is every step known? (ICU's own aliases may be taken too)
  bool ok = false, maybe = false;
  {
    std::vector<std::string> st; std::string cur;
    for (char ch : chain + "|") if (ch == '|') { if (!cur.empty()) st.push_back(cur); cur.clear(); } else cur += ch;
    size_t k = 0;
    while (k < st.size() && st[k] == "identity") ++k;
    if (k < st.size()) {
      for (auto& x : LG_ENCODINGS) if (st[k] == x.name) ok = true;
      if (!ok) { UErrorCode ec = U_ZERO_ERROR; UConverter* u = ucnv_open(st[k].c_str(), &ec); if (U_SUCCESS(ec)) maybe = true; ucnv_close(u); }
      for (++k; k < st.size(); ++k) if (st[k] != "identity" && st[k] != "OCE") ok = false;
    }
  }
  c.note("chain", [&] { return quote(chain); });
  c.ident(chain);
  Lg g;
  // with a good pattern before and after it, which must survive
  c.check(g.add({"ab", false, false, false, "ASCII", 1}) == 0, "ASCII pattern rejected");
  int r = g.add({"ab", false, false, false, chain, 2});
  if (maybe) c.label("a name only ICU knows");
  else if (!ok) {
    c.check(r < 0, "unknown encoding was accepted: " + quote(chain));
    c.check(!g.err.empty(), "no message");
    c.check(g.add({"b", false, false, false, "ASCII", 3}) == 1, "a good pattern after a bad one was rejected or misnumbered");
    c.check(g.compile(1) && g.context(), g.err);
    std::vector<Hit> got = sorted(searchAll(g.ctx, "xabb"));
    c.check(hitsStr(got) == "[(1,3)#0 (2,3)#1 (3,4)#1]", "hits after a rejected pattern: " + hitsStr(got));
    c.nontrivial = true;
  }
  else c.label("a valid chain after all");
}
// the same pattern in several encodings at once: hits of each, and each only
static void together(Case& c) {
  Src& s = c.s;
  static const char* N[] = {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ISO-8859-1", "ibm-1251_P100-1995", "ibm-37_P100-1995", "windows-936-2000", "ibm-943_P15A-2003"};
  std::vector<const IcuEnc*> es; std::vector<PatSpec> sp;
  std::vector<uint32_t> pool = {'a', 'b', 'A', '1', ' ', 0xE9, 0x416, 0x430, 0x4E00, 0x3042};
  std::vector<uint32_t> w;
  for (size_t n = 1 + s.small(4); n; --n) w.push_back(s.pick(pool));
  const bool ci = s.chance(1, 3);
  Pat p = literalPat(w, s.chance(1, 2), ci, true);
  size_t n = 2 + s.below(4);
  for (size_t k = 0; k < n; ++k) {
    const char* nm = s.pick(std::vector<const char*>(N, N + 11));
    const IcuEnc& e = icuEnc(nm);
    if (p.fits(e) != Pat::FITS) continue;
    es.push_back(&e); sp.push_back({p.text, p.fixed, ci, true, nm, k});
  }
  c.require(es.size() >= 2);
  Bytes t;
  for (size_t k = 1 + s.small(4); k; --k) t += genText(s, {&p}, *s.pick(es), w, 40);
  uint32_t depth = (uint32_t) s.below(4);
  c.note("pattern", [&] { std::string o = quote(p.text); for (auto& x : sp) o += " " + x.enc; return cat(o, " ci=", ci, " depth=", depth); });
  c.note("text", [&] { return hex(t); });
  c.ident(p.text + t);
  Lg g;
  c.check(g.build(sp, depth), "rejected: " + g.err);
  auto by = byKeyword(searchAll(g.ctx, t), sp.size());
  unsigned with = 0;
  for (size_t k = 0; k < sp.size(); ++k) {
    auto want = Matcher(p, *es[k]).all(t, (uint32_t) k);
    if (want != by[k]) c.fail(cat(quote(p.text), " in ", sp[k].enc, ": expected ", hitsStr(want), " got ", hitsStr(by[k]), " in ", hex(t)));
    with += !want.empty();
  }
  if (with >= 2) c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C08";
  s.rule = "Over every encoding lightgrep lists (under canonical names and aliases): generated patterns and classes against models built from ICU's converters one character at a time (characters encodable both ways; stateful encodings such as ISO-2022 are only labelled), chains with identity and OCE steps against texts transformed by an independent table, unknown names and malformed chains (rejected, leaving the other patterns intact), and one pattern in several encodings at once. Non-trivial: hits (patterns, chains); members and non-members both probed; a rejected chain; hits in at least two encodings.";
  s.parts = {
    {"patterns", patterns, 40000, 400000},
    {"members", members, 8000, 80000},
    {"chains", chains, 20000, 200000},
    {"names", badNames, 10000, 50000},
    {"together", together, 20000, 200000},
  };
  return s;
}
