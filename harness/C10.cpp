// Case-insensitivity: exactly the case variants, in exactly the scope asked for.
#include "common.h"
#include <unicode/uchar.h>

static const std::vector<uint32_t>& cased() {
  static std::vector<uint32_t> v;
  if (v.empty()) for (uint32_t c = 0; c <= MAXCP; ++c) if (foldClosure(CpSet(c, c), false).size() > 1) v.push_back(c);
  return v;
}
static std::vector<uint32_t> alphabet(Src& s, bool asciiOnly) {
  static const std::vector<uint32_t> special = {'k', 'K', 0x212A, 's', 'S', 0x17F, 'i', 'I', 0x131, 0x130, 0xDF, 0x1E9E, 0x3C3, 0x3C2, 0x3A3, 0xE5, 0xC5, 0x212B, 0x1C4, 0x1C5, 0x1C6,
    0xB5, 0x3BC, 0x39C, 0x3B9, 0x345, 0x1FBE, 0x10400, 0x10428, 0x390, 0x1FD3, 0xFB05, 0xFB06, 0x1C80, 0x432, 0x412, 0xE9, 0xC9, 0x24D0, 0x2160, 0x1E921};
  std::vector<uint32_t> a;
  size_t n = 2 + s.below(3);
  for (size_t i = 0; i < n; ++i) {
    uint32_t c;
    switch (asciiOnly ? s.below(2) : s.below(4)) {
    case 0: c = 'a' + (uint32_t) s.below(3); break;
    case 1: c = s.pick(std::vector<uint32_t>{'A', 'B', 'z', 'Z', '[', '@', '`', '{', 'k', 'S', 'i', '0', '-', 0x5F, 1, 0x21}); break;
    case 2: c = s.pick(special); break;
    default: c = s.pick(cased());
    }
    a.push_back(c);
    if (s.chance(1, 2)) {                                    // with a relative
      CpSet f = foldClosure(CpSet(c, c), asciiOnly);
      uint32_t d = f.nth(s.below(f.size()));
      if (!asciiOnly || d < 128) a.push_back(d);
    }
    if (s.chance(1, 6) && c < 128) a.push_back(c ^ 32);      // looks like one, may not be
  }
  std::sort(a.begin(), a.end());
  a.erase(std::unique(a.begin(), a.end()), a.end());
  if (a.size() < 2) a.push_back(a[0] == 'q' ? 'Q' : 'q');
  return a;
}

static void patterns(Case& c) {
  Src& s = c.s;
  static const char* ENC[] = {"ASCII", "UTF-8", "UTF-16LE", "ISO-8859-1", "UTF-32BE"};
  const unsigned ei = (unsigned) s.below(5);
  const Enc& e = encByName(ENC[ei]);
  GenOpts o;
  o.nullableLoops = false; o.empties = false; o.switches = true;
  o.alpha = alphabet(s, ei == 0);
  if (ei == 3) { for (auto& x : o.alpha) if (x > 255) x = 'a' + x % 26; std::sort(o.alpha.begin(), o.alpha.end()); o.alpha.erase(std::unique(o.alpha.begin(), o.alpha.end()), o.alpha.end()); }
  o.ci = s.chance(2, 3); o.uni = s.chance(1, 2);
  o.maxRanges = 25; o.maxExpanded = 25;
  Pat p = s.chance(1, 4) ? Pat() : genPattern(s, o);
  if (p.root < 0) {
    std::vector<uint32_t> cps;
    for (size_t n = 1 + s.small(6); n; --n) cps.push_back(s.pick(o.alpha));
    p = literalPat(cps, s.chance(1, 2), o.ci, o.uni);
  }
  uint32_t depth = genDepth(s, p.expanded(), ei ? 2 : 1);
  // texts: samples, and the alphabet's relatives
  std::vector<uint32_t> ta = o.alpha;
  for (uint32_t x : o.alpha) for (auto& r : foldClosure(CpSet(x, x), false).r) for (uint32_t d = r.first; d <= r.second; ++d) ta.push_back(d);
  Bytes t = genText(s, {&p}, e, ta, 90);
  c.note("pattern", [&] { return quote(p.text); });
  c.note("ast", [&] { return p.ast(); });
  c.note("opts", [&] { return cat("enc=", e.name, " fixed=", p.fixed, " ci=", p.ci, " uni=", p.uni, " depth=", depth); });
  c.note("text", [&] { return quote(t); });
  c.ident(p.text + "\1" + t);
  Lg g;
  Pat::Fit fit = p.fits(e);
  if (!g.build({{p.text, p.fixed, p.ci, p.uni, e.name, 0}}, depth)) {
    if (fit != Pat::FITS) { c.label("unencodable: rejected"); return; }
    c.fail("valid pattern was rejected: " + g.err);
  }
  std::vector<Hit> want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  c.note("hits", [&] { return hitsStr(got); });
  if (want != got) c.fail(cat("pattern ", quote(p.text), " ci=", p.ci, " uni=", p.uni, " enc=", e.name, " text ", quote(t), ": expected ", hitsStr(want), " got ", hitsStr(got)));
  if (!want.empty()) {
    c.label("has hits");
    // what a case-sensitive search would have missed
    bool sw = p.text.find("(?") != std::string::npos && !p.fixed;
    if (p.ci || sw) { c.nontrivial = true; if (sw) c.label("switches, with hits"); }
  }
}

// every cased character (and others), against all cased characters
static void closure(Case& c) {
  Src& s = c.s;
  const auto& cs = cased();
  static Bytes text; static std::vector<uint32_t> off;
  if (text.empty()) for (uint32_t x : cs) { off.push_back((uint32_t) text.size()); text += utf8(x); }
  uint32_t cp = s.chance(7, 8) ? s.pick(cs) : (uint32_t) s.small(MAXCP);
  c.require(!encByName("UTF-8").encode(cp).empty() && cp);
  const bool ascii = s.chance(1, 3), fixed = s.chance(1, 3), cls = !fixed && s.chance(1, 3), ci = s.chance(9, 10);
  std::string p = fixed ? utf8(cp) : renderChar(s, cp, true, cls);
  if (cls) p = "[" + p + "]";
  c.note("pattern", [&] { return cat(quote(p), " ascii=", ascii, " fixed=", fixed, " ci=", ci); });
  c.ident(cat(p, ascii, fixed, ci));
  Lg g;
  c.check(g.build({{p, fixed, ci, !ascii, "UTF-8", 0}}, 0), "rejected: " + g.err);
  Bytes t = text + utf8(cp);
  CpSet want = ci ? foldClosure(CpSet(cp, cp), ascii) : CpSet(cp, cp), got;
  for (auto& h : searchAll(g.ctx, t)) {
    uint32_t d;
    const unsigned char* b = (const unsigned char*) t.data();
    c.check(encByName("UTF-8").decode(b + h.start, b + t.size(), d) == h.end - h.start, "a hit is no character");
    got.add(d, d);
  }
  c.checkf(got == want, [&] { return cat(quote(p), " ascii=", ascii, " fixed=", fixed, " ci=", ci, " matches ", got.str(), ", its case variants are ", want.str()); });
  if (want.size() > 1) c.nontrivial = true;
}

// changing the case of letters in the text changes nothing; nor, for plain
// strings, does changing it in the pattern
static void swapped(Case& c) {
  Src& s = c.s;
  SetOpts so; so.minPats = 1; so.maxPats = 4; so.g.nullableLoops = false; so.g.negclass = true;
  PatSet ps = genSet(s, so);
  for (auto& p : ps.specs) p.ci = true;
  Bytes t = genSetText(s, ps, 120), u = t;
  bool any = false;
  for (auto& ch : u) if (isalpha((unsigned char) ch) && s.chance(1, 2)) { ch ^= 32; any = true; }
  std::vector<PatSpec> alt = ps.specs;
  for (auto& p : alt) if (p.fixed) for (auto& ch : p.text) if (isalpha((unsigned char) ch) && (unsigned char) ch < 128 && s.chance(1, 2)) { ch ^= 32; any = true; }
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  c.note("other text", [&] { return quote(u); });
  c.ident(ps.str() + t + "\1" + u);
  // patterns with case switches or without folding would differ: all are ci here
  Lg g, k;
  if (!g.build(ps.specs, ps.depth)) { c.label("rejected"); Lg r; c.check(!r.build(alt, ps.depth), "accepted with other case only: " + ps.str()); return; }
  c.check(k.build(alt, ps.depth), "rejected with other case only: " + k.err);
  auto a = searchAll(g.ctx, t), b = searchAll(k.ctx, u);
  if (sorted(a) != sorted(b)) c.fail(cat(ps.str(), ": hits in ", quote(t), ": ", hitsStr(sorted(a)), ", in ", quote(u), ": ", hitsStr(sorted(b))));
  if (any && !a.empty()) c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C10";
  s.rule = "Generated patterns over cased alphabets (ASCII, Kelvin and long s, dotted and dotless i, sigmas, titlecase digraphs, Deseret ...) with the option and the (?i) (?-i) (?a) (?-a) switches in any position, in ASCII and Unicode mode, against the reference matcher; single characters in every rendering against all of Unicode's cased characters; and metamorphic: letters of the text change case. Non-trivial: folding is in force (option or switch) and there are hits; for single characters, that they have case variants; for the metamorphic part, that some letter changed and there are hits.";
  s.parts = {
    {"patterns", patterns, 120000, 1000000},
    {"closure", closure, 8000, 60000},
    {"swapped", swapped, 30000, 200000},
  };
  return s;
}
