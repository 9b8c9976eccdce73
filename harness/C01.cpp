// Single pattern: hits equal those of a backtracking Perl-style reference.
#include "ref.h"
using namespace pbt;
using namespace ref;

static void one(Case& c, const char* enc, int kind, GenOpts o, size_t textLen) {
  Src& s = c.s;
  o.alpha = genAlphabet(s, kind);
  o.ci = s.chance(1, 6);
  const Enc& e = encByName(enc);
  const bool multi = e.encode(0x100).size() > 1;
  // big Unicode classes compile to hundreds of byte sequences in UTF-8 and
  // UTF-16, quadratically slowly in loops: those are left to C09
  o.uni = s.chance(1, multi ? 4 : 2);
  if (multi) { o.maxExpanded = 30; if (o.uni) o.maxRanges = 25; }
  Pat p = genPattern(s, o);
  uint32_t depth = genDepth(s, p.expanded(), e.encode('a').size() > 1 || e.encode(0x100).size() > 1 ? 2 : 1);
  Bytes t = genText(s, {&p}, e, o.alpha, textLen);
  c.note("pattern", [&] { return quote(p.text); });
  c.note("ast", [&] { return p.ast(); });
  c.note("opts", [&] { return cat("enc=", enc, " ci=", p.ci, " uni=", p.uni, " depth=", depth); });
  c.note("text", [&] { return quote(t) + " hex=" + hex(t.substr(0, 80)); });
  c.ident(p.text + "\1" + t);
  Lg g;
  Pat::Fit fit = p.fits(e);
  bool built = g.build({{p.text, p.fixed, p.ci, p.uni, enc, 0}}, depth);
  if (!built) {
    if (fit != Pat::FITS) { c.label("unencodable: rejected"); return; }
    c.fail("valid pattern was rejected: " + g.err);
  }
  Matcher m(p, e);
  std::vector<Hit> want = m.all(t), got = searchAll(g.ctx, t);
  c.note("hits", [&] { return hitsStr(got); });
  if (want != got) c.fail(cat("pattern ", quote(p.text), " text ", quote(t), ": expected ", hitsStr(want), " got ", hitsStr(got)));
  if (!want.empty()) { c.label("has hits"); if (p.n.size() > 2) c.nontrivial = true; }
  if (want.size() > 1) c.label("several hits");
  if (p.has(Node::REP)) c.label("repetition");
  if (p.has(Node::ALT)) c.label("alternation");
}

Suite suite() {
  Suite s;
  s.id = "C01";
  s.rule = "Generated patterns (alternation, groups, greedy and nongreedy counted and unbounded repetition, classes, dot, empty alternatives) over alphabets of a few colliding characters, in ASCII, UTF-8 and UTF-16LE, against a backtracking reference matcher, on texts assembled from samples and near-samples of the pattern; any determinisation depth. Non-trivial: the pattern is more than one character or class and the text has hits.";
  s.parts = {
    {"basic", [](Case& c) { GenOpts o; o.empties = false; o.nullableLoops = false; o.counted = false; o.nongreedy = false; one(c, "ASCII", 0, o, 60); }, 200000, 1000000},
    {"nongreedy", [](Case& c) { GenOpts o; o.empties = false; o.nullableLoops = false; o.counted = false; one(c, "ASCII", 0, o, 60); }, 200000, 1000000},
    {"counted", [](Case& c) { GenOpts o; o.empties = false; o.nullableLoops = false; one(c, "ASCII", 0, o, 60); }, 200000, 1000000},
    {"full", [](Case& c) { GenOpts o; o.nullableLoops = false; one(c, "ASCII", 0, o, 60); }, 200000, 1000000},
    {"utf8", [](Case& c) { GenOpts o; o.empties = false; o.nullableLoops = false; one(c, "UTF-8", 2, o, 80); }, 100000, 1000000},
    {"utf16", [](Case& c) { GenOpts o; o.empties = false; o.nullableLoops = false; one(c, "UTF-16LE", 2, o, 100); }, 100000, 1000000},
  };
  return s;
}
