// lg_starts_with: for every keyword its preferred match at the first byte, and
// nothing is left behind in the context.
#include "common.h"

static void starts(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  Bytes t;
  // most texts begin with a sample of one of the patterns
  if (s.chance(3, 4)) {
    size_t k = s.below(ps.pats.size());
    Bytes b;
    if (sampleMatch(s, ps.pats[k], *ps.encs[k], b)) t = b;
  }
  t += genSetText(s, ps, len);
  uint64_t base = genBase(s);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  std::string id = cat(t, base); for (auto& q : ps.specs) id += "\1" + q.text + q.enc;
  c.ident(id);
  const size_t n = ps.pats.size();
  Lg g;
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + g.err; });
  std::vector<Hit> want;
  for (size_t i = 0; i < n; ++i) {
    Matcher m(ps.pats[i], *ps.encs[i]);
    std::vector<Hit> h = m.all(t, (uint32_t) i, base);
    if (!h.empty() && h[0].start == base) want.push_back(h[0]);
  }
  std::vector<Hit> got = startsWith(g.ctx, t, base);
  c.note("hits", [&] { return hitsStr(got); });
  c.checkf(sorted(got) == sorted(want), [&] { return cat(ps.str(), " starts_with ", quote(t), ": expected ", hitsStr(sorted(want)), " got ", hitsStr(sorted(got))); });
  // the context is fresh again, without a reset
  std::vector<Hit> again = startsWith(g.ctx, t, base);
  c.checkf(sorted(again) == sorted(want), [&] { return cat(ps.str(), " starts_with ", quote(t), " a second time: expected ", hitsStr(sorted(want)), " got ", hitsStr(sorted(again))); });
  std::vector<std::vector<Hit>> sr = byKeyword(searchAll(g.ctx, t, base), n);
  for (size_t i = 0; i < n; ++i) {
    std::vector<Hit> w = Matcher(ps.pats[i], *ps.encs[i]).all(t, (uint32_t) i, base);
    c.checkf(sr[i] == w, [&] { return cat(ps.str(), " on ", quote(t), ": search after starts_with: keyword ", i, " expected ", hitsStr(w), " got ", hitsStr(sr[i])); });
  }
  // and after a search and a reset, it is as good as new
  lg_reset_context(g.ctx);
  std::vector<Hit> third = startsWith(g.ctx, t, base);
  c.checkf(sorted(third) == sorted(want), [&] { return cat(ps.str(), " starts_with ", quote(t), " after search and reset: expected ", hitsStr(sorted(want)), " got ", hitsStr(sorted(third))); });
  // searching only the first bytes agrees with what may be concluded from them
  if (!want.empty()) { c.nontrivial = true; c.label("matches"); }
  if (want.size() > 1) c.label("several keywords match");
}

Suite suite() {
  Suite s;
  s.id = "C05";
  s.rule = "Generated pattern sets; texts that mostly begin with a sample of a pattern. The hits of lg_starts_with must be, for each keyword, the reference matcher's preferred match at the first byte; the call is repeated and followed by a full search and by reset + another call on the same context. Non-trivial: some keyword matches at the first byte.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 6; so.g.nullableLoops = false; return so; };
  s.parts = {
    {"ascii", [=](Case& c) { SetOpts so = base(); starts(c, so, 40); }, 100000, 1500000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE", "UTF-16BE", "ISO-8859-1"}; so.maxTotal = 30; starts(c, so, 80); }, 40000, 500000},
  };
  return s;
}
