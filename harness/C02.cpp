// Several patterns at once: each keyword's hits are what it gets alone.
#include "common.h"

static void together(Case& c, SetOpts so, size_t len, bool useRef) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  Bytes t = genSetText(s, ps, len);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  std::string id = t; for (auto& q : ps.specs) id += "\1" + q.text + q.enc;
  c.ident(id);
  const size_t n = ps.pats.size();
  Lg g;
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + g.err; });
  std::vector<Hit> raw = searchAll(g.ctx, t);
  for (auto& h : raw) c.checkf(h.kw < n, [&] { return cat("hit for keyword ", h.kw, " of ", n); });
  std::vector<std::vector<Hit>> got = byKeyword(raw, n);
  c.note("hits", [&] { return hitsStr(raw); });
  size_t kwHit = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Hit> want;
    if (useRef) want = Matcher(ps.pats[i], *ps.encs[i]).all(t, (uint32_t) i);
    else {
      Lg a;
      c.checkf(a.build({ps.specs[i]}, ps.depth), [&] { return "pattern was rejected alone: " + a.err; });
      want = searchAll(a.ctx, t);
      for (auto& h : want) h.kw = (uint32_t) i;
    }
    c.checkf(want == got[i], [&] { return cat("keyword ", i, " ", quote(ps.specs[i].text), " [", ps.specs[i].enc, "] among ", ps.str(), " on ", quote(t), ": alone ", hitsStr(want), " together ", hitsStr(got[i])); });
    if (!want.empty()) ++kwHit;
  }
  // another order
  std::vector<size_t> perm(n);
  for (size_t i = 0; i < n; ++i) perm[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[s.below(i)]);
  std::vector<PatSpec> sp;
  for (size_t i : perm) sp.push_back(ps.specs[i]);
  Lg b;
  c.checkf(b.build(sp, ps.depth), [&] { return "reordered set was rejected: " + b.err; });
  std::vector<std::vector<Hit>> rg = byKeyword(searchAll(b.ctx, t), n);
  for (size_t k = 0; k < n; ++k) {
    for (auto& h : rg[k]) h.kw = (uint32_t) perm[k];
    c.checkf(rg[k] == got[perm[k]], [&] { return cat("keyword ", quote(ps.specs[perm[k]].text), " of ", ps.str(), " on ", quote(t), " depends on the order: ", hitsStr(got[perm[k]]), " vs ", hitsStr(rg[k])); });
  }
  if (kwHit >= 2) c.nontrivial = true;
  if (kwHit >= 3) c.label("three or more keywords hit");
}

// a dictionary of literals, as most users have
static void dictionary(Case& c, size_t maxWords, bool mixed) {
  Src& s = c.s;
  PatSet ps;
  ps.alpha = genAlphabet(s, 0);
  if (ps.alpha.size() > 3) ps.alpha.resize(3);
  size_t n = 2 + s.below(maxWords);
  std::vector<std::vector<uint32_t>> words;
  for (size_t i = 0; i < n; ++i) {
    std::vector<uint32_t> w;
    if (!words.empty() && s.chance(1, 2)) {                  // share a prefix or a suffix with another
      const auto& o = s.pick(words);
      size_t k = s.below(o.size() + 1);
      if (s.chance(1, 2)) w.assign(o.begin(), o.begin() + k); else w.assign(o.begin() + k, o.end());
    }
    size_t m = s.small(6) + (w.empty() ? 1 : 0);
    for (size_t j = 0; j < m; ++j) w.push_back(s.pick(ps.alpha));
    if (w.size() > 12) w.resize(12);
    words.push_back(w);
    const Enc& e = encByName(mixed ? s.oneof<const char*>({"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE"}) : "ASCII");
    ps.add(literalPat(w, s.chance(1, 2), s.chance(1, 5), false), e, i);
  }
  ps.depth = s.oneof<uint32_t>({10, 0, 1, 2, 3, 5});
  Bytes t = genSetText(s, ps, 120);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  std::string id = t; for (auto& q : ps.specs) id += "\1" + q.text + q.enc;
  c.ident(id);
  Lg g;
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "dictionary was rejected: " + g.err; });
  std::vector<std::vector<Hit>> got = byKeyword(searchAll(g.ctx, t), n);
  size_t kwHit = 0;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Hit> want = Matcher(ps.pats[i], *ps.encs[i]).all(t, (uint32_t) i);
    c.checkf(want == got[i], [&] { return cat("word ", i, " ", quote(ps.specs[i].text), " [", ps.specs[i].enc, ps.specs[i].ci ? " ci" : "", "] of ", n, " on ", quote(t), ": expected ", hitsStr(want), " got ", hitsStr(got[i])); });
    if (!want.empty()) ++kwHit;
  }
  if (kwHit >= 2) c.nontrivial = true;
  if (n > 60) c.label("more than 60 words");
}

Suite suite() {
  Suite s;
  s.id = "C02";
  s.rule = "Sets of 2-8 generated patterns over a shared small alphabet (shared prefixes, repeated patterns, mixed encodings and options) or dictionaries of 2-400 words, with texts mixing samples of all of them; each keyword's hits are compared with the same pattern compiled alone (or the reference matcher), and with the set in another order. Non-trivial: at least two different keywords have hits.";
  auto base = [] { SetOpts so; so.g.empties = false; return so; };
  s.parts = {
    {"alone", [=](Case& c) { SetOpts so = base(); together(c, so, 60, false); }, 40000, 600000},
    {"ref", [=](Case& c) { SetOpts so = base(); so.g.nullableLoops = false; so.g.empties = true; so.maxPats = 8; together(c, so, 60, true); }, 60000, 800000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE", "UTF-16BE", "ISO-8859-1"}; so.g.nullableLoops = false; so.maxTotal = 30; together(c, so, 120, true); }, 20000, 300000},
    {"dictionary", [](Case& c) { dictionary(c, 40, c.s.chance(1, 2)); }, 20000, 200000},
    {"big-dictionary", [](Case& c) { dictionary(c, 400, c.s.chance(1, 4)); }, 800, 10000},
  };
  return s;
}
