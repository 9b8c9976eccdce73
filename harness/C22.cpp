// C22: resolving the hits in progress at the end of a range.
#include "common.h"

static void resolve(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  Bytes t = genSetText(s, ps, len);
  const size_t edge = s.chance(1, 10) ? (s.chance(1, 2) ? 0 : t.size()) : s.below(t.size() + 1);
  std::vector<size_t> cuts = genCuts(s, t.size());
  cuts.push_back(edge); std::sort(cuts.begin(), cuts.end());
  const uint64_t base = genBase(s);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return cat(quote(t.substr(0, edge)), " then ", quote(t.substr(edge)), " base=", base); });
  std::string id = cat(t, "\1", base, "\1", edge); for (auto& q : ps.specs) id += "\1" + q.text + q.enc; for (size_t k : cuts) id += cat(",", k);
  c.ident(id);
  const size_t n = ps.pats.size();
  Lg g;
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + g.err; });
  LG_ContextOptions co{0, 0};
  struct Free { LG_HCONTEXT x; ~Free() { lg_destroy_context(x); } } fr{lg_create_context(g.prog, &co)};
  LG_HCONTEXT ctx = fr.x;
  Collector col;
  size_t at = 0;
  uint64_t bound = 0;
  bool spans = false, past = false;
  for (size_t k = 0; k <= cuts.size(); ++k) {
    const size_t to = k < cuts.size() ? cuts[k] : t.size();
    std::unique_ptr<char[]> b(new char[to - at]);
    if (to > at) memcpy(b.get(), t.data() + at, to - at);
    const size_t before = col.hits.size();
    // the very edge may be reached by an empty piece of either kind
    const bool res = at > edge || (at == edge && past);
    const uint64_t r = (res ? lg_search_resolve : lg_search)(ctx, b.get(), b.get() + (to - at), base + at, &col, collect);
    for (size_t i = before; i < col.hits.size(); ++i) {
      const Hit& h = col.hits[i];
      c.checkf(h.start >= bound, [&] { return cat("hit ", hitsStr({h}), " reported after nothing was promised before ", bound, ": ", ps.str(), " text ", quote(t), " call ", k); });
      if (res) c.checkf(h.start < base + edge, [&] { return cat("hit ", hitsStr({h}), " starts past the edge ", base + edge, " when resolving: ", ps.str(), " text ", quote(t)); });
      if (res && h.end > base + edge) spans = true;
    }
    c.checkf(r >= bound, [&] { return cat("the least offset for further hits moved back from ", bound, " to ", r); });
    bound = r;
    at = to;
    if (to == edge) past = true;
  }
  const size_t before = col.hits.size();
  lg_closeout_search(ctx, &col, collect);
  for (size_t i = before; i < col.hits.size(); ++i) {
    c.checkf(col.hits[i].start >= bound, [&] { return cat("hit ", hitsStr({col.hits[i]}), " at closeout, though nothing was promised before ", bound); });
    if (col.hits[i].end > base + edge) spans = true;
  }
  std::vector<Hit> whole = searchAll(g.ctx, t, base), want;
  for (auto& h : whole) if (h.start < base + edge) want.push_back(h);
  c.note("hits", [&] { return cat("expected ", hitsStr(want), " got ", hitsStr(col.hits)); });
  c.checkf(byKeyword(want, n) == byKeyword(col.hits, n), [&] { return cat(ps.str(), " on ", quote(t.substr(0, edge)), " resolved with ", quote(t.substr(edge)), ": expected ", hitsStr(want), ", got ", hitsStr(col.hits)); });
  // and it is as good as new once reset
  if (s.chance(1, 4)) {
    lg_reset_context(ctx);
    c.checkf(byKeyword(searchAll(ctx, t, base), n) == byKeyword(whole, n), [&] { return cat("hits differ after resolving and reset: ", ps.str(), " on ", quote(t)); });
  }
  if (spans) { c.nontrivial = true; c.label("hit spans the edge"); }
  if (want.size() < whole.size()) c.label("hits past the edge");
}

// ranges of one text, searched each on its own and resolved with what follows
static void ranges(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  // keywords of which no two occurrences overlap, so that ranges do not matter
  so.dups = false;
  std::vector<uint32_t> alpha = genAlphabet(s, so.kind);
  if (alpha.size() < 2) alpha = {'a', 'b'};
  std::vector<PatSpec> specs; std::vector<Pat> pats;
  const size_t k = 1 + s.small(3);
  for (size_t i = 0; i < k; ++i) {
    std::vector<uint32_t> w{alpha[0]};
    const size_t l = s.small(8);
    for (size_t j = 0; j < l; ++j) w.push_back(alpha[1 + s.below(alpha.size() - 1)]);
    Pat p = literalPat(w, true, false, false);
    pats.push_back(p);
    specs.push_back({p.text, true, false, false, "UTF-8", i});
  }
  std::vector<const Pat*> pp; for (auto& p : pats) pp.push_back(&p);
  const Bytes t = genText(s, pp, encByName("UTF-8"), alpha, len);
  std::vector<size_t> cuts = genCuts(s, t.size());
  const uint64_t base = genBase(s);
  std::string id = cat(t, "\1", base); for (auto& q : specs) id += "\1" + q.text; for (size_t x : cuts) id += cat(",", x);
  c.ident(id);
  c.note("keywords", [&] { std::string o; for (auto& q : specs) o += quote(q.text) + " "; return o; });
  c.note("text", [&] { return quote(t); });
  Lg g;
  c.checkf(g.build(specs, s.oneof<uint32_t>({10, 0, UINT32_MAX})), [&] { return "rejected: " + g.err; });
  std::vector<Hit> whole = searchAll(g.ctx, t, base);
  Collector col;
  size_t at = 0; bool spans = false;
  for (size_t i = 0; i <= cuts.size(); ++i) {
    const size_t to = i < cuts.size() ? cuts[i] : t.size();
    lg_reset_context(g.ctx);
    uint64_t r = lg_search(g.ctx, t.data() + at, t.data() + to, base + at, &col, collect);
    // as much as is needed, a little at a time
    size_t more = to;
    while (more < t.size() && r < base + to) {
      const size_t step = std::min<size_t>(1 + s.small(5), t.size() - more);
      r = lg_search_resolve(g.ctx, t.data() + more, t.data() + more + step, base + more, &col, collect);
      more += step;
    }
    if (more > to) spans = true;
    lg_closeout_search(g.ctx, &col, collect);
    at = to;
  }
  c.checkf(byKeyword(whole, specs.size()) == byKeyword(col.hits, specs.size()), [&] { return cat("ranges of ", quote(t), ": expected ", hitsStr(whole), " got ", hitsStr(col.hits)); });
  if (spans && !whole.empty()) c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C22";
  s.rule = "Generated pattern sets and texts; the front of each text, up to a random edge, is searched and the rest resolved, both in random pieces and at random offsets; the hits must be those of searching it all which start before the edge, none earlier than promised. 'ranges': every range of a text is searched in a reset context and resolved with what follows for as long as the returned offset says so; together they must give the hits of the whole. Non-trivial: a hit spans the edge (ranges: something needed resolving).";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; return so; };
  s.parts = {
    {"ascii", [=](Case& c) { SetOpts so = base(); resolve(c, so, 60); }, 100000, 1500000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE", "UTF-16BE"}; so.maxTotal = 30; resolve(c, so, 120); }, 40000, 500000},
    {"long", [=](Case& c) { SetOpts so = base(); so.maxPats = 2; so.g.maxCount = 40; so.maxTotal = 200; so.g.maxExpanded = 150; resolve(c, so, 600); }, 10000, 200000},
    {"ranges", [=](Case& c) { SetOpts so; so.kind = c.s.chance(1, 2) ? 2 : 0; ranges(c, so, 100); }, 40000, 500000},
  };
  return s;
}
