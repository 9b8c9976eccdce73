// Streaming: how the text is cut into buffers, and where it starts, changes nothing.
#include "common.h"

static void stream(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  Bytes t = genSetText(s, ps, len);
  std::vector<size_t> cuts = genCuts(s, t.size());
  uint64_t base = genBase(s);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  c.note("cuts", [&] { std::string o; for (size_t k : cuts) o += cat(k, " "); return o + cat("base=", base); });
  std::string id = cat(t, "\1", base); for (auto& q : ps.specs) id += "\1" + q.text + q.enc; for (size_t k : cuts) id += cat(",", k);
  c.ident(id);
  const size_t n = ps.pats.size();
  Lg g, g2;
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + g.err; });
  std::vector<Hit> whole = searchAll(g.ctx, t);
  for (auto& h : whole) { h.start += base; h.end += base; }
  // a context of its own for the pieces
  LG_ContextOptions co{0, 0};
  LG_HCONTEXT ctx = lg_create_context(g.prog, &co);
  struct Free { LG_HCONTEXT x; ~Free() { lg_destroy_context(x); } } fr{ctx};
  Collector col;
  size_t at = 0;
  uint64_t bound = 0;
  bool spans = false;
  for (size_t k = 0; k <= cuts.size(); ++k) {
    size_t to = k < cuts.size() ? cuts[k] : t.size();
    std::unique_ptr<char[]> b(new char[to - at]);
    if (to > at) memcpy(b.get(), t.data() + at, to - at);
    const size_t before = col.hits.size();
    uint64_t r = lg_search(ctx, b.get(), b.get() + (to - at), base + at, &col, collect);
    for (size_t i = before; i < col.hits.size(); ++i) {
      const Hit& h = col.hits[i];
      c.checkf(h.start >= bound, [&] { return cat("hit ", hitsStr({h}), " reported after lg_search promised nothing before ", bound, ": ", ps.str(), " text ", quote(t), " call ", k); });
      c.checkf(h.end <= base + to && h.start < h.end && h.start >= base, [&] { return cat("hit ", hitsStr({h}), " outside of what was searched, [", base, ",", base + to, ")"); });
      if (h.start < base + at && h.end > base + at) spans = true;
    }
    c.checkf(r <= base + to, [&] { return cat("lg_search returned ", r, " beyond the end of the buffer, ", base + to); });
    c.checkf(r >= bound, [&] { return cat("the least offset for further hits moved back from ", bound, " to ", r); });
    bound = r;
    at = to;
  }
  const size_t before = col.hits.size();
  lg_closeout_search(ctx, &col, collect);
  for (size_t i = before; i < col.hits.size(); ++i)
    c.checkf(col.hits[i].start >= bound, [&] { return cat("hit ", hitsStr({col.hits[i]}), " at closeout, though lg_search promised nothing before ", bound); });
  c.note("hits", [&] { return hitsStr(col.hits); });
  std::vector<std::vector<Hit>> a = byKeyword(whole, n), b = byKeyword(col.hits, n);
  for (size_t i = 0; i < n; ++i) {
    c.checkf(a[i] == b[i], [&] { return cat("keyword ", i, " of ", ps.str(), " on ", quote(t), ": in one buffer ", hitsStr(a[i]), ", in pieces ", hitsStr(b[i])); });
    for (size_t k = 1; k < b[i].size(); ++k)
      c.checkf(b[i][k - 1].end <= b[i][k].start, [&] { return cat("hits of keyword ", i, " overlap or are out of order: ", hitsStr(b[i])); });
  }
  c.checkf(whole.size() == col.hits.size(), [&] { return "different number of hits in pieces"; });
  if (spans) c.label("hit spans a cut");
  if (base > 0xFFFFFF00ull) c.label("offsets beyond 32 bits");
  if (spans && cuts.size() > 0) c.nontrivial = true;
}

// the returned bound is also tight enough to be useful: once nothing is in
// progress, it is the end of the buffer
static void tight(Case& c) {
  Src& s = c.s;
  std::vector<uint32_t> alpha = genAlphabet(s, 0), w;
  size_t n = 1 + s.below(10);
  for (size_t i = 0; i < n; ++i) w.push_back(s.pick(alpha));
  Pat p = literalPat(w, true, false, false);
  const Enc& e = encByName("ASCII");
  Bytes t = genText(s, {&p}, e, alpha, 60), lit = utf8(w);
  c.ident(t + "\1" + lit);
  c.note("pattern", [&] { return quote(lit); });
  c.note("text", [&] { return quote(t); });
  Lg g;
  c.checkf(g.build({{p.text, p.fixed, false, false, "ASCII", 0}}, s.oneof<uint32_t>({10, 0, UINT32_MAX})), [&] { return "rejected: " + g.err; });
  Collector col;
  uint64_t r = lg_search(g.ctx, t.data(), t.data() + t.size(), 0, &col, collect);
  // least start at which a non-overlapping occurrence could still complete
  size_t from = col.hits.empty() ? 0 : (size_t) col.hits.back().end;
  size_t want = t.size();
  for (size_t i = from; i < t.size(); ++i)
    if (t.size() - i < lit.size() && lit.compare(0, t.size() - i, t, i, t.size() - i) == 0) { want = i; break; }
  // matches which have just been completed are reported once the next byte has
  // been seen, so they may be pending still
  for (size_t i = from; i + lit.size() <= t.size(); ++i) if (t.compare(i, lit.size(), lit) == 0) { want = std::min(want, i); break; }
  c.checkf(r == want, [&] { return cat("literal ", quote(lit), " on ", quote(t), ": lg_search returned ", r, ", but the least offset for which a hit is possible is ", want); });
  if (want < t.size()) { c.nontrivial = true; c.label("something pending"); }
}

Suite suite() {
  Suite s;
  s.id = "C03";
  s.rule = "Generated pattern sets and texts, each text searched in one buffer and again cut into random pieces (byte by byte, equal widths, random cuts, empty pieces) at a random start offset up to 2^62; hits, their bounds against each call's return value, and their order per keyword are checked. Non-trivial: a reported hit spans a cut (or, in part 'tight', a match is in progress at the end of the buffer).";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; return so; };
  s.parts = {
    {"ascii", [=](Case& c) { SetOpts so = base(); stream(c, so, 60); }, 100000, 1500000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE", "UTF-16BE"}; so.maxTotal = 30; stream(c, so, 120); }, 40000, 500000},
    {"long", [=](Case& c) { SetOpts so = base(); so.maxPats = 2; so.g.maxCount = 40; so.maxTotal = 200; so.g.maxExpanded = 150; stream(c, so, 600); }, 10000, 200000},
    {"tight", tight, 60000, 600000},
  };
  return s;
}
