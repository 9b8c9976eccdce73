// Determinisation depth is a matter of speed only.
#include "common.h"

static void depths(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  Bytes t = genSetText(s, ps, len);
  std::vector<uint32_t> ds = {0, 1, 2, 3, 4};
  const uint64_t w = ps.total * ps.factor;
  if (w <= 40) { ds.push_back(5); ds.push_back(7); }
  if (w <= 16) { ds.push_back(10); ds.push_back(20); ds.push_back(UINT32_MAX); }
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  std::string id = t; for (auto& q : ps.specs) id += "\1" + q.text + q.enc;
  c.ident(id);
  const size_t n = ps.pats.size();
  std::vector<std::vector<Hit>> first, firstS;
  bool any = false;
  for (size_t k = 0; k < ds.size(); ++k) {
    Lg g;
    c.checkf(g.build(ps.specs, ds[k]), [&] { return cat("rejected at depth ", ds[k], ": ", g.err); });
    std::vector<std::vector<Hit>> h = byKeyword(searchAll(g.ctx, t), n);
    lg_reset_context(g.ctx);
    std::vector<std::vector<Hit>> st = byKeyword(startsWith(g.ctx, t), n);
    if (k == 0) { first = h; firstS = st; for (auto& x : h) any |= !x.empty(); c.note("hits", [&] { std::string o; for (auto& x : h) o += hitsStr(x); return o; }); }
    else for (size_t i = 0; i < n; ++i) {
      c.checkf(h[i] == first[i], [&] { return cat(ps.str(), " on ", quote(t), ": keyword ", i, " at depth 0 ", hitsStr(first[i]), ", at depth ", ds[k], " ", hitsStr(h[i])); });
      c.checkf(st[i] == firstS[i], [&] { return cat(ps.str(), " starts_with on ", quote(t), ": keyword ", i, " at depth 0 ", hitsStr(firstS[i]), ", at depth ", ds[k], " ", hitsStr(st[i])); });
    }
  }
  if (any) c.nontrivial = true;
  if (w <= 16) c.label("fully determinised");
}

Suite suite() {
  Suite s;
  s.id = "C04";
  s.rule = "Generated pattern sets, each compiled at depth 0, 1, 2, 3, 4 and, as far as their size allows, 5, 7, 10, 20 and unlimited; search and starts_with results on generated texts must agree. Non-trivial: some pattern has hits.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; so.g.empties = false; return so; };
  s.parts = {
    {"small", [=](Case& c) { SetOpts so = base(); so.maxTotal = 14; so.g.maxExpanded = 10; so.g.nullableLoops = false; depths(c, so, 60); }, 50000, 600000},
    {"sets", [=](Case& c) { SetOpts so = base(); so.g.nullableLoops = false; depths(c, so, 60); }, 30000, 400000},
    {"nullable", [=](Case& c) { SetOpts so = base(); so.maxTotal = 30; depths(c, so, 60); }, 15000, 300000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE"}; so.maxTotal = 24; so.g.nullableLoops = false; depths(c, so, 100); }, 10000, 150000},
  };
  return s;
}
