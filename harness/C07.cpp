// Serialised programs.
#include "common.h"

static std::string infos(LG_HPROGRAM p) {
  std::string o;
  for (unsigned i = 0; i < lg_prog_pattern_count(p); ++i) {
    LG_PatternInfo* x = lg_prog_pattern_info(p, i);
    o += cat(i, ":", quote(x->Pattern), " ", x->EncodingChain, " ", x->UserIndex, "\n");
  }
  return o;
}

static void roundTrip(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  for (auto& p : ps.specs) switch (s.weighted({3, 1, 1, 1})) {
    case 0: p.user = s.below(10); break;
    case 1: p.user = UINT64_MAX - s.below(3); break;
    case 2: p.user = (1ull << 32) + s.below(5); break;
    case 3: p.user = s.below(UINT64_MAX); break;
  }
  Bytes t = genSetText(s, ps, len);
  c.note("patterns", [&] { return ps.str(); });
  c.note("text", [&] { return quote(t); });
  std::string id = t; for (auto& q : ps.specs) id += "\1" + q.text + q.enc;
  c.ident(id);
  const size_t n = ps.pats.size();
  std::vector<char> img;
  std::vector<Hit> want, wantS;
  std::string wantI;
  unsigned size;
  {
    Lg g;
    c.checkf(g.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + g.err; });
    want = searchAll(g.ctx, t);
    lg_reset_context(g.ctx);
    wantS = startsWith(g.ctx, t);
    wantI = infos(g.prog);
    for (size_t i = 0; i < n; ++i) {
      LG_PatternInfo* x = lg_prog_pattern_info(g.prog, (unsigned) i);
      c.checkf(x->Pattern == ps.specs[i].text && x->EncodingChain == ps.specs[i].enc && x->UserIndex == ps.specs[i].user, [&] { return "pattern information is wrong before serialising: " + infos(g.prog); });
    }
    size = lg_program_size(g.prog);
    const size_t GUARD = 64;
    std::vector<char> buf(size + GUARD, '\x5A');
    lg_write_program(g.prog, buf.data());
    for (size_t i = size; i < buf.size(); ++i) c.checkf(buf[i] == '\x5A', [&] { return cat("lg_write_program wrote beyond lg_program_size, at ", i - size); });
    img.assign(buf.begin(), buf.begin() + size);
    std::vector<char> buf2(size, '\0');
    lg_write_program(g.prog, buf2.data());
    c.checkf(buf2 == img, [&] { return "writing the same program twice gives different images"; });
    // the original is gone when the copy is used
  }
  struct Copy { char* p; ~Copy() { delete[] p; } } mem{new char[size]};
  memcpy(mem.p, img.data(), size);
  LG_HPROGRAM q = lg_read_program(mem.p, (int) size);
  c.check(q, "lg_read_program failed on what lg_write_program wrote");
  struct FreeP { LG_HPROGRAM p; LG_HCONTEXT x = nullptr; ~FreeP() { if (x) lg_destroy_context(x); lg_destroy_program(p); } } fp{q};
  c.checkf(lg_prog_pattern_count(q) == n, [&] { return cat("pattern count ", lg_prog_pattern_count(q), " instead of ", n); });
  c.checkf(infos(q) == wantI, [&] { return cat("pattern information differs: ", wantI, " became ", infos(q)); });
  c.checkf(lg_program_size(q) == size, [&] { return cat("size ", size, " became ", lg_program_size(q)); });
  LG_ContextOptions co{0, 0};
  fp.x = lg_create_context(q, &co);
  c.check(fp.x, "lg_create_context failed for the program read");
  std::vector<Hit> got = searchAll(fp.x, t);
  c.note("hits", [&] { return hitsStr(got); });
  c.checkf(got == want, [&] { return cat(ps.str(), " on ", quote(t), ": ", hitsStr(want), " became ", hitsStr(got)); });
  lg_reset_context(fp.x);
  std::vector<Hit> gotS = startsWith(fp.x, t);
  c.checkf(gotS == wantS, [&] { return cat(ps.str(), " starts_with ", quote(t), ": ", hitsStr(wantS), " became ", hitsStr(gotS)); });
  std::vector<char> again(size);
  lg_write_program(q, again.data());
  c.checkf(again == img, [&] { return "writing the program read back gives another image"; });
  if (!want.empty()) c.nontrivial = true;
  if (n > 3) c.label("more than 3 patterns");
}

Suite suite() {
  Suite s;
  s.id = "C07";
  s.rule = "Generated pattern sets with arbitrary user indices; the program is written (exactly lg_program_size bytes, guarded), the original destroyed, the image read back: counts, pattern information, size, image, search and starts_with results on generated texts must all be those of the original. Non-trivial: the text has hits.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 8; return so; };
  s.parts = {
    {"ascii", [=](Case& c) { SetOpts so = base(); roundTrip(c, so, 60); }, 100000, 1500000},
    {"mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "UTF-32BE", "UTF-16BE", "ISO-8859-1"}; so.maxTotal = 30; roundTrip(c, so, 100); }, 40000, 500000},
  };
  return s;
}
