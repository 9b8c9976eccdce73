// C17: a program written to a file and read back is the program.
#include "cli.h"
using namespace cli;

namespace {
struct Prog { Bytes buf; LG_HPROGRAM p = nullptr; LG_HCONTEXT c = nullptr; ~Prog() { if (c) lg_destroy_context(c); if (p) lg_destroy_program(p); } };

void file(Case& c) {
  Src& s = c.s;
  Dir d;
  SetOpts so; so.minPats = 1; so.maxPats = 8; so.maxTotal = 60;
  if (s.chance(1, 2)) { so.encs = {"ASCII", "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-32BE"}; so.kind = 3; }
  PatSet ps = genSet(s, so);
  listableOnly(ps);
  c.require(!ps.specs.empty());
  const size_t nk = 1 + s.below(2);
  std::vector<Bytes> kf(nk);
  std::vector<std::vector<PatSpec>> by(nk);
  for (auto p : ps.specs) { const size_t f = s.below(nk); kf[f] += keyLine(p) + "\n"; p.user = by[f].size(); by[f].push_back(p); }
  const uint32_t depth = s.chance(1, 4) ? 0 : std::min<uint32_t>(ps.depth, 3);
  Lg lg;
  size_t good = 0;
  for (auto& v : by) for (auto& p : v) good += lg.add(p) >= 0;
  c.require(good && lg.compile(depth) && lg.context());
  std::vector<std::string> keys{cat("--determinize-depth=", depth)};
  for (size_t i = 0; i < nk; ++i) { put(d / cat("k", i), kf[i]); keys.push_back("-k"); keys.push_back(cat("k", i)); }

  std::vector<Bytes> in(1 + s.below(3));
  for (size_t i = 0; i < in.size(); ++i) { in[i] = genSetText(s, ps, 300); put(d / cat("in", i), in[i]); }
  std::vector<std::string> how;
  if (s.chance(1, 2)) how.push_back(cat("--block-size=", 1 + s.small(60)));
  switch (s.below(4)) {
  case 0: how.push_back("--mmap"); break;
  case 1: how.push_back("-C"); how.push_back(cat(s.below(3))); break;
  }
  if (s.chance(1, 4)) how.push_back("--histogram-file=hist");
  c.ident(show(keys) + show(how) + ps.str());
  c.note("patterns", [&] { return ps.str(); });
  c.note("how", [&] { return show(how); });
  for (auto& i : in) c.note("input", [&] { return quote(i); });

  std::vector<std::string> mk{"-c", "program", "--binary"};
  mk.insert(mk.end(), keys.begin(), keys.end());
  const bool toFile = s.chance(1, 2);
  if (toFile) { mk.push_back("-o"); mk.push_back("prog"); }
  stale(s, d / "prog");
  Run w = run(d, mk);
  c.checkf(w.status == 0, [&] { return cat("-c program: status ", w.status, " ", quote(w.err)); });
  if (!toFile) put(d / "prog", w.out);
  const Bytes image = get(d / "prog");

  // the file is what the library writes
  Bytes mine(lg_program_size(lg.prog), '\0');
  lg_write_program(lg.prog, mine.data());
  c.checkf(image.size() == mine.size(), [&] { return cat("program file of ", image.size(), " bytes, the library's has ", mine.size()); });

  // the library reads it
  Prog q; q.buf = image;
  q.p = lg_read_program(q.buf.data(), q.buf.size());
  c.check(q.p, "lg_read_program failed");
  c.checkf(lg_prog_pattern_count(q.p) == lg_prog_pattern_count(lg.prog), [&] { return cat(lg_prog_pattern_count(q.p), " patterns read, ", lg_prog_pattern_count(lg.prog), " written"); });
  const LG_ContextOptions co{UINT64_MAX, UINT64_MAX};
  q.c = lg_create_context(q.p, &co);
  c.check(q.c, "no context");
  size_t hits = 0;
  for (auto& t : in) {
    lg_reset_context(lg.ctx); lg_reset_context(q.c);
    auto a = searchAll(lg.ctx, t), b = searchAll(q.c, t);
    c.checkf(a == b, [&] { return cat("read program finds ", hitsStr(b), ", written ", hitsStr(a), " in ", quote(t)); });
    for (auto& h : a) c.checkf(hitLine(lg.prog, h) == hitLine(q.p, h), [&] { return "pattern information differs: " + quote(hitLine(q.p, h)) + " for " + quote(hitLine(lg.prog, h)); });
    hits += a.size();
  }

  // searching with it is searching with the patterns
  std::vector<std::string> a = how, b = how;
  a.insert(a.end(), keys.begin(), keys.end());
  b.push_back("--program-file"); b.push_back("prog");
  for (size_t i = 0; i < in.size(); ++i) { a.push_back(cat("in", i)); b.push_back(cat("in", i)); }
  Run x = run(d, a); const Bytes hx = get(d / "hist"); unlink((d / "hist").c_str()); if (!hx.empty()) stale(s, d / "hist");
  Run y = run(d, b); const Bytes hy = get(d / "hist");
  c.checkf(x.status == 0 && y.status == 0, [&] { return cat("status ", x.status, " with patterns, ", y.status, " with program: ", quote(y.err)); });
  c.checkf(x.out == y.out, [&] { return cat("with patterns: ", quote(x.out), ", with the program: ", quote(y.out)); });
  c.checkf(hx == hy, [&] { return cat("histogram with patterns: ", quote(hx), ", with the program: ", quote(hy)); });
  if (hits) {
    c.nontrivial = true;
    if (lg_prog_pattern_count(lg.prog) > 1) c.label("several patterns");
    if (how.size() && how[0] == "-C") c.label("context");
    if (!hx.empty()) c.label("histogram");
  }
  else c.checkf(y.out.empty(), [&] { return "hits of no pattern: " + quote(y.out); });
}
}

pbt::Suite suite() {
  Suite s;
  s.id = "C17";
  s.rule = "random keyword files (1-2, several encodings), compiled by 'lightgrep -c program --binary' to a file or standard output; the file has the library's size, is read by lg_read_program with the same patterns, indices and hits, and --program-file gives byte for byte the output (hits, context, histogram) that the keyword files give, over random inputs, block sizes and --mmap. Non-trivial: some hits.";
  s.parts = {{"file", file, 4000, 40000}};
  return s;
}
