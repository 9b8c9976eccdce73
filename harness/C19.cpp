// C19: validate and sample.
#include "cli.h"
using namespace cli;

namespace {
void validate(Case& c) {
  Src& s = c.s;
  Dir d;
  SetOpts so; so.minPats = 1; so.maxPats = s.chance(1, 3) ? 12 : 6; so.maxTotal = 60; so.kind = 3;
  so.encs = {"ASCII", "UTF-8", "ISO-8859-1", "UTF-16LE"};
  PatSet ps = genSet(s, so);
  listableOnly(ps);
  static const char* BAD[] = {"+a", "(a", "a|", "a*", "[z-a]", "\\x{110000}", "\\p{Nope}", "a\tnope", "\xE2\x82\xAC\tASCII", "a\tASCII\t2", "\\", "\xFF", "a)"};
  struct L { size_t row; std::string msg; };
  const bool cmd = s.chance(1, 4);
  const unsigned rate = s.oneof<unsigned>({0, 0, 1, 3});
  std::vector<std::string> args{"-c", "validate", "--determinize-depth=0"};
  size_t n = 1;
  std::vector<std::pair<std::string, size_t>> want;     // source, row of the bad
  if (cmd) {
    size_t row = 0;
    static const std::string U = "UTF-8";
    for (size_t i = 0; i < ps.specs.size() || i < 1; ++i) {
      std::string p = i < ps.specs.size() ? ps.specs[i].text : "a";
      if (s.below(4) < rate) { do p = BAD[s.below(13)]; while (!listable(p)); }
      args.push_back("--pattern=" + p);
      Lg l;
      if (l.add({p, false, false, false, "UTF-8", 0}) < 0) want.push_back({"", row});
      ++row;
    }
    args.push_back("-e"); args.push_back("utf-8");
  }
  else {
    n = 1 + s.oneof<unsigned>({0, 1, 2, 3, 4});
    for (size_t f = 0; f < n; ++f) {
      Bytes k; size_t row = 0;
      for (size_t i = f; i < ps.specs.size(); i += n) {
        if (s.chance(1, 6)) k += s.chance(1, 2) ? "\n" : "\r\n";
        bool bad;
        if (s.below(4) < rate) { k += BAD[s.below(13)]; bad = true; }
        else { k += keyLine(ps.specs[i]); Lg l; bad = l.add(ps.specs[i]) < 0; }
        k += s.chance(1, 4) ? "\r\n" : "\n";
        if (bad) want.push_back({cat("k", f), row});
        ++row;
      }
      put(d / cat("k", f), k);
      c.note("keywords", [&] { return quote(k); });
      args.push_back("-k"); args.push_back(cat("k", f));
    }
  }
  c.ident(show(args) + ps.str());
  c.note("command", [&] { return show(args); });
  Run r = run(d, args);
  c.checkf(r.status == (want.empty() ? 0 : 1), [&] { return cat(want.size(), " bad lines, but status ", r.status, ", stderr ", quote(r.err)); });
  c.checkf(r.out.empty(), [&] { return "unexpected output " + quote(r.out); });
  std::vector<std::pair<std::string, size_t>> got;
  for (auto& l : lines(r.err)) {
    size_t p = l.compare(0, 8, "pattern ") == 0 ? 0 : l.find(", pattern ");
    if (p == l.npos) continue;
    const std::string src = p ? l.substr(0, p) : "";
    got.push_back({src, strtoull(l.c_str() + (p ? p + 2 : 0) + 8, nullptr, 10)});
  }
  if (n == 1) for (auto& w : want) w.first = "";          // named only when there are several
  c.checkf(got == want, [&] { std::string o; for (auto& w : want) o += cat(" ", w.first, "#", w.second); return cat("bad lines:", o, "; reported: ", quote(r.err)); });
  c.nontrivial = true;
  c.label(want.empty() ? "all valid" : "some invalid");
}

void sample(Case& c) {
  Src& s = c.s;
  Dir d;
  SetOpts so; so.minPats = 1; so.maxPats = 4; so.maxTotal = 40;
  switch (s.below(4)) {
  case 1: so.encs = {"UTF-8"}; so.kind = 3; break;
  case 2: so.encs = {"ISO-8859-1"}; so.kind = 3; break;
  case 3: so.encs = {"UTF-16LE"}; so.kind = 1; break;
  }
  so.g.maxRanges = 200;
  PatSet ps = genSet(s, so);
  listableOnly(ps);
  c.require(!ps.specs.empty());
  Bytes k;
  for (size_t i = 0; i < ps.specs.size(); ++i) { Lg l; c.require(l.add(ps.specs[i]) >= 0); k += keyLine(ps.specs[i]) + "\n"; }
  put(d / "k", k);
  const size_t limit = s.weighted({4, 1}) ? s.below(3) : 1 + s.small(60), loops = 1 + s.below(3);
  std::vector<std::string> args{"-c", "sample", "-k", "k", "--determinize-depth", cat(std::min<uint32_t>(ps.depth, 2)), cat(limit)};
  if (loops > 1 || s.chance(1, 2)) args.push_back(cat(loops));
  c.ident(show(args) + ps.str());
  c.note("command", [&] { return show(args); });
  c.note("patterns", [&] { return ps.str(); });
  Run r = run(d, args);
  c.checkf(r.status == 0, [&] { return cat("status ", r.status, " ", quote(r.err)); });
  if (!limit) { c.checkf(r.out.empty(), [&] { return "0 samples: " + quote(r.out); }); return; }

  // samples end with newlines, but may have some themselves: is there a way to split the output into members?
  std::vector<Matcher> m;
  for (size_t i = 0; i < ps.pats.size(); ++i) m.emplace_back(ps.pats[i], *ps.encs[i]);
  std::vector<size_t> least(r.out.size() + 1, size_t(-1));
  least[0] = 0;
  for (size_t e = 1; e <= r.out.size(); ++e) {
    if (r.out[e - 1] != '\n') continue;
    for (size_t b = e; b-- > 0;) {
      if (least[b] == size_t(-1) || least[b] + 1 >= least[e]) continue;
      const Bytes t = r.out.substr(b, e - 1 - b);
      for (auto& x : m) if (x.member(t)) { least[e] = least[b] + 1; break; }
    }
  }
  c.checkf(least.back() != size_t(-1), [&] {
    size_t b = 0; for (size_t i = 0; i < least.size(); ++i) if (least[i] != size_t(-1)) b = i;
    return cat("not a sample of any pattern: ", quote(r.out.substr(b, r.out.find('\n', b) - b)), " in ", quote(r.out));
  });
  c.check(least.back() >= 1, "no samples");
  c.checkf(least.back() <= limit, [&] { return cat(least.back(), " samples for a limit of ", limit); });
  c.nontrivial = true;
  if (least.back() > 1) c.label("several samples");
  if (loops > 1) c.label("loops");
}
}

pbt::Suite suite() {
  Suite s;
  s.id = "C19";
  s.rule = "validate: random keyword files (1-2) or -p patterns, none, some or all lines bad in various ways; exit status 0 if and only if the library accepts every line, each bad line reported once under its file and number. sample: random pattern sets, limits 0-60, loop limits 1-3, four encodings; the output must be splittable into lines that are members of the language of one of the patterns (reference matcher), at least one, and the command must end. Non-trivial: all but sampling with limit 0.";
  s.parts = {{"validate", validate, 4000, 40000}, {"sample", sample, 8000, 80000}};
  return s;
}
