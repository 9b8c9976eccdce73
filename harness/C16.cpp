// C16: the command line searches what it is told to, and prints what the library finds.
#include "cli.h"
using namespace cli;

namespace {
struct Input { std::string path; Bytes data; };

struct Corpus {
  std::vector<Input> files;                 // path relative to the scratch directory
  std::vector<std::string> dirs;
};

std::string genName(Src& s, size_t k) {
  static const char* N[] = {"f", "with space", "tab\tname", "\xC3\xA9", "a.txt", "x=y", "%s"};
  return cat(N[s.below(7)], k);
}

Corpus genCorpus(Src& s, const Dir& d, const PatSet& ps, size_t maxLen) {
  Corpus c;
  const size_t nd = s.below(3);
  c.dirs.push_back("");
  for (size_t i = 0; i < nd; ++i) { const std::string n = cat(s.pick(c.dirs), "d", i, "/"); mkdir((d / n).c_str(), 0755); c.dirs.push_back(n); }
  const size_t nf = 1 + s.below(4);
  for (size_t i = 0; i < nf; ++i) {
    Input f;
    f.path = s.pick(c.dirs) + genName(s, i);
    if (!s.chance(1, 8)) f.data = genSetText(s, ps, maxLen);
    put(d / f.path, f.data);
    c.files.push_back(f);
  }
  return c;
}

void opt(Src& s, std::vector<std::string>& a, const char* shrt, const char* lng, const std::string& v) {
  if (!v.empty() && v[0] != '-' && s.chance(1, 2)) {
    if (*shrt && s.chance(1, 2)) { a.push_back(shrt); a.push_back(v); }
    else { a.push_back(lng); a.push_back(v); }
  }
  else a.push_back(cat(lng, "=", v));
}

void run(Case& c, bool keyfiles) {
  Src& s = c.s;
  Dir d;
  SetOpts so; so.minPats = 1; so.maxPats = keyfiles ? 6 : 4; so.maxTotal = 40;
  so.encs = s.chance(1, 2) ? std::vector<const char*>{"ASCII"} : std::vector<const char*>{"ASCII", "UTF-8", "ISO-8859-1", "UTF-16LE"};
  so.kind = so.encs.size() > 1 ? 3 : 0;
  PatSet ps = genSet(s, so);
  listableOnly(ps);
  c.require(!ps.specs.empty());
  std::vector<std::string> args;
  std::vector<PatSpec> specs;
  std::vector<std::string> pos;
  std::set<uint64_t> bad;                   // lines to be complained about

  if (keyfiles) {
    const size_t n = 1 + s.below(2);
    std::vector<Bytes> kf(n);
    std::vector<uint64_t> row(n);
    std::vector<std::vector<PatSpec>> by(n);
    for (auto& p : ps.specs) {
      const size_t f = s.below(n);
      if (s.chance(1, 8)) { kf[f] += "+bad\n"; bad.insert(row[f]++); }
      if (s.chance(1, 8)) kf[f] += "\n";
      kf[f] += keyLine(p) + "\n";
      PatSpec q = p; q.user = row[f]++;
      by[f].push_back(q);
    }
    for (auto& v : by) specs.insert(specs.end(), v.begin(), v.end());
    for (size_t i = 0; i < n; ++i) put(d / cat("keys", i), kf[i]);
    if (n == 1 && s.chance(1, 2)) pos.push_back("keys0");
    else for (size_t i = 0; i < n; ++i) opt(s, args, "-k", "--keywords", cat("keys", i));
  }
  else {
    std::vector<std::string> encs;
    for (size_t k = s.below(4); k; --k) encs.push_back(s.pick(so.encs));
    const bool fixed = s.chance(1, 4), ci = s.chance(1, 4);
    for (auto& e : encs) {
      std::string x = e;
      if (s.chance(1, 3)) for (auto& ch : x) ch = tolower(ch);            // any case will do
      opt(s, args, "-e", "--encoding", x);
    }
    if (fixed) args.push_back(s.chance(1, 2) ? "-F" : "--fixed-strings");
    if (ci) args.push_back(s.chance(1, 2) ? "-i" : "--ignore-case");
    if (encs.empty()) encs.push_back("US-ASCII");
    uint64_t row = 0;
    for (auto& p : ps.specs) {
      opt(s, args, "-p", "--pattern", p.text);
      for (auto& e : encs) specs.push_back({p.text, fixed, ci, false, e, row});
      ++row;
    }
  }

  // what the library makes of it
  Lg lg;
  size_t good = 0;
  for (auto& p : specs) { if (lg.add(p) >= 0) ++good; else bad.insert(p.user); }
  const bool ok = good && lg.compile(std::min<uint32_t>(ps.depth, 2)) && lg.context();

  Corpus cp = genCorpus(s, d, ps, 300);
  const Bytes in = s.chance(1, 6) ? Bytes() : genSetText(s, ps, 300);
  size_t maxData = in.size();
  for (auto& f : cp.files) maxData = std::max(maxData, f.data.size());

  args.push_back(cat("--determinize-depth=", s.chance(1, 2) ? ps.depth : 0));
  bool small = false;
  if (s.chance(3, 4)) { const size_t b = 1 + s.small(40); small = b < maxData; opt(s, args, "", "--block-size", cat(b)); }
  const bool rec = s.chance(1, 2);
  if (rec) args.push_back(s.chance(1, 2) ? "-r" : "--recursive");

  // inputs, in the order in which they are to be searched
  std::vector<Input> order;
  bool stdinUsed = false, unordered = false, anyStdin = false;
  auto visit = [&](const std::string& p) {
    if (p == "-") { if (!stdinUsed) { order.push_back({"(standard input)", in}); stdinUsed = true; } return; }
    for (auto& f : cp.files) if (f.path == p) { order.push_back(f); return; }
    if (rec) {
      size_t k = 0;
      for (auto& f : cp.files) if (f.path.compare(0, p.size() + 1, p + "/") == 0) { order.push_back(f); ++k; }
      unordered |= k > 1;
    }
  };
  auto genInput = [&](bool list) {
    if (!list && s.chance(1, 8)) return std::string("-");
    if (cp.dirs.size() > 1 && s.chance(1, 3)) { std::string x = cp.dirs[1 + s.below(cp.dirs.size() - 1)]; x.pop_back(); return x; }
    return s.pick(cp.files).path;
  };
  const size_t nlists = s.chance(1, 3) ? 1 + s.below(2) : 0;
  std::vector<std::vector<std::string>> lists(nlists);
  std::vector<std::string> files;
  bool listIsStdin = false;
  Bytes input = in;
  for (size_t i = 0; i < nlists; ++i) {
    Bytes t;
    for (size_t k = s.below(4); k; --k) { lists[i].push_back(genInput(false)); t += lists[i].back() + "\n"; }
    if (!t.empty() && s.chance(1, 4)) t.pop_back();
    if (!listIsStdin && s.chance(1, 5)) { listIsStdin = true; input = t; opt(s, args, "-a", "--arg-file", "-"); }
    else { put(d / cat("list", i), t); opt(s, args, "-a", "--arg-file", cat("list", i)); }
    if (args.back() == "--arg-file=-") lists[i].push_back("\x01stdin");
  }
  const bool more = nlists ? s.chance(1, 2) : s.chance(3, 4);
  if (more) for (size_t k = 1 + s.below(4); k; --k) files.push_back(genInput(false));
  for (auto& l : lists) {
    const bool fromStdin = !l.empty() && l.back() == "\x01stdin";
    if (fromStdin) { l.pop_back(); if (stdinUsed) continue; stdinUsed = true; }
    for (auto& p : l) visit(p);
  }
  for (auto& p : files) visit(p);
  if (!nlists && files.empty()) visit("-");
  for (auto& p : files) anyStdin |= p == "-";
  anyStdin |= !nlists && files.empty();
  for (auto& l : lists) for (auto& p : l) anyStdin |= p == "-";
  if (listIsStdin) {                                     // the list is what standard input holds
    for (auto& o : order) if (o.path == "(standard input)") o.data = input;
  }
  if (!anyStdin && s.chance(1, 3)) args.push_back("--mmap");

  // paths
  bool path = nlists || !files.empty();
  if (s.chance(1, 4)) { args.push_back(s.chance(1, 2) ? "-H" : "--with-filename"); path = true; }
  else if (s.chance(1, 4)) { args.push_back(s.chance(1, 2) ? "-h" : "--no-filename"); path = false; }
  const bool quiet = s.chance(1, 20);
  if (quiet) args.push_back("--no-output");
  const bool toFile = s.chance(1, 5);
  if (toFile) { opt(s, args, "-o", "--output", "result"); stale(s, d / "result"); }

  // positional arguments anywhere among the options, but in their order; after -- when they look like options
  pos.insert(pos.end(), files.begin(), files.end());
  for (auto& p : pos) args.push_back(p);

  c.ident(show(args) + ps.str());
  c.note("command", [&] { return "lightgrep" + show(args); });
  c.note("patterns", [&] { return ps.str(); });
  for (auto& f : cp.files) c.note("file", [&] { return quote(f.path) + ": " + quote(f.data); });
  c.note("stdin", [&] { return quote(input); });

  Run r = run(d, args, &input);
  if (!ok) {
    c.label("no valid pattern");
    c.checkf(r.status == 1 && r.out.empty(), [&] { return cat("no valid pattern, but status ", r.status, " output ", quote(r.out)); });
    return;
  }
  std::vector<std::string> want;
  std::vector<size_t> ends;
  size_t hits = 0;
  for (auto& f : order) {
    lg_reset_context(lg.ctx);
    for (auto& h : searchAll(lg.ctx, f.data)) { want.push_back((path ? f.path + "\t" : "") + hitLine(lg.prog, h)); ++hits; }
    ends.push_back(want.size());
  }
  if (quiet) { want.clear(); ends.clear(); }
  c.checkf(r.status == 0, [&] { return cat("status ", r.status, ", stderr ", quote(r.err)); });
  const Bytes out = toFile ? get(d / "result") : r.out;
  if (toFile) c.check(r.out.empty(), "output on stdout as well as in the file");
  std::vector<std::string> got = lines(out);
  c.check(out.empty() || out.back() == '\n', "last line not ended");
  // the hits of different patterns in one input come in no particular order
  if (!unordered && got.size() == want.size()) {
    size_t b = 0;
    for (size_t e : ends) { std::sort(got.begin() + b, got.begin() + e); std::sort(want.begin() + b, want.begin() + e); b = e; }
  }
  if (unordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
  c.checkf(got == want, [&] {
    std::string o = cat("expected ", want.size(), " lines, got ", got.size());
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
      const std::string a = i < want.size() ? want[i] : "(none)", b = i < got.size() ? got[i] : "(none)";
      if (a != b) return cat(o, "; line ", i, ": expected ", quote(a), " got ", quote(b));
    }
    return o;
  });
  std::set<uint64_t> reported;
  for (auto& l : lines(r.err)) if (l.compare(0, 8, "pattern ") == 0 || l.find(", pattern ") != l.npos) reported.insert(strtoull(l.c_str() + l.find("pattern ") + 8, nullptr, 10));
  c.checkf(reported == bad, [&] { std::string o; for (auto b : bad) o += cat(" ", b); return cat("bad lines", o, "; stderr: ", quote(r.err)); });
  if (hits) {
    c.nontrivial = true;
    if (small) c.label("hits, several blocks");
    if (order.size() > 1) c.label("several inputs");
    if (unordered) c.label("recursive");
    if (!bad.empty()) c.label("with bad lines");
    if (anyStdin) c.label("stdin");
  }
}
}

pbt::Suite suite() {
  Suite s;
  s.id = "C16";
  s.rule = "random keyword files (1-2, some bad lines, all columns) or -p patterns with -e/-i/-F, random corpora of 1-4 files in nested directories, standard input; inputs as positionals, -a lists (files or stdin), '-', directories with and without -r; block sizes 1-41 or default, --mmap, determinization depth, -H/-h, -o, --no-output; stdout must be exactly the library's hits for each input in turn (order of files within a directory free), one complaint per bad line, status 0, or 1 when there is no valid pattern. Non-trivial: some hits.";
  s.parts = {{"keys", [](Case& c) { run(c, true); }, 6000, 60000}, {"cmdline", [](Case& c) { run(c, false); }, 6000, 60000}};
  return s;
}
