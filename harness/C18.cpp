// C18: context columns and histograms on the command line.
#include "cli.h"
#include <map>
using namespace cli;

namespace {
// lines and tabs, control characters and bytes of no meaning, among the matter
Bytes spice(Src& s, const Bytes& t, bool wide) {
  static const char* X[] = {"\n", "\r\n", "\n\n", "\t", "\r", "\a\b\v\f", "\xFF", "\xE2\x82\xAC", "\xC3", " ", "\\n"};
  Bytes o;
  const unsigned den = 2 + s.below(12);
  for (char c : t) {
    if (!wide && s.chance(1, den)) o += s.chance(1, 12) ? Bytes(1, '\0') : Bytes(X[s.below(11)]);
    o += c;
  }
  if (!wide && s.chance(1, 2)) o += X[s.below(3)];
  return o;
}

// where the lines around [b,e) start and end
std::pair<size_t, size_t> around(const Bytes& t, size_t b, size_t e, int before, int after) {
  size_t cb = b, ce = e;
  if (before >= 0) {
    int left = before + 1;                              // so many newlines back
    while (cb > 0 && !(t[cb - 1] == '\n' && --left == 0)) --cb;
  }
  if (after >= 0) {
    int left = after + 1;
    while (ce < t.size() && !(t[ce] == '\n' && --left == 0)) ++ce;
    if (ce < t.size() && ce > e && t[ce - 1] == '\r') --ce;
  }
  return {cb, ce};
}

LG_HDECODER decoder() { static LG_HDECODER h = lg_create_decoder(); return h; }

// [b,e) of t in UTF-8, and the hit within
std::string render(Case& c, const Bytes& t, size_t b, size_t e, const Hit& h, const char* enc, std::string& hit) {
  const Bytes part = t.substr(b, e - b);
  std::unique_ptr<char[]> x(new char[part.size() + 1]);
  memcpy(x.get(), part.data(), part.size());
  const LG_Window in{h.start, h.end};
  LG_Window out, dh;
  const char* u = nullptr; LG_Error* err = nullptr;
  lg_hit_context(decoder(), x.get(), x.get() + part.size(), b, &in, enc, e - b, 0xFFFD, &u, &out, &dh, &err);
  c.check(!err && u, "no context from the library");
  std::string o = u;
  lg_free_hit_context_string(u);
  hit = o.substr(dh.begin, dh.end - dh.begin);
  return o;
}

std::string esc(const std::string& s, bool all) {
  std::string o;
  for (char ch : s) switch (ch) {
    case '\t': o += "\\t"; break;
    case '\n': o += "\\n"; break;
    case '\r': o += "\\r"; break;
    case '\a': o += all ? "\\a" : "\a"; break;
    case '\b': o += all ? "\\b" : "\b"; break;
    case '\v': o += all ? "\\v" : "\v"; break;
    case '\f': o += all ? "\\f" : "\f"; break;
    default: o += ch;
  }
  return o;
}

struct Input { std::string path; Bytes data; };

void lineRun(Case& c) {
  Src& s = c.s;
  Dir d;
  int before = -1, after = -1;
  std::vector<std::string> args;
  auto num = [&](const char* sh, const char* lg, int n) { if (s.chance(1, 2)) { args.push_back(sh); args.push_back(cat(n)); } else args.push_back(cat(lg, "=", n)); };
  auto lines = [&] { return int(s.chance(1, 10) ? 1000 : s.below(4)); };
  const size_t kind = s.weighted({3, 3, 1, 1, 2});
  switch (kind) {
  case 0: before = after = lines(); num("-C", "--context", before); break;
  case 1: break;
  case 2: before = lines(); num("-B", "--before-context", before); break;
  case 3: after = lines(); num("-A", "--after-context", after); break;
  case 4: before = lines(); after = lines(); num("-B", "--before-context", before); num("-A", "--after-context", after); break;
  }
  const bool ctx = before >= 0 || after >= 0;
  const bool hist = !ctx || s.chance(1, 2);

  SetOpts so; so.minPats = 1; so.maxPats = 5; so.maxTotal = 40;
  bool wide = false;
  switch (s.below(ctx ? 3 : 4)) {
  case 1: so.encs = {"UTF-8"}; so.kind = 3; break;
  case 2: so.encs = {"ISO-8859-1", "ASCII"}; so.kind = 3; break;
  case 3: so.encs = {"UTF-16LE"}; so.kind = 1; wide = true; break;
  }
  PatSet ps = genSet(s, so);
  listableOnly(ps);
  c.require(!ps.specs.empty());
  if (s.chance(1, 3)) {                                 // whole lines and control characters
    static const char* P[] = {"[^\\n]{1,8}", "\\s\\S", "a?\\n", "\\r\\n", "\\n", "\\t", "[\\a\\f\\v\\r]a?", ".", "\\s{1,3}", "a.b"};
    for (size_t k = 1 + s.below(2); k; --k) ps.specs.push_back({P[s.below(10)], false, false, false, so.encs[0], 0});
  }
  // two keyword files, each with its own numbers
  const size_t nk = 1 + s.below(2);
  std::vector<Bytes> kf(nk);
  std::vector<std::vector<PatSpec>> by(nk);
  for (auto& p : ps.specs) {
    const size_t f = s.below(nk);
    kf[f] += keyLine(p) + "\n";
    p.user = by[f].size();
    by[f].push_back(p);
  }
  Lg lg;
  size_t good = 0;
  for (auto& v : by) for (auto& p : v) good += lg.add(p) >= 0;
  c.require(good && lg.compile(std::min<uint32_t>(ps.depth, 2)) && lg.context());
  for (size_t i = 0; i < nk; ++i) { put(d / cat("k", i), kf[i]); args.push_back("-k"); args.push_back(cat("k", i)); }

  std::vector<Input> in(1 + s.below(3));
  for (size_t i = 0; i < in.size(); ++i) {
    in[i].path = cat("in", i);
    in[i].data = i && s.chance(1, 6) ? in[0].data : spice(s, genSetText(s, ps, 200), wide);
    put(d / in[i].path, in[i].data);
  }
  args.push_back("--determinize-depth=0");
  bool small = false;
  if (s.chance(2, 3)) { const size_t b = 1 + s.small(40); small = b < in[0].data.size(); args.push_back(cat("--block-size=", b)); }
  std::string sep = "--";
  if (s.chance(1, 2)) { static const char* S[] = {"***", "-", "%s", "a\tb", "=="}; sep = S[s.below(5)]; args.push_back("--group-separator=" + sep); }
  if (hist) stale(s, d / "hist");
  if (hist) { if (s.chance(1, 2)) args.push_back("--histogram-file=hist"); else { args.push_back("--histogram-file"); args.push_back("hist"); } }
  const bool quiet = s.chance(1, 8), mmap = s.chance(1, 4), std_in = !ctx && !mmap && s.chance(1, 6);
  if (quiet) args.push_back("--no-output");
  if (mmap) args.push_back("--mmap");
  bool path = !std_in;
  if (path && s.chance(1, 3)) { args.push_back("-h"); path = false; }
  if (std_in) in.resize(1);
  else for (auto& i : in) args.push_back(i.path);

  c.ident(show(args) + ps.str() + in[0].data);
  c.note("command", [&] { return "lightgrep" + show(args); });
  for (auto& k : kf) c.note("keywords", [&] { return quote(k); });
  for (auto& i : in) c.note("input", [&] { return quote(i.data, 1000); });

  // what is expected
  struct K { std::string text, pat; uint64_t user; bool operator<(const K& o) const { return std::tie(text, pat, user) < std::tie(o.text, o.pat, o.user); } };
  std::map<K, uint64_t> counts;
  std::vector<std::string> want;
  std::vector<size_t> ends;
  bool special = false, many = false;
  for (auto& i : in) {
    lg_reset_context(lg.ctx);
    for (auto& h : searchAll(lg.ctx, i.data)) {
      const LG_PatternInfo* pi = lg_prog_pattern_info(lg.prog, h.kw);
      const auto w = around(i.data, h.start, h.end, before, after);
      std::string hit;
      const std::string text = render(c, i.data, w.first, w.second, h, pi->EncodingChain, hit);
      std::string l = (path ? i.path + "\t" : "") + hitLine(lg.prog, h);
      if (ctx) l += cat("\t", w.first, "\t", esc(text, false));
      want.push_back(l);
      special |= esc(text, true) != text;
      many |= ++counts[{hit, pi->Pattern, pi->UserIndex}] > 1;
    }
    ends.push_back(want.size());
  }
  const size_t hits = want.size();

  Run r = cli::run(d, args, std_in ? &in[0].data : nullptr);
  c.checkf(r.status == 0, [&] { return cat("status ", r.status, ", stderr ", quote(r.err)); });
  std::vector<std::string> got = cli::lines(r.out);
  if (quiet) c.checkf(r.out.empty(), [&] { return "output with --no-output: " + quote(r.out); });
  else {
    if (ctx) {                                           // hits are set apart
      std::vector<std::string> g;
      for (size_t i = 0; i < got.size(); ++i) {
        if (i % 2 == 0) g.push_back(got[i]);
        else c.checkf(got[i] == sep, [&] { return cat("line ", i, " should be the separator, is ", quote(got[i]), " in ", quote(r.out)); });
      }
      c.checkf(got.empty() || got.size() % 2, [&] { return "separator at the end: " + quote(r.out); });
      got = g;
    }
    if (got.size() == want.size()) {
      size_t b = 0;
      for (size_t e : ends) { std::sort(got.begin() + b, got.begin() + e); std::sort(want.begin() + b, want.begin() + e); b = e; }
    }
    c.checkf(got == want, [&] {
      for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        const std::string a = i < want.size() ? want[i] : "(none)", b = i < got.size() ? got[i] : "(none)";
        if (a != b) return cat("line ", i, ": expected ", quote(a), " got ", quote(b));
      }
      return std::string();
    });
  }

  if (hist) {
    std::vector<std::pair<K, uint64_t>> v(counts.begin(), counts.end());
    auto rank = [](const std::pair<K, uint64_t>& x) { return std::make_tuple(~x.second, x.first.user, x.first.text); };
    std::stable_sort(v.begin(), v.end(), [&](auto& a, auto& b) { return rank(a) < rank(b); });
    std::vector<std::string> w, g = cli::lines(get(d / "hist"));
    for (auto& x : v) w.push_back(cat(x.second, "\t", esc(x.first.text, true), "\t", x.first.user, "\t", esc(x.first.pat, true)));
    if (w.size() == g.size())
      for (size_t i = 0, j; i < v.size(); i = j) {       // equals may come in any order
        for (j = i; j < v.size() && rank(v[j]) == rank(v[i]); ++j) ;
        std::sort(w.begin() + i, w.begin() + j); std::sort(g.begin() + i, g.begin() + j);
      }
    c.checkf(w == g, [&] {
      for (size_t i = 0; i < std::max(g.size(), w.size()); ++i) {
        const std::string a = i < w.size() ? w[i] : "(none)", b = i < g.size() ? g[i] : "(none)";
        if (a != b) return cat("histogram line ", i, ": expected ", quote(a), " got ", quote(b));
      }
      return std::string();
    });
  }
  if (hits) {
    c.nontrivial = true;
    if (ctx) c.label("context");
    if (ctx && special) c.label("context to be escaped");
    if (hist) c.label("histogram");
    if (hist && many) c.label("histogram counting above one");
    if (hist && !ctx && !mmap && small) c.label("histogram over several blocks");
    if (hist && ctx) c.label("both");
  }
}
}

pbt::Suite suite() {
  Suite s;
  s.id = "C18";
  s.rule = "random keyword files (1-2; ASCII, UTF-8, ISO-8859-1, and UTF-16LE for histograms without context), inputs with newlines, CRLF, tabs, control characters, NULs and undecodable bytes mixed in, every combination of -A/-B/-C, separator, histogram, block size, --mmap, stdin, --no-output, -h; each line must have the offset and the escaped text of the lines around the hit, found by counting newlines in the input; separators between hits only; the histogram must have exactly the counts of each decoded hit text per keyword, in descending order of count, then by keyword number and text. Non-trivial: some hits.";
  s.parts = {{"lines", lineRun, 12000, 120000}};
  return s;
}
