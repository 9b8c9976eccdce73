// C20: the Python bindings do what the C library does.
#include "peer.h"
using namespace cli;

namespace {
peer::Server& server() {
  static peer::Server s([] {
    const char* repo = getenv("VERIF_REPO");
    const std::string src = cat(repo ? repo : "/repo", "/pylightgrep/lightgrep"), so = argOpt("so"), py = scratch() + "/py";
    if (so.empty()) throw std::runtime_error("no --so=path");
    const std::string cmd = cat("mkdir -p '", py, "/lightgrep' && cp '", src, "'/*.py '", py, "/lightgrep/' && ln -sf '", so, "' '", py, "/lightgrep/liblightgrep.so'");
    if (system(cmd.c_str())) throw std::runtime_error("cannot set the bindings up");
    // MALLOC_PERTURB_: what was let go does not stay readable
    return std::vector<std::string>{"env", "PYTHONPATH=" + py, "PYTHONMALLOC=malloc", "MALLOC_PERTURB_=165", "PYTHONIOENCODING=utf-8", "python3", "-B", peer::home() + "/harness/pydrv.py"};
  });
  return s;
}

std::string pyb(const Bytes& b) {
  static const char* D = "0123456789abcdef";
  std::string o = "b'";
  for (unsigned char c : b) { o += "\\x"; o += D[c >> 4]; o += D[c & 15]; }
  return o + "'";
}
std::string pys(const std::string& s) { return pyb(s) + ".decode()"; }
std::string flags(const PatSpec& p) { return cat("(", int(p.fixed), ",", int(p.ci), ",", int(p.uni), ")"); }

struct Op { int what; Bytes data; uint64_t off = 0; int kind = 0; int window = 0; };
const char* NAMES[] = {"search", "starts", "closeout", "reset", "buffer", "startsbuffer", "context"};

struct Want { std::string line, within; };
typedef std::vector<Want> Script;

void hitLines(Script& w, LG_HPROGRAM prog, Collector& g) {
  for (auto& h : g.hits) {
    const LG_PatternInfo* i = lg_prog_pattern_info(prog, h.kw);
    w.push_back({cat("hit ", h.start, " ", h.end, " ", i->UserIndex, " ", hex(i->Pattern), " ", i->EncodingChain), ""});
  }
  w.push_back({"counts ok", ""});
  g.hits.clear();
}

struct Entry { PatSpec p; std::vector<std::string> encs; };

// pattern parsed and added with the library itself
int addOne(LG_HFSM fsm, LG_HPATTERN pat, const PatSpec& p, const std::string& enc, std::string& msg) {
  LG_KeyOptions o{char(p.fixed), char(p.ci), char(p.uni)};
  LG_Error* err = nullptr;
  int r = lg_parse_pattern(pat, p.text.c_str(), &o, &err) ? 0 : -1;
  if (!r) r = lg_add_pattern(fsm, pat, enc.c_str(), p.user, &err);
  if (err) { msg = err->Message; lg_free_error(err); }
  return r;
}
}

static void history(Case& c, SetOpts so, size_t len, bool ctxs) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  for (size_t i = ps.specs.size(); i-- > 0;)
    if (ps.specs[i].text.find('\0') != Bytes::npos) { ps.specs.erase(ps.specs.begin() + i); ps.pats.erase(ps.pats.begin() + i); ps.encs.erase(ps.encs.begin() + i); }
  c.require(!ps.specs.empty());
  for (auto& p : ps.specs) switch (s.below(4)) {
    case 0: break;
    case 1: p.user = s.below(1000); break;
    case 2: p.user = (1ull << (8 * (1 + s.below(7)))) + s.below(5) - 2; break;
    case 3: p.user = ~0ull - s.below(3); break;
  }
  c.note("patterns", [&] { return ps.str(); });
  const bool bulk = s.chance(1, 3);
  const unsigned bad = s.weighted({12, 1, 1, 1, 1});
  static const char* BROKEN[] = {"a(b", "[", "x{3,2}", "(?<=a)b", "a*", "\\x{110000}", "[b-a]", "\\p{Nothing}"};
  std::vector<PatSpec> adds = ps.specs;
  const size_t at = s.below(adds.size() + 1);
  if (bad == 1) adds.insert(adds.begin() + at, PatSpec{BROKEN[s.below(8)], false, false, false, "UTF-8", 7});
  if (bad == 2) adds.insert(adds.begin() + at, PatSpec{"ab", false, false, false, s.oneof<const char*>({"UTF-9", "", "ASCII|rot99"}), 8});
  if (bad == 3) adds.insert(adds.begin() + at, PatSpec{"\xCE\xBB", true, false, false, "ASCII", 9});
  if (bad == 4 && bulk) adds.insert(adds.begin() + at, PatSpec{"", false, false, false, "UTF-8", 9});
  Script want;
  const bool early = s.chance(1, 2);
  const int image = s.below(3);
  std::string lit, encs;
  LG_HFSM fsm = lg_create_fsm(0, 0);
  LG_HPATTERN pat = lg_create_pattern();
  LG_ProgramOptions po{ps.depth};
  LG_HPROGRAM prog = nullptr;
  bool failed = false, wide = false;
  struct Fin { LG_HFSM& f; LG_HPATTERN& p; LG_HPROGRAM& g; LG_HCONTEXT x = nullptr; ~Fin() { lg_destroy_context(x); lg_destroy_program(g); lg_destroy_pattern(p); lg_destroy_fsm(f); } } fin{fsm, pat, prog};
  if (bulk) {
    std::vector<Entry> list;
    for (auto& p : adds) {
      Entry e{p, {p.enc}};
      if (s.chance(1, 3)) e.encs.push_back(so.encs.size() > 1 ? s.oneof<const char*>({"UTF-8", "UTF-16LE", "windows-1252", "UTF-32BE"}) : s.oneof<const char*>({"ISO-8859-1", "windows-1252", "ASCII", "KOI8-R"}));
      if (s.chance(1, 25)) e.encs.clear();
      list.push_back(e);
    }
    lit = "'list':[";
    for (size_t i = 0; i < list.size(); ++i) {
      encs = "[";
      for (auto& e : list[i].encs) encs += "'" + e + "',";
      lit += cat("(", pyb(list[i].p.text), ",", encs, "],", flags(list[i].p), "),");
    }
    lit += "]";
    for (size_t i = 0; i < list.size() && !failed; ++i) {
      if (list[i].p.text.empty() || list[i].encs.empty()) { failed = true; want.push_back({"make raised", ""}); break; }
      for (auto& e : list[i].encs) {
        PatSpec p = list[i].p; p.user = i;
        std::string m;
        if (addOne(fsm, pat, p, e, m) < 0) { failed = true; want.push_back({"make raised", m}); break; }
      }
      if (list[i].encs.size() > 1) wide = true;
    }
    if (!failed && wide && ps.depth > 2) po.DeterminizeDepth = 2;
    if (!failed && !(prog = lg_create_program(fsm, &po))) { failed = true; want.push_back({"make raised", ""}); }
  }
  else {
    lit = "'adds':[";
    for (auto& p : adds) lit += cat("(", pyb(p.text), ",'", p.enc, "',", flags(p), ",", p.user, "),");
    lit += "]";
    for (auto& p : adds) {
      std::string m;
      const int r = addOne(fsm, pat, p, p.enc, m);
      if (r < 0) want.push_back({"add raised", m});
      else want.push_back({cat("add ", r), ""});
    }
    want.push_back({cat("count ", lg_fsm_pattern_count(fsm)), ""});
    if (early) want.push_back({"closed raised", ""});
    prog = lg_create_program(fsm, &po);
    if (!prog) { failed = true; want.push_back({"program raised", ""}); }
    if (early) want.push_back({"closed raised", ""});
  }
  std::vector<Op> ops;
  bool hits = false; size_t nhit = 0;
  const bool closeprog = s.chance(1, 4);
  if (!failed) {
    want.push_back({cat("patterns ", lg_prog_pattern_count(prog)), ""});
    if (image) {
      want.push_back({"image ok", ""}); want.push_back({"closed raised", ""});
      want.push_back({cat("patterns ", lg_prog_pattern_count(prog)), ""});
    }
    LG_ContextOptions co{~0ull, 0};
    LG_HCONTEXT x = fin.x = lg_create_context(prog, &co);
    bool fresh = true, closed = false; uint64_t base = 0; size_t fed = 0;
    const size_t n = 1 + s.small(10);
    for (size_t k = 0; k < n; ++k) {
      Op o;
      o.what = ctxs ? 6 : s.weighted({8, 1, 3, 2, 3, 1, 1});
      if (closed && o.what != 3) o.what = 3;
      if ((o.what == 1 || o.what >= 4) && !fresh) o.what = s.chance(1, 2) ? 2 : 3;
      o.kind = s.below(4);
      if (o.what != 2 && o.what != 3) o.data = s.chance(1, 12) ? Bytes() : genSetText(s, ps, len);
      if (o.kind == 3 && o.data.empty()) o.kind = 0;
      const char* b = o.data.data(); const char* e = b + o.data.size();
      Collector g;
      switch (o.what) {
      case 0:
        if (fresh) { base = genBase(s); fed = 0; }
        o.off = base + fed; fed += o.data.size();
        want.push_back({"", ""});
        { const size_t at2 = want.size() - 1; want[at2].line = cat("ret ", lg_search(x, b, e, o.off, &g, collect)); }
        fresh = false;
        break;
      case 1: o.off = genBase(s); lg_starts_with(x, b, e, o.off, &g, collect); break;
      case 2: lg_closeout_search(x, &g, collect); closed = true; fresh = false; break;
      case 3: lg_reset_context(x); fresh = true; closed = false; break;
      case 4: case 5:
        if (o.what == 4) lg_search(x, b, e, 0, &g, collect); else lg_starts_with(x, b, e, 0, &g, collect);
        lg_closeout_search(x, &g, collect); lg_reset_context(x);
        want.push_back({cat("n ", g.hits.size()), ""});
        break;
      case 6: {
        o.off = genBase(s); o.window = s.chance(1, 4) ? -1 : int(s.small(40));
        lg_search(x, b, e, o.off, &g, collect); lg_closeout_search(x, &g, collect); lg_reset_context(x);
        std::vector<Hit> h = g.hits;
        nhit += g.hits.size();
        hitLines(want, prog, g);
        static LG_HDECODER dec = lg_create_decoder();
        for (auto& i : h) {
          LG_Window in{i.start, i.end}, out, dh; const char* u = nullptr; LG_Error* err = nullptr;
          lg_hit_context(dec, b, e, o.off, &in, lg_prog_pattern_info(prog, i.kw)->EncodingChain, o.window < 0 ? 100 : o.window, ' ', &u, &out, &dh, &err);
          c.check(!err && u, "the library gives no context");
          want.push_back({cat("context ", out.begin, " ", out.end, " ", dh.begin, " ", dh.end, " ", hex(u)), ""});
          lg_free_hit_context_string(u);
        }
        break; }
      }
      nhit += g.hits.size();
      hitLines(want, prog, g);
      ops.push_back(o);
    }
    hits = nhit > 0;
    want.push_back({"closed raised", ""});
    if (closeprog) want.push_back({"closed raised", ""});
  }
  std::string os;
  for (auto& o : ops) os += cat("('", NAMES[o.what], "',", pyb(o.data), ",", o.off, ",", o.kind, ",", o.window, "),");
  const std::string q = cat("{'bulk':", int(bulk), ",", lit, ",'depth':", po.DeterminizeDepth, ",'closeearly':", int(early), ",'image':", image, ",'ops':[", os, "],'closeprog':", int(closeprog), "}");
  c.note("history", [&] { return q; });
  c.ident(q);
  std::vector<std::string> got; std::string why;
  c.checkf(server().ask(q, got, why), [&] { return cat(why, " on ", q); });
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    c.checkf(i < got.size(), [&] { return cat("the bindings stopped before '", want[i].line, "' on ", q); });
    c.checkf(i < want.size(), [&] { return cat("the bindings went on with '", got[i], "' on ", q); });
    const std::string& w = want[i].line;
    if (w.size() > 7 && w.substr(w.size() - 7) == " raised") {
      c.checkf(got[i].compare(0, w.size() + 1, w + " ") == 0, [&] { return cat("expected '", w, "', got '", got[i], "' on ", q); });
      const std::string m = got[i].substr(w.size() + 1);
      c.checkf(!m.empty() && m.find(hex(want[i].within)) != std::string::npos, [&] { return cat("message of '", w, "' does not hold '", want[i].within, "' on ", q); });
    }
    else c.checkf(got[i] == w, [&] { return cat("expected '", w, "', got '", got[i], "' (line ", i, ") on ", q); });
  }
  if (failed) c.label("refused");
  if (image) c.label("program read back from an image");
  if (hits || failed) c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C20";
  s.rule = "Random histories of the Python bindings (patterns added one by one or in bulk, good and bad, any user index; program made, written, closed and read back from a bytearray or bytes; search / starts_with / closeout / reset / whole-buffer searches and hit contexts over bytes, bytearray, memoryview and mmap; use after close) carried out by a Python interpreter and by the C library, and the two transcripts compared. Non-trivial: there were hits, or the patterns were refused.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; so.maxTotal = 40; return so; };
  s.parts = {
    {"history", [=](Case& c) { SetOpts so = base(); history(c, so, 60, false); }, 12000, 200000},
    {"history-mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "ISO-8859-1"}; so.maxTotal = 25; history(c, so, 80, false); }, 4000, 80000},
    {"contexts", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "UTF-32BE", "ASCII"}; so.maxTotal = 25; history(c, so, 120, true); }, 4000, 80000},
  };
  return s;
}
