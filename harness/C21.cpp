// C21: the Java bindings do what the C library does.
#include "peer.h"

namespace {
peer::Server& server() {
  static peer::Server s([] {
    const std::string d = argOpt("jni");
    if (d.empty()) throw std::runtime_error("no --jni=path");
    return std::vector<std::string>{"java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xms32m", "-Xmx96m", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + scratch() + "/hs_err.log",
      "-Djava.library.path=" + d, "-cp", d + "/classes", "JavaDrv"};
  });
  return s;
}

struct Want { std::string line, within; };
typedef std::vector<Want> Script;
const char* IOOB = "IndexOutOfBoundsException";
const char* STATE = "IllegalStateException";

std::string hx(const Bytes& b) { return b.empty() ? "-" : hex(b); }
int flags(const PatSpec& p) { return int(p.fixed) | int(p.ci) << 1 | int(p.uni) << 2; }

int addOne(LG_HFSM fsm, LG_HPATTERN pat, const PatSpec& p, std::string& msg) {
  LG_KeyOptions o{char(p.fixed), char(p.ci), char(p.uni)};
  LG_Error* err = nullptr;
  int r = lg_parse_pattern(pat, p.text.c_str(), &o, &err) ? 0 : -1;
  if (!r) r = lg_add_pattern(fsm, pat, p.enc.c_str(), int32_t(p.user), &err);
  if (err) { msg = err->Message; lg_free_error(err); }
  return r;
}

// what may be collected before the callback has had enough
bool hitLines(Script& w, const Collector& g, int stop) {
  int k = 0;
  for (auto& h : g.hits) {
    w.push_back({cat("hit ", h.start, " ", h.end, " ", h.kw), ""});
    if (++k == stop) { w.push_back({"enough", ""}); return true; }
  }
  return false;
}
}

static void history(Case& c, SetOpts so, size_t len, bool ctxs) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  for (size_t i = ps.specs.size(); i-- > 0;)
    if (ps.specs[i].text.find('\0') != Bytes::npos) { ps.specs.erase(ps.specs.begin() + i); ps.pats.erase(ps.pats.begin() + i); ps.encs.erase(ps.encs.begin() + i); }
  c.require(!ps.specs.empty());
  c.note("patterns", [&] { return ps.str(); });
  for (auto& p : ps.specs) p.user = uint32_t(s.chance(1, 2) ? s.below(1000) : s.oneof<uint32_t>({0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x10000, 0}));
  static const char* BROKEN[] = {"a(b", "[", "x{3,2}", "(?<=a)b", "a*", "\\x{110000}", "[b-a]", "\\p{Nothing}"};
  std::vector<PatSpec> adds = ps.specs;
  const size_t at = s.below(adds.size() + 1);
  switch (s.weighted({8, 1, 1, 1})) {
  case 1: adds.insert(adds.begin() + at, PatSpec{BROKEN[s.below(8)], false, false, false, "UTF-8", 7}); break;
  case 2: adds.insert(adds.begin() + at, PatSpec{"ab", false, false, false, s.oneof<const char*>({"UTF-9", "ASCII|rot99"}), 8}); break;
  case 3: adds.insert(adds.begin() + at, PatSpec{"\xCE\xBB", true, false, false, "ASCII", 9}); break;
  }
  Script want;
  struct Fin { LG_HFSM f; LG_HPATTERN p; LG_HPROGRAM g = nullptr; LG_HCONTEXT x = nullptr; ~Fin() { lg_destroy_context(x); lg_destroy_program(g); lg_destroy_pattern(p); lg_destroy_fsm(f); } } lg{lg_create_fsm(0, 0), lg_create_pattern()};
  std::string q = cat(s.small(1000), " ", s.small(1000), " ", adds.size());
  for (auto& p : adds) {
    q += cat(" ", hx(p.text), " ", hx(p.enc), " ", flags(p), " ", int32_t(p.user));
    std::string m;
    const int r = addOne(lg.f, lg.p, p, m);
    if (r < 0) want.push_back({"add raised KeywordException", m}); else want.push_back({cat("add ", r), ""});
  }
  const unsigned n = lg_fsm_pattern_count(lg.f);
  want.push_back({cat("count ", n), ""});
  auto info = [&](const char* what, unsigned i, const LG_PatternInfo* p) {
    want.push_back({cat("info ", what, " ", i, " ", hex(p->Pattern), " ", p->EncodingChain, " ", int32_t(p->UserIndex), " ", int32_t(p->UserIndex)), ""});
  };
  for (unsigned i = 0; i < n; ++i) info("fsm", i, lg_fsm_pattern_info(lg.f, i));
  for (int i = 0; i < 2; ++i) want.push_back({cat("index raised ", IOOB), ""});
  const unsigned set = s.below(n + 2), to = s.below(1000);
  q += cat(" ", set, " ", to);
  if (set < n) { lg_fsm_pattern_info(lg.f, set)->UserIndex = to; want.push_back({cat("user ", to), ""}); }
  else want.push_back({cat("index raised ", IOOB), ""});
  const bool early = s.chance(1, 2), det = s.chance(1, 2);
  const unsigned image = s.below(3), lead = s.small(20), trail = s.small(20);
  q += cat(" ", int(early), " ", int(det), " ", image, " ", lead, " ", trail);
  LG_ProgramOptions po{det};
  lg.g = lg_create_program(lg.f, &po);
  bool hits = false;
  if (!lg.g) { want.push_back({"compile raised ProgramException", ""}); q += " 0"; }
  else {
    want.push_back({"again raised ProgramException", ""});
    if (early) for (int i = 0; i < 3; ++i) want.push_back({cat("closed raised ", STATE), ""});
    if (image) {
      for (int i = 0; i < 2; ++i) want.push_back({cat("small raised ", IOOB), ""});
      want.push_back({cat("closed raised ", STATE), ""});
      want.push_back({cat("small raised ", IOOB), ""});
    }
    want.push_back({cat("patterns ", lg_prog_pattern_count(lg.g)), ""});
    for (unsigned i = 0; i < n; ++i) info("prog", i, lg_prog_pattern_info(lg.g, i));
    want.push_back({cat("index raised ", IOOB), ""});
    LG_ContextOptions co{~0ull, ~0ull};
    lg.x = lg_create_context(lg.g, &co);
    bool fresh = true, closed = false; uint64_t base = 0; size_t fed = 0;
    const size_t ops = 1 + s.small(10);
    q += cat(" ", ops);
    for (size_t k = 0; k < ops; ++k) {
      size_t what = ctxs ? 4 : s.weighted({8, 2, 3, 2, 1, 1});
      if (closed && what < 3) what = 3;
      if ((what == 1) && !fresh) what = s.chance(1, 2) ? 2 : 3;
      const unsigned kind = s.below(5), l = s.small(20), t = s.small(20);
      const int stop = s.chance(1, 8) ? int(1 + s.small(3)) : 0;
      const Bytes d = what == 2 || what == 3 || s.chance(1, 12) ? Bytes() : genSetText(s, ps, len);
      const char* b = d.data(); const char* e = b + d.size();
      uint64_t off = 0;
      Collector g;
      std::string more;
      bool over = false;
      switch (what) {
      case 0: {
        if (fresh) { base = genBase(s); fed = 0; }
        off = base + fed; fed += d.size(); fresh = false;
        const uint64_t r = lg_search(lg.x, b, e, off, &g, collect);
        over = hitLines(want, g, stop);
        if (!over) want.push_back({cat("ret ", int32_t(r)), ""});
        break; }
      case 1: off = genBase(s); lg_starts_with(lg.x, b, e, off, &g, collect); over = hitLines(want, g, stop); break;
      case 2: lg_closeout_search(lg.x, &g, collect); fresh = false; closed = true; over = hitLines(want, g, stop); break;
      case 3: lg_reset_context(lg.x); fresh = true; closed = false; break;
      case 4: {
        off = genBase(s);
        LG_HCONTEXT y = lg_create_context(lg.g, &co);
        g.hits = searchAll(y, d, off);
        lg_destroy_context(y);
        if (g.hits.size() > 8) g.hits.resize(8);
        if (s.chance(1, 4)) { Hit x = {}; x.start = off + s.below(d.size() + 1); x.end = x.start + s.below(d.size() + 4); g.hits.push_back(x); }
        const int wn = s.small(40); const uint32_t rep = s.oneof<uint32_t>({' ', 0xFFFD, 0xE9, 0x1F600});
        more = cat(" ", wn, " ", rep, " ", g.hits.size());
        static LG_HDECODER dec = lg_create_decoder();
        for (auto& i : g.hits) {
          const std::string enc = s.chance(1, 30) ? "UTF-9" : lg_prog_pattern_info(lg.g, i.kw)->EncodingChain;
          more += cat(" ", i.start, " ", i.end, " ", hx(enc));
          if (i.end > off + d.size()) { want.push_back({cat("context raised ", IOOB), ""}); continue; }
          LG_Window in{i.start, i.end}, out, dh; const char* u = nullptr; LG_Error* err = nullptr;
          const unsigned bad = lg_hit_context(dec, b, e, off, &in, enc.c_str(), wn, rep, &u, &out, &dh, &err);
          if (err) { want.push_back({"context raised UnsupportedEncodingException", err->Message}); lg_free_error(err); continue; }
          want.push_back({cat("context ", out.begin, " ", out.end, " ", dh.begin, " ", dh.end, " ", bad, " ", hex(u)), ""});
          lg_free_hit_context_string(u);
        }
        break; }
      case 5:
        for (int i = 0; i < 7; ++i) want.push_back({cat("bad raised ", i == 6 || (i == 5 && kind > 1) ? "NullPointerException" : IOOB), ""});
        break;
      }
      if (over) { lg_reset_context(lg.x); fresh = true; closed = false; c.label("callback had enough"); }
      hits |= !g.hits.empty();
      static const char* N[] = {"search", "starts", "closeout", "reset", "context", "bad"};
      q += cat(" ", N[what], " ", hx(d), " ", off, " ", kind, " ", l, " ", t, " ", stop, more);
    }
    for (int i = 0; i < 4; ++i) want.push_back({cat("closed raised ", STATE), ""});
  }
  c.note("history", [&] { return q; });
  c.ident(q);
  std::vector<std::string> got; std::string why;
  c.checkf(server().ask(q, got, why), [&] { return cat(why, " on ", q); });
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    c.checkf(i < got.size(), [&] { return cat("the bindings stopped before '", want[i].line, "' on ", q); });
    c.checkf(i < want.size(), [&] { return cat("the bindings went on with '", got[i], "' on ", q); });
    const std::string& w = want[i].line;
    if (w.find(" raised ") != w.npos) {
      c.checkf(got[i].compare(0, w.size() + 1, w + " ") == 0, [&] { return cat("expected '", w, "', got '", got[i], "' (line ", i, ") on ", q); });
      const std::string m = got[i].substr(w.size() + 1);
      c.checkf(!m.empty() && m.find(hex(want[i].within)) != std::string::npos, [&] { return cat("message of '", w, "' does not hold '", want[i].within, "' on ", q); });
    }
    else c.checkf(got[i] == w, [&] { return cat("expected '", w, "', got '", got[i], "' (line ", i, ") on ", q); });
  }
  if (image && lg.g) c.label("program read back from an array");
  if (hits) c.nontrivial = true;
}

// hits are not kept longer than their callbacks last
static void flood(Case& c) {
  Src& s = c.s;
  const uint64_t per = 4000000 + s.below(500000), times = 1 + s.below(2), n = per * times;
  const std::string q = cat("flood ", hx(s.oneof<const char*>({"a", "[a-c]", "a|b"})), " ", per, " ", times);
  c.note("flood", [&] { return q; });
  c.ident(q);
  std::vector<std::string> got; std::string why;
  c.checkf(server().ask(q, got, why), [&] { return cat(why, " on ", q); });
  const std::string want = cat("seen ", n, " ", n * (n + 1) / 2);
  c.checkf(got.size() == 1 && got[0] == want, [&] { return cat("expected '", want, "', got '", got.empty() ? std::string() : got[0], "' on ", q); });
  c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C21";
  s.rule = "Random histories of the Java bindings (patterns good and bad, user indices read and set; program compiled, written into the middle of an array, destroyed and read back, the array then overwritten and collected; search / startsWith / closeout / reset / hit contexts over arrays, slices, direct, wrapped and read-only buffers at some position; callbacks which throw; arguments out of bounds; handles used after destroy; millions of hits in one search in a small heap) carried out by a JVM and by the C library, and the two transcripts compared. Non-trivial: there were hits.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; so.maxTotal = 40; return so; };
  s.parts = {
    {"history", [=](Case& c) { SetOpts so = base(); history(c, so, 60, false); }, 12000, 200000},
    {"history-mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII", "ISO-8859-1"}; so.maxTotal = 25; history(c, so, 80, false); }, 6000, 100000},
    {"contexts", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "UTF-32BE", "ASCII"}; so.maxTotal = 25; history(c, so, 120, true); }, 6000, 100000},
    {"flood", flood, 16, 200},
  };
  return s;
}
