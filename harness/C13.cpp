// C13: pattern lists mean what their lines say; FSMs grow, programs stay.
#include "common.h"
#include <memory>

namespace {
typedef std::unique_ptr<FSMHandle, void(*)(FSMHandle*)> Fsm;
typedef std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> Pt;
typedef std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> Prog;
typedef std::unique_ptr<ContextHandle, void(*)(ContextHandle*)> Ctx;

struct Err { std::string msg, pat, enc, src; int idx; bool hasEnc; bool operator==(const Err& o) const { return std::tie(msg, pat, enc, src, idx, hasEnc) == std::tie(o.msg, o.pat, o.enc, o.src, o.idx, o.hasEnc); } };
std::string str(const std::vector<Err>& v) { std::string o; for (auto& e : v) o += cat("{", e.idx, " ", quote(e.pat), " ", e.hasEnc ? e.enc : "-", " ", e.src, ": ", e.msg, "} "); return o; }

std::string sv(const char* p) { return p ? p : "(null)"; }

Prog compile(FSMHandle* f, uint32_t depth) { const LG_ProgramOptions po{depth}; return Prog(lg_create_program(f, &po), lg_destroy_program); }
Ctx context(ProgramHandle* p) { const LG_ContextOptions co{0, 0}; return Ctx(lg_create_context(p, &co), lg_destroy_context); }

// a pattern that may stand on a line of a list
bool listable(const std::string& t) { return !t.empty() && t.find_first_of(std::string("\r\n\t\0", 4)) == std::string::npos; }

// In Unicode mode \\w and the like have hundreds of ranges; repetitions and
// table encodings multiply them, and compiling takes seconds to minutes.
bool heavy(const std::string& t) {
  size_t k = 0;
  for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == '\\') { if (strchr("wWDSpP", t[i + 1])) ++k; ++i; }
  return k > 1 || (k && t.find('{') != std::string::npos);
}

void list(Case& c) {
  Src& s = c.s;
  SetOpts so; so.minPats = 1; so.maxPats = 7; so.maxTotal = 40; so.kind = int(s.below(2)) * 3;
  so.encs = {"ASCII", "UTF-8", "ISO-8859-1", "UTF-16LE"};
  PatSet ps = genSet(s, so);
  static const char* BADP[] = {"+a", "a|", "(a", "[z-a]", "a*", "\\x{110000}", "\\p{Nope}", "\\"};
  static const char* ENC[] = {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "UTF-8|OCE", "identity|UTF-8|identity"};
  static const char* BADE[] = {"nope", "UTF-8|nope", "rot13", " UTF-8"};
  static const char* BADO[] = {"x", "2", "true", "01x", " 1", "-1"};

  std::vector<std::string> defs;
  for (size_t k = s.below(4); k; --k) defs.push_back(ENC[s.below(5)]);
  if (s.chance(1, 8)) defs.push_back("nope");
  const LG_KeyOptions dopt{char(s.chance(1, 5)), char(s.chance(1, 4)), char(s.chance(1, 2))};
  const std::string source = s.chance(1, 10) ? "" : cat("/keys/", s.below(100));

  // the list, and what it is to do, line by line, through the single-pattern interface
  std::string text;
  std::vector<Err> errs;
  Fsm want(lg_create_fsm(0, 0), lg_destroy_fsm);
  Pt ph(lg_create_pattern(), lg_destroy_pattern);
  Fsm f(lg_create_fsm(0, 0), lg_destroy_fsm);
  if (s.chance(1, 4)) {                                            // the FSM may have patterns already
    const LG_KeyOptions o{1, 0, 0};
    lg_parse_pattern(ph.get(), "zq", &o, nullptr);
    for (auto x : {f.get(), want.get()}) lg_add_pattern(x, ph.get(), "ASCII", 99, nullptr);
  }
  int line = 0; unsigned good = 0, omitted = 0, multi = 0;
  static const char* EOLS[] = {"\n", "\r\n", "\n", "\n\n", "\r", "\r\n\r\n", "\n\r\n"};
  const bool mixed = s.chance(1, 3);
  const char* eol = EOLS[s.below(3)];
  if (s.chance(1, 8)) text += "\n";
  const size_t n = 1 + s.small(8);
  for (size_t i = 0; i < n; ++i) {
    std::string pat; LG_KeyOptions o = dopt;
    size_t which = s.below(ps.specs.size());
    if (s.chance(1, 6)) pat = BADP[s.below(8)];
    else pat = ps.specs[which].text;
    if (!listable(pat)) continue;
    if (heavy(pat)) { c.label("big classes left out"); continue; }
    std::string row = pat;
    std::vector<std::string> encs = defs;
    bool badopt = false; std::string el;
    if (s.chance(3, 4)) {
      encs.clear();
      for (size_t k = 1 + s.small(3); k; --k) encs.push_back(s.chance(1, 8) ? BADE[s.below(4)] : s.chance(1, 2) ? ps.specs[which].enc : ENC[s.below(7)]);
      if (encs.size() > 1) ++multi;
      for (size_t k = 0; k < encs.size(); ++k) el += (k ? "," : "") + encs[k];
      if (s.chance(1, 10)) el += ",";
      row += "\t" + el;
      const size_t cols = s.below(4);
      if (cols < 3) ++omitted;
      for (size_t k = 0; k < cols; ++k) {
        if (s.chance(1, 20)) { row += cat("\t", BADO[s.below(6)]); badopt = true; continue; }
        const bool v = k == 0 ? ps.specs[which].fixed : k == 1 ? ps.specs[which].ci : ps.specs[which].uni;
        row += v ? "\t1" : "\t0";
        if (!badopt) (k == 0 ? o.FixedString : k == 1 ? o.CaseInsensitive : o.UnicodeMode) = v;
      }
    }
    else ++omitted;
    text += row;
    text += i + 1 < n ? (mixed ? EOLS[s.below(7)] : eol) : s.chance(1, 2) ? "\n" : "";

    // expected
    if (badopt) errs.push_back({"", pat, el, source, line, true});       // any message, but on this line
    else {
      LG_Error* e = nullptr;
      if (lg_parse_pattern(ph.get(), pat.c_str(), &o, &e) <= 0) { errs.push_back({e->Message, pat, "", source, line, false}); lg_free_error(e); }
      else for (auto& en : encs) {
        LG_Error* e = nullptr;
        if (lg_add_pattern(want.get(), ph.get(), en.c_str(), uint64_t(line), &e) < 0) { errs.push_back({e->Message, pat, en, source, line, true}); lg_free_error(e); }
        else ++good;
      }
    }
    ++line;
  }
  c.require(line > 0);
  c.ident(text);
  c.note("list", [&] { return quote(text, 2000); });
  c.note("defaults", [&] { std::string o; for (auto& d : defs) o += d + " "; return cat(o, int(dopt.FixedString), int(dopt.CaseInsensitive), int(dopt.UnicodeMode)); });

  std::vector<const char*> d; for (auto& x : defs) d.push_back(x.c_str());
  d.push_back(nullptr);
  const bool wantErr = !s.chance(1, 6);
  LG_Error* e = nullptr;
  const int r = lg_add_pattern_list(f.get(), text.c_str(), source.c_str(), d.data(), unsigned(defs.size()), &dopt, wantErr ? &e : nullptr);
  std::unique_ptr<LG_Error, void(*)(LG_Error*)> eo(e, lg_free_error);
  c.checkf((r < 0) == !errs.empty(), [&] { return cat("list ", quote(text, 2000), " returned ", r, ", expected errors ", str(errs)); });
  if (wantErr) {
    std::vector<Err> got;
    for (; e; e = e->Next) {
      got.push_back({sv(e->Message), sv(e->Pattern), e->EncodingChain ? e->EncodingChain : "", sv(e->Source), e->Index, e->EncodingChain != nullptr});
      const size_t k = got.size() - 1;
      if (k < errs.size() && errs[k].msg.empty() && !got[k].msg.empty()) {   // a bad option: the message is free
        errs[k].msg = got[k].msg;
        errs[k].enc = got[k].enc; errs[k].hasEnc = got[k].hasEnc;
      }
    }
    c.checkf(got == errs, [&] { return cat("list ", quote(text, 2000), ": errors ", str(got), ", expected ", str(errs)); });
  }
  const unsigned cnt = lg_fsm_pattern_count(want.get());
  c.checkf(lg_fsm_pattern_count(f.get()) == cnt, [&] { return cat("list ", quote(text, 2000), " added ", lg_fsm_pattern_count(f.get()), " patterns, expected ", cnt); });
  for (unsigned i = 0; i < cnt; ++i) {
    const LG_PatternInfo *x = lg_fsm_pattern_info(f.get(), i), *y = lg_fsm_pattern_info(want.get(), i);
    c.checkf(sv(x->Pattern) == y->Pattern && sv(x->EncodingChain) == y->EncodingChain && x->UserIndex == y->UserIndex, [&] { return cat("list ", quote(text, 2000), ": pattern ", i, " is ", x->Pattern, " ", x->EncodingChain, " ", x->UserIndex, ", expected ", y->Pattern, " ", y->EncodingChain, " ", y->UserIndex); });
  }
  bool any = false;
  if (cnt) {
    const uint32_t depth = std::min<uint32_t>(ps.depth, 1);
    Prog a = compile(f.get(), depth), b = compile(want.get(), depth);
    c.check(a && b, "no program for " + quote(text, 2000));
    Ctx x = context(a.get()), y = context(b.get());
    for (int k = 0; k < 2; ++k) {
      Bytes t = genSetText(s, ps, 60);
      auto hx = byKeyword(searchAll(x.get(), t), cnt), hy = byKeyword(searchAll(y.get(), t), cnt);
      lg_reset_context(x.get()); lg_reset_context(y.get());
      c.checkf(hx == hy, [&] { return cat("list ", quote(text, 2000), " on ", quote(t), ": hits differ from those of the same patterns added singly"); });
      for (auto& v : hx) any |= !v.empty();
    }
  }
  if (!errs.empty() && good) c.label("good and bad lines");
  if (omitted) c.label("omitted columns");
  if (multi) c.label("several encodings");
  if (mixed) c.label("mixed line ends");
  c.nontrivial = good && line > 1 && any;
}

// patterns added and programs made in turn: earlier programs stay as they are,
// each program has all patterns added up to then
void grow(Case& c) {
  Src& s = c.s;
  SetOpts so; so.minPats = 2; so.maxPats = 7; so.maxTotal = 40;
  if (s.chance(1, 3)) { so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII"}; so.maxTotal = 25; }
  PatSet ps = genSet(s, so);
  c.note("patterns", [&] { return ps.str(); });
  struct P { Prog p; Ctx c; size_t n; uint32_t depth; std::vector<char> image; };
  std::vector<P> progs;
  Fsm f(lg_create_fsm(unsigned(s.below(3)), unsigned(s.below(100))), lg_destroy_fsm);
  Pt ph(lg_create_pattern(), lg_destroy_pattern);
  std::string log = ps.str() + ": ";
  const size_t N = ps.specs.size();
  std::vector<uint64_t> users(N);
  for (size_t i = 0; i < N; ++i) {
    users[i] = s.oneof<uint64_t>({0, 1, 7, 0xFFFFFFFFull, 0x100000000ull, ~0ull}) - s.below(2) * i;
    const PatSpec& q = ps.specs[i];
    const LG_KeyOptions ko{char(q.fixed), char(q.ci), char(q.uni)};
    c.check(lg_parse_pattern_slice(ph.get(), q.text.data(), unsigned(q.text.size()), &ko, nullptr) > 0, "parse " + log);
    c.check(lg_add_pattern(f.get(), ph.get(), q.enc.c_str(), users[i], nullptr) == int(i), "add " + log);
    log += cat("add ", i, "; ");
    if (i + 1 == N || s.chance(1, 2)) {
      const uint32_t depth = s.chance(1, 2) ? ps.depth : uint32_t(s.below(ps.depth + 1));
      c.note("next", [&] { return cat(log, " compile ", depth); });
      Prog p = compile(f.get(), depth);
      c.check(bool(p), "no program: " + log);
      Ctx x = context(p.get());
      log += cat("program depth ", depth, "; ");
      P e{std::move(p), std::move(x), i + 1, depth, {}};
      e.image.resize(lg_program_size(e.p.get()));
      lg_write_program(e.p.get(), e.image.data());
      progs.push_back(std::move(e));
    }
    if (progs.size() && s.chance(1, 5)) { progs.erase(progs.begin() + s.below(progs.size())); log += "destroy one; "; }
  }
  if (s.chance(1, 2)) { f.reset(); log += "destroy fsm; "; }
  c.require(!progs.empty());
  c.ident(log);
  c.note("history", [&] { return log; });
  bool any = false;
  for (auto& p : progs) {
    // the same patterns in an FSM of their own
    std::vector<PatSpec> sub(ps.specs.begin(), ps.specs.begin() + p.n);
    Lg fresh;
    c.checkf(fresh.build(sub, p.depth), [&] { return "rejected: " + fresh.err; });
    c.checkf(lg_prog_pattern_count(p.p.get()) == p.n, [&] { return cat(log, ": a program of ", p.n, " patterns has ", lg_prog_pattern_count(p.p.get())); });
    for (size_t i = 0; i < p.n; ++i) {
      const LG_PatternInfo* x = lg_prog_pattern_info(p.p.get(), unsigned(i));
      c.checkf(sub[i].text.c_str() == sv(x->Pattern) && sub[i].enc == sv(x->EncodingChain) && x->UserIndex == users[i], [&] { return cat(log, ": pattern ", i, " is ", sv(x->Pattern), " ", sv(x->EncodingChain), " ", x->UserIndex); });
    }
    std::vector<char> img(lg_program_size(p.p.get()));
    lg_write_program(p.p.get(), img.data());
    c.checkf(img == p.image, [&] { return log + ": a program changed after it was made"; });
    for (int k = 0; k < 2; ++k) {
      Bytes t = genSetText(s, ps, 50);
      auto want = byKeyword(searchAll(fresh.ctx, t), p.n), got = byKeyword(searchAll(p.c.get(), t), p.n);
      lg_reset_context(fresh.ctx); lg_reset_context(p.c.get());
      c.checkf(want == got, [&] { std::string o; for (auto& v : want) o += hitsStr(v); o += " got "; for (auto& v : got) o += hitsStr(v); return cat(log, " program of ", p.n, " patterns on ", quote(t), ": expected ", o); });
      for (auto& v : want) any |= !v.empty();
      auto a = sorted(startsWith(fresh.ctx, t)), b = sorted(startsWith(p.c.get(), t));
      c.checkf(a == b, [&] { return cat(log, " program of ", p.n, " patterns starts_with ", quote(t), ": expected ", hitsStr(a), " got ", hitsStr(b)); });
    }
  }
  c.nontrivial = any && (progs.size() > 1 || progs[0].n > 1);
  if (progs.size() > 1) c.label("several programs");
}
}

Suite suite() {
  Suite s;
  s.id = "C13";
  s.rule = "list: random lists of 1-9 lines (all line ends, mixed; columns omitted from the right; 1-4 encodings a line incl. unknown ones; bad patterns; bad option columns; default encodings 0-4; null error pointer; FSM empty or not) against a model that splits the lines itself and uses the single-pattern calls: same patterns, order, user indices, error chain (message, pattern, encoding, source, line) and status, same hits. grow: random histories of adding patterns and making/destroying programs at various depths on one FSM; each program must have exactly the patterns added before it was made (with their 64-bit user indices), an unchanged image, and the hits of a freshly built program. Non-trivial: some line accepted among several and some hits (list); some hits and a program of several patterns or several programs (grow).";
  s.parts = {
    {"list", list, 30000, 600000},
    {"grow", grow, 20000, 400000},
  };
  return s;
}
