// C12: any pattern, options, encoding name is accepted or rejected cleanly.
#include "common.h"
#include <memory>

namespace {

const char* TOKENS[] = {
  "(", ")", "(?:", "(?i)", "(?-i)", "(?a)", "(?-a)", "(?i:", "(?=", "(?!", "(?<=", "(?<!", "(?#c)", "(?", "[", "[^", "]", "-", "&&", "--", "~~", "|", "*", "+", "?", "*?", "+?", "??",
  "{2}", "{1,3}", "{0}", "{0,0}", "{,2}", "{2,}", "{3,1}", "{2,}?", "{0,1}?", "{", "}", "{65536}", "{4294967296}", "{1,99999999999999999999}",
  ".", "^", "$", "\\b", "\\B", "\\A", "\\Z", "\\z", "\\z4", "\\z41", "\\zZZ", "\\K", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\h", "\\H", "\\v", "\\V", "\\R", "\\X", "\\C", "\\G",
  "\\x", "\\x4", "\\x41", "\\x{41}", "\\x{}", "\\x{110000}", "\\x{D800}", "\\x{FFFFFFFFFF}", "\\x{-1}", "\\x{41", "\\0", "\\7", "\\101", "\\777", "\\o{101}", "\\o{}", "\\o{9}", "\\c", "\\cA", "\\a", "\\e", "\\f", "\\n", "\\r", "\\t",
  "\\N{U+41}", "\\N{SPACE}", "\\N{}", "\\N{U+110000}", "\\N{NOPE}", "\\N", "\\p{L}", "\\P{L}", "\\pL", "\\p{Greek}", "\\p{^L}", "\\p{}", "\\p{Nope}", "\\p{", "\\p", "\\p{Script=Latin}", "\\p{gc=Lu}",
  "[:alpha:]", "[[:alpha:]]", "[[:^digit:]]", "[[:nope:]]", "[:", ":]", "[.a.]", "[=a=]", "\\Q", "\\E", "\\Qa|b\\E", "\\1", "\\g{1}", "\\k<n>", "(?<n>a)", "(?P<n>a)", "(?>a)", "(?|a)", "\\", "\\\\",
  "a", "b", "ab", "foo", "z", "\xC3\xA9", "\xE2\x84\xAA", "\xF0\x9F\x92\xA9", "\xC3", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80", "\xFF", "\x80", "\r", "\n", "\t", " ", "\x01", "\x7F", "0", "9", ",", ":", "=", "#", "&", "~", "!", "<", ">",
};
const size_t NTOK = sizeof(TOKENS) / sizeof(*TOKENS);

const char* ENCS[] = {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ISO-8859-1", "windows-1252", "KOI8-R", "IBM-37", "Shift_JIS", "GB18030", "EUC-JP"};
const char* BADENCS[] = {"", "|", "||", "nope", "UTF-8|", "|UTF-8", "UTF-8|UTF-8", "UTF-8|nope", "nope|UTF-8", "rot13", "rot13|", "UTF-8|OCE|", "UTF-8|rot13", "OCE|UTF-8", "identity", "identity|identity", "xorFF|UTF-8", "UTF-8|xor", "UTF-8|xorGG", "UTF-8|xor100", "rot27|UTF-8", "UTF-8 ", " UTF-8", "UTF-16", "UTF-7", "HZ", "ISO-2022-JP", "SCSU", "BOCU-1", "UTF-8\n", "\xFF\xFE"};

// the number of positions a pattern could expand to, if its counts were honoured
double weight(const std::string& p) {
  double w = double(p.size()) + 1;
  for (size_t i = 0; i < p.size(); ++i) if (p[i] == '{') {
    size_t j = i + 1; double a = 0, m = 0;
    for (; j < p.size() && (isdigit((unsigned char) p[j]) || p[j] == ',' || p[j] == ' '); ++j) {
      if (isdigit((unsigned char) p[j])) a = a * 10 + (p[j] - '0'); else { m = std::max(m, a); a = 0; }
    }
    m = std::max(m, a);
    if (m > 1) w *= m;
    w += m;
  }
  return w;
}

// nested unbounded loops and wide classes cost, even if few positions result
int loops(const std::string& p) { int n = 0; for (char c : p) n += c == '*' || c == '+'; return n; }

Bytes soup(Src& s, size_t max) {
  Bytes p;
  size_t n = 1 + s.small(max);
  for (size_t i = 0; i < n; ++i) p += TOKENS[s.below(NTOK)];
  return p;
}

Bytes genAny(Src& s) {
  switch (s.weighted({4, 3, 2, 1})) {
  case 0: return soup(s, 14);
  case 1: { // a valid pattern, damaged
    GenOpts g;
    g.alpha = genAlphabet(s, int(s.below(4)));
    g.richClasses = s.chance(1, 2); g.switches = true; g.bytes = s.chance(1, 4); g.byteAlpha = {0, 0x41, 0x80, 0xFF}; g.classBytes = g.bytes;
    g.allowNullable = true; g.emptyClasses = true; g.maxExpanded = 40; g.maxRanges = 60;
    Bytes p = genPattern(s, g).text;
    size_t n = s.below(4);
    for (size_t i = 0; i < n && !p.empty(); ++i) {
      size_t at = s.below(p.size());
      switch (s.below(5)) {
      case 0: p.erase(at, 1 + s.small(4)); break;
      case 1: p.insert(at, TOKENS[s.below(NTOK)]); break;
      case 2: p[at] = char(s.below(256)); break;
      case 3: p.resize(at); break;
      case 4: p.insert(at, p.substr(s.below(p.size()), s.small(6))); break;
      }
    }
    return p;
  }
  case 2: { // bytes
    Bytes p; size_t n = s.small(24);
    for (size_t i = 0; i < n; ++i) p += char(s.below(256));
    return p;
  }
  default: { // characters the grammar knows, in any order
    static const char G[] = "()[]{}|*+?.\\^-&~$#:!<>=,azAZ019xpPNdDwWsScoQEKbBzRX\xC3\xA9\x80";
    Bytes p; size_t n = s.small(24);
    for (size_t i = 0; i < n; ++i) p += G[s.below(sizeof(G) - 1)];
    return p;
  }
  }
}

std::string genEnc(Src& s) {
  switch (s.weighted({6, 2, 2, 1})) {
  case 0: return ENCS[s.below(sizeof(ENCS) / sizeof(*ENCS))];
  case 1: { // a chain
    static const char* C[] = {"rot13|", "rot1|", "rot25|", "identity|", "rot13|rot13|"};
    static const char* B[] = {"|OCE", "|xor80", "|xorFF", "|identity", "|OCE|xor55"};
    std::string e = ENCS[s.below(8)];
    if (s.chance(1, 2)) e = C[s.below(5)] + e;
    if (s.chance(1, 2)) e += B[s.below(5)];
    return e;
  }
  case 2: return BADENCS[s.below(sizeof(BADENCS) / sizeof(*BADENCS))];
  default: {
    std::string e; size_t n = s.small(10);
    static const char G[] = "|UTF-8rotxO169CE \xFF";
    for (size_t i = 0; i < n; ++i) e += G[s.below(sizeof(G) - 1)];
    return e;
  }
  }
}

std::string cstr(const Bytes& b) { return std::string(b.c_str()); }

// one error, which says something and names the pattern
void checkErr(Case& c, LG_Error* e, const Bytes& pat, const char* enc, const std::string& what) {
  c.checkf(e != nullptr, [&] { return what + " failed without an error"; });
  c.checkf(e->Message && *e->Message, [&] { return what + " failed without a message"; });
  c.checkf(e->Pattern && cstr(pat) == e->Pattern, [&] { return cat(what, ": the error names pattern ", e->Pattern ? quote(e->Pattern) : "(null)"); });
  if (enc) c.checkf(e->EncodingChain && std::string(enc) == e->EncodingChain, [&] { return cat(what, ": the error names encoding ", e->EncodingChain ? quote(e->EncodingChain) : "(null)"); });
  else c.checkf(!e->EncodingChain, [&] { return what + ": the error of a pattern names an encoding"; });
  c.checkf(!e->Next, [&] { return what + ": several errors for one failure"; });
}

void wellFormed(Case& c, const std::vector<Hit>& h, size_t len, size_t n, const std::string& what) {
  std::vector<uint64_t> last(n, 0);
  for (auto& x : h) {
    c.checkf(x.kw < n && x.start < x.end && x.end <= len, [&] { return cat(what, ": malformed hit among ", hitsStr(h)); });
    c.checkf(x.start >= last[x.kw], [&] { return cat(what, ": hits of one keyword out of order or overlapping: ", hitsStr(h)); });
    last[x.kw] = x.end;
  }
}

void any(Case& c) {
  Src& s = c.s;
  std::unique_ptr<FSMHandle, void(*)(FSMHandle*)> fsm(lg_create_fsm(0, unsigned(s.small(20))), lg_destroy_fsm), good(lg_create_fsm(0, 0), lg_destroy_fsm);
  std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> reused(lg_create_pattern(), lg_destroy_pattern);
  const size_t n = 1 + s.small(5);
  size_t accepted = 0, refused = 0, parsed = 0;
  Bytes text;
  std::string all;
  double total = 0; int lp = 0;
  for (size_t i = 0; i < n; ++i) {
    const Bytes pat = genAny(s);
    const LG_KeyOptions ko{char(s.chance(1, 5)), char(s.chance(1, 4)), char(s.chance(1, 2))};
    const std::string enc = genEnc(s);
    const bool wantErr = !s.chance(1, 6), slice = s.chance(1, 2);
    const std::string what = cat("pattern ", quote(pat), " fixed=", int(ko.FixedString), " ci=", int(ko.CaseInsensitive), " uni=", int(ko.UnicodeMode), " enc=", quote(enc), wantErr ? "" : " noerr", slice ? " slice" : "");
    all += what + "; ";
    c.note("step", [&] { return what; });

    // parse, into a handle that has a history
    LG_Error* e = nullptr;
    int r;
    if (slice || pat.find('\0') != Bytes::npos) {
      std::unique_ptr<char[]> b(new char[pat.size()]);             // ends where it ends
      if (!pat.empty()) memcpy(b.get(), pat.data(), pat.size());
      r = lg_parse_pattern_slice(reused.get(), b.get(), unsigned(pat.size()), &ko, wantErr ? &e : nullptr);
    }
    else r = lg_parse_pattern(reused.get(), pat.c_str(), &ko, wantErr ? &e : nullptr);
    std::unique_ptr<LG_Error, void(*)(LG_Error*)> eo(e, lg_free_error);
    if (r <= 0 && wantErr) checkErr(c, e, pat, nullptr, what + " parse");
    if (r > 0) c.checkf(!e, [&] { return what + " parsed with an error: " + e->Message; });
    c.checkf(r >= 0, [&] { return what + ": parse returned " + std::to_string(r); });

    // the verdict is the same for a new handle
    std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> once(lg_create_pattern(), lg_destroy_pattern);
    LG_Error* e2 = nullptr;
    const int r2 = lg_parse_pattern_slice(once.get(), pat.data(), unsigned(pat.size()), &ko, &e2);
    std::unique_ptr<LG_Error, void(*)(LG_Error*)> e2o(e2, lg_free_error);
    c.checkf((r > 0) == (r2 > 0), [&] { return cat(what, ": a used pattern handle gives ", r, ", a new one ", r2); });
    if (r <= 0 && wantErr) c.checkf(std::string(e->Message) == e2->Message, [&] { return cat(what, ": a used handle says ", e->Message, ", a new one ", e2->Message); });
    if (r <= 0) { ++refused; c.label("parse refused"); continue; }
    ++parsed;

    const double w = ko.FixedString ? pat.size() : weight(pat);
    const int l = ko.FixedString ? 0 : loops(pat);
    if (total + w > 120 || lp + l > 6) { c.label("parsed only"); continue; }

    // add
    const unsigned before = lg_fsm_pattern_count(fsm.get());
    LG_Error* ea = nullptr;
    const int a = lg_add_pattern(fsm.get(), reused.get(), enc.c_str(), 1000 + i, wantErr ? &ea : nullptr);
    std::unique_ptr<LG_Error, void(*)(LG_Error*)> eao(ea, lg_free_error);
    if (a < 0) {
      if (wantErr) checkErr(c, ea, pat, enc.c_str(), what + " add");
      c.checkf(lg_fsm_pattern_count(fsm.get()) == before, [&] { return what + ": a refused pattern was counted"; });
      ++refused; c.label("add refused");
      // refused it stays
      c.checkf(lg_add_pattern(good.get(), once.get(), enc.c_str(), 1000 + i, nullptr) < 0, [&] { return what + ": refused by one FSM, accepted by another"; });
    }
    else {
      c.checkf(!ea, [&] { return what + " added with an error: " + ea->Message; });
      c.checkf(unsigned(a) == before && lg_fsm_pattern_count(fsm.get()) == before + 1, [&] { return cat(what, ": added as ", a, ", expected ", before); });
      ++accepted; total += w; lp += l;
    }
    // some text related to it
    text += pat.substr(0, 20);
    if (enc.compare(0, 6, "UTF-16") == 0) for (char ch : pat.substr(0, 10)) { text += ch; text += '\0'; }
  }
  c.ident(all);
  for (size_t k = s.small(20); k; --k) text += char(s.chance(1, 2) ? s.below(256) : 'a' + s.below(3));

  // whatever was refused, the rest works
  const unsigned cnt = lg_fsm_pattern_count(fsm.get());
  const LG_ProgramOptions po{uint32_t(s.chance(1, 2) ? 0 : s.below(4))};
  std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> prog(lg_create_program(fsm.get(), &po), lg_destroy_program);
  if (!cnt) { if (refused) c.nontrivial = true; return; }
  c.checkf(prog != nullptr, [&] { return "no program for " + all; });
  const LG_ContextOptions co{0, 0};
  std::unique_ptr<ContextHandle, void(*)(ContextHandle*)> ctx(lg_create_context(prog.get(), &co), lg_destroy_context);
  std::vector<Hit> sw = startsWith(ctx.get(), text);
  std::vector<Hit> h = searchAll(ctx.get(), text);
  c.note("text", [&] { return quote(text); });
  c.note("hits", [&] { return hitsStr(h); });
  wellFormed(c, h, text.size(), cnt, all + " search " + quote(text));
  for (auto& x : sw) c.checkf(x.start == 0 && x.end > 0 && x.end <= text.size() && x.kw < cnt, [&] { return all + ": malformed starts-with hit " + hitsStr(sw); });
  std::vector<char> img(lg_program_size(prog.get()));
  lg_write_program(prog.get(), img.data());
  if (!h.empty()) c.label("hits");
  if (accepted && refused) c.label("mixed");
  c.label("accepted", accepted);
  c.nontrivial = parsed > 0 || refused > 0;
}

// failures leave an FSM as it was: the rest behaves exactly as if they had not been tried
void atomic(Case& c) {
  Src& s = c.s;
  SetOpts so; so.minPats = 1; so.maxPats = 4; so.maxTotal = 30;
  so.encs = {"ASCII", "UTF-8"};
  PatSet ps = genSet(s, so);
  std::unique_ptr<FSMHandle, void(*)(FSMHandle*)> a(lg_create_fsm(0, 0), lg_destroy_fsm), b(lg_create_fsm(0, 0), lg_destroy_fsm);
  std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> ph(lg_create_pattern(), lg_destroy_pattern);
  std::string log;
  unsigned failed = 0, half = 0;
  for (size_t i = 0; i <= ps.specs.size(); ++i) {
    // failures first
    for (size_t k = s.small(3); k; --k) {
      LG_Error* e = nullptr;
      int kind = int(s.below(3));
      if (kind == 0) {                                             // does not parse
        static const char* P[] = {"+a", "a|", "(a", "[z-a]", "a*", "\\x{110000}", "", "\\p{Nope}", "(ab|cd"};
        const LG_KeyOptions ko{0, 0, 1};
        const char* p = P[s.below(9)];
        log += cat("bad ", p, "; ");
        if (lg_parse_pattern(ph.get(), p, &ko, &e) > 0) c.checkf(lg_add_pattern(a.get(), ph.get(), "ASCII", 7, nullptr) < 0, [&] { return cat(p, " was accepted"); });
        else if (s.chance(1, 2)) {                                 // and is added regardless, as is one never parsed
          LG_Error* e2 = nullptr;
          std::unique_ptr<PatternHandle, void(*)(PatternHandle*)> never(s.chance(1, 3) ? lg_create_pattern() : nullptr, lg_destroy_pattern);
          c.check(lg_add_pattern(a.get(), never ? never.get() : ph.get(), "UTF-8", 7, s.chance(1, 2) ? &e2 : nullptr) < 0, "a pattern which did not parse was added");
          lg_free_error(e2);
          log += "added regardless; ";
        }
      }
      else if (kind == 1) {                                        // unknown encoding
        const LG_KeyOptions ko{0, 0, 1};
        lg_parse_pattern(ph.get(), "ab*c", &ko, &e);
        log += "bad encoding; ";
        c.check(lg_add_pattern(a.get(), ph.get(), "UTF-8|nope", 7, &e) < 0, "an unknown transformation was accepted");
      }
      else {                                                       // cannot be encoded, after some characters that can
        const LG_KeyOptions ko{0, 0, 1};
        Bytes p;
        for (size_t j = s.small(6); j; --j) { p += renderChar(s, s.pick(ps.alpha) % 128, true, false); if (s.chance(1, 3)) p += "(ab|cd)*"; }
        p += "\\x{2642}";
        for (size_t j = s.small(3); j; --j) p += "a";
        log += cat("unencodable ", p, "; ");
        c.check(lg_parse_pattern(ph.get(), p.c_str(), &ko, &e) > 0, "parse of " + p);
        c.check(lg_add_pattern(a.get(), ph.get(), "ASCII", 7, &e) < 0, p + " was accepted in ASCII");
        ++half;
      }
      lg_free_error(e);
      ++failed;
    }
    if (i == ps.specs.size()) break;
    const PatSpec& q = ps.specs[i];
    const LG_KeyOptions ko{char(q.fixed), char(q.ci), char(q.uni)};
    for (auto f : {a.get(), b.get()}) {
      c.checkf(lg_parse_pattern(ph.get(), q.text.c_str(), &ko, nullptr) > 0, [&] { return "refused: " + quote(q.text) + " after " + log; });
      c.checkf(lg_add_pattern(f, ph.get(), q.enc.c_str(), q.user, nullptr) == int(i), [&] { return cat("not added: ", quote(q.text), " after ", log); });
    }
    log += cat(quote(q.text), "; ");
  }
  c.ident(log);
  c.note("history", [&] { return log; });
  const LG_ProgramOptions po{ps.depth};
  std::unique_ptr<ProgramHandle, void(*)(ProgramHandle*)> pa(lg_create_program(a.get(), &po), lg_destroy_program), pb(lg_create_program(b.get(), &po), lg_destroy_program);
  c.check(pa && pb, "no program after " + log);
  c.check(lg_prog_pattern_count(pa.get()) == ps.specs.size(), "pattern count after " + log);
  for (unsigned i = 0; i < ps.specs.size(); ++i) {
    const LG_PatternInfo *x = lg_prog_pattern_info(pa.get(), i);
    c.checkf(ps.specs[i].text == x->Pattern && ps.specs[i].enc == x->EncodingChain && ps.specs[i].user == x->UserIndex, [&] { return cat("pattern ", i, " became ", x->Pattern, " ", x->EncodingChain, " after ", log); });
  }
  const LG_ContextOptions co{0, 0};
  std::unique_ptr<ContextHandle, void(*)(ContextHandle*)> ca(lg_create_context(pa.get(), &co), lg_destroy_context), cb(lg_create_context(pb.get(), &co), lg_destroy_context);
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    Bytes t = genSetText(s, ps, 40);
    auto x = byKeyword(searchAll(ca.get(), t), ps.specs.size()), y = byKeyword(searchAll(cb.get(), t), ps.specs.size());
    lg_reset_context(ca.get()); lg_reset_context(cb.get());
    c.checkf(x == y, [&] { return cat("after ", log, " on ", quote(t), ": the refused patterns left a trace"); });
    for (auto& v : x) any |= !v.empty();
  }
  c.nontrivial = failed && any;
  if (half) c.label("unencodable midway");
}

}

Suite suite() {
  Suite s;
  s.id = "C12";
  s.rule = "any: 1-6 patterns (token soup over the whole syntax including malformed escapes, valid patterns damaged by edits, random bytes, random grammar characters) x options x encoding names (valid, chains, malformed) are parsed from exactly-sized or terminated buffers into a reused and a new handle, with and without an error pointer, added to one FSM, compiled, searched; checked: no crash (AddressSanitizer in one configuration), same verdict and message for used and new handles, every refusal has exactly one error with a message and the pattern (and encoding), refused patterns are not counted, hits are well-formed. atomic: a model FSM given only the good patterns must behave as the one that also saw refusals. Non-trivial: at least one pattern was parsed or refused (any); at least one refusal and some hits (atomic).";
  s.parts = {
    {"any", any, 60000, 2000000},
    {"atomic", atomic, 20000, 400000},
  };
  return s;
}
