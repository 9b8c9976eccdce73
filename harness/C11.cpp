// Fixed strings are taken literally; escapes denote the characters and bytes
// they are documented to denote.
#include "common.h"
#include <unicode/uchar.h>

static const char* ENC[] = {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ISO-8859-1"};

static uint32_t anyChar(Src& s, int kind) {
  static const std::string metas = "|()?+*.[]^$-{}&~<=!\\,#/:@\"'`%;_";
  switch (s.below(kind == 0 ? 3 : kind == 3 ? 4 : 6)) {
  case 0: return (unsigned char) s.pick(metas);
  case 1: return (uint32_t) (s.chance(1, 2) ? 'a' + s.below(26) : '0' + s.below(10));
  case 2: return (uint32_t) (1 + s.below(127));
  case 3: return 128 + (uint32_t) s.below(128);
  case 4: { uint32_t c = 0x100 + (uint32_t) s.below(0xFF00); return c >= 0xD800 && c <= 0xDFFF ? 0xE000 : c; }
  default: return 0x10000 + (uint32_t) s.below(0x100000);
  }
}
static std::vector<uint32_t> word(Src& s, int kind) {
  std::vector<uint32_t> w;
  size_t n = 1 + s.small(11);
  uint32_t prev = anyChar(s, kind);
  for (size_t i = 0; i < n; ++i) { if (!s.chance(1, 4)) prev = anyChar(s, kind); w.push_back(prev); }
  return w;
}
static Bytes enc(const Enc& e, const std::vector<uint32_t>& w) { Bytes b; for (uint32_t c : w) b += e.encode(c); return b; }

static Bytes textFor(Src& s, const Enc& e, const std::vector<uint32_t>& w) {
  Bytes t;
  for (size_t k = 1 + s.small(5); k; --k) {
    std::vector<uint32_t> v = w;
    switch (s.below(6)) {
    case 0: v[s.below(v.size())] = s.pick(w); break;
    case 1: v.erase(v.begin() + s.below(v.size())); break;
    case 2: v.insert(v.begin() + s.below(v.size()), s.pick(w)); break;
    case 3: for (auto& c : v) if (c < 128 && isalpha((int) c)) c ^= 32; break;
    }
    t += enc(e, v);
    if (s.chance(1, 4)) t += (char) s.below(256);
  }
  return t;
}
static void check(Case& c, const PatSpec& ps, const Pat& p, const Enc& e, const Bytes& t, uint32_t depth) {
  c.note("pattern", [&] { return cat(quote(ps.text), ps.fixed ? " fixed" : "", " ci=", ps.ci, " uni=", ps.uni, " ", e.name, " depth=", depth); });
  c.note("meaning", [&] { return p.ast(); });
  c.note("text", [&] { return quote(t); });
  c.ident(cat(ps.text, ps.fixed, ps.ci, ps.uni, e.name, "\1", t));
  Lg g;
  c.checkf(g.build({ps}, depth), [&] { return "rejected: " + quote(ps.text) + ": " + g.err; });
  auto want = Matcher(p, e).all(t), got = searchAll(g.ctx, t);
  c.note("hits", [&] { return hitsStr(got); });
  if (want != got) c.fail(cat(quote(ps.text), ps.fixed ? " fixed" : "", " ci=", ps.ci, " uni=", ps.uni, " in ", e.name, " text ", quote(t), ": expected ", hitsStr(want), " got ", hitsStr(got)));
  if (!want.empty()) { c.nontrivial = true; c.label("has hits"); }
}

static void fixed(Case& c) {
  Src& s = c.s;
  const unsigned k = (unsigned) s.below(7);
  const Enc& e = encByName(ENC[k]);
  auto w = word(s, k == 0 ? 0 : k == 6 ? 3 : 2);
  const bool ci = s.chance(1, 3), uni = s.chance(1, 2);
  Pat p = literalPat(w, true, ci, uni);
  check(c, {p.text, true, ci, uni, e.name, 0}, p, e, textFor(s, e, w), (uint32_t) s.below(3));
  for (uint32_t x : w) if (x < 128 && strchr("|()?+*.[]^$-{}\\", (int) x)) { c.label("with metacharacters"); break; }
}

// one character in any of the ways to write it; next says whether a digit may follow
static std::string write(Src& s, uint32_t cp, bool digitFollows) {
  char t[64];
  std::vector<std::string> v;
  snprintf(t, sizeof t, "\\x{%x}", cp); v.push_back(t);
  snprintf(t, sizeof t, "\\x{%0*X}", (int) (1 + s.below(6)), cp); v.push_back(t);
  snprintf(t, sizeof t, "\\N{U+%0*X}", (int) (1 + s.below(6)), cp); v.push_back(t);
  if (cp < 256) {
    snprintf(t, sizeof t, s.chance(1, 2) ? "\\x%02x" : "\\x%02X", cp); v.push_back(t);
    snprintf(t, sizeof t, "\\%03o", cp); v.push_back(t);
    if (!digitFollows) { snprintf(t, sizeof t, "\\%o", cp); v.push_back(t); snprintf(t, sizeof t, "\\%02o", cp); v.push_back(t); }
  }
  const char* esc = nullptr;
  switch (cp) { case 7: esc = "\\a"; break; case 27: esc = "\\e"; break; case 12: esc = "\\f"; break; case 10: esc = "\\n"; break; case 13: esc = "\\r"; break; case 9: esc = "\\t"; break; }
  if (esc) { v.push_back(esc); v.push_back(esc); }
  if (cp && cp < 128 && strchr("|()?+*.[]^$-{}&~<=!\\", (int) cp)) { std::string q = std::string("\\") + (char) cp; for (int k = 0; k < 5; ++k) v.push_back(q); }
  else if (cp) { for (int k = 0; k < 3; ++k) v.push_back(utf8(cp)); }
  if (cp && cp < 128 && strchr("]-}&~<=!,", (int) cp)) v.push_back(std::string(1, (char) cp));   // literal where they cannot mean anything else
  UErrorCode ec = U_ZERO_ERROR;
  int n = u_charName((UChar32) cp, U_UNICODE_CHAR_NAME, t, sizeof t, &ec);
  if (U_SUCCESS(ec) && n > 0 && n < (int) sizeof t) for (int k = 0; k < 2; ++k) v.push_back(std::string("\\N{") + t + "}");
  return s.pick(v);
}

static void escapes(Case& c) {
  Src& s = c.s;
  const unsigned k = (unsigned) s.below(7);
  const Enc& e = encByName(ENC[k]);
  const bool raw = s.chance(1, 4), ci = s.chance(1, 5), uni = s.chance(1, 2);
  auto w = word(s, k == 0 ? 0 : k == 6 ? 3 : 2);
  if (s.chance(1, 5)) w[s.below(w.size())] = 0;
  // built back to front, as what may follow constrains short octals
  Pat p; p.ci = ci; p.uni = uni;
  std::string text;
  std::vector<Node> ns;
  Bytes lit;
  for (size_t i = w.size(); i-- > 0; ) {
    Node n; std::string t;
    if (raw && s.chance(1, 3)) {
      n.t = Node::BYTE; n.b = s.chance(1, 2) ? (unsigned) s.below(256) : w[i] & 255;
      char b[8]; snprintf(b, sizeof b, s.chance(1, 2) ? "\\z%02X" : "\\z%02x", n.b); t = b;
    }
    else {
      n.t = Node::CHARS; n.set = ci ? foldClosure(CpSet(w[i], w[i]), !uni) : CpSet(w[i], w[i]);
      bool dig = !text.empty() && isdigit((unsigned char) text[0]);
      t = write(s, w[i], dig);
      // & and ~ pair up harmlessly outside classes, as does -; and what looks
      // like a bound after a character needs its brace escaped, which it is
    }
    ns.push_back(n); text = t + text;
  }
  for (size_t i = ns.size(); i-- > 0; ) {
    int id = p.add(ns[i]);
    if (p.root < 0) p.root = id;
    else { Node q; q.t = Node::CAT; q.l = p.root; q.r = id; p.root = p.add(q); }
  }
  p.text = text;
  c.require(!(ci && text.find("--") != std::string::npos));
  Bytes t;
  for (size_t n = 1 + s.small(3); n; --n) { Bytes b; if (sampleMatch(s, p, e, b)) t += b; t += textFor(s, e, w); }
  check(c, {text, false, ci, uni, e.name, 0}, p, e, t, (uint32_t) s.below(3));
  if (raw) c.label("raw bytes");
}

// what is no escape is an error
static void invalid(Case& c) {
  Src& s = c.s;
  std::string bad;
  char t[32];
  switch (s.below(9)) {
  case 0: { static const std::string no = "CEFGHIJLMOQRTUXY89cgijklmoquy_,#/:@\"'`%; "; 
            static const std::string ok = "HdDsSwWhHvV"; char x; do x = s.pick(no); while (ok.find(x) != std::string::npos); bad = std::string("\\") + x; break; }
  case 1: bad = "\\"; break;
  case 2: snprintf(t, sizeof t, "\\%o", 0400 + (unsigned) s.below(0400)); bad = t; break;
  case 3: snprintf(t, sizeof t, "\\x{%X}", 0x110000 + (unsigned) s.below(0xFFFFFF - 0x110000)); bad = t; break;
  case 4: bad = s.pick(std::vector<std::string>{"\\x", "\\x4", "\\xG0", "\\x4G", "\\x{", "\\x{41", "\\x{4G}", "\\x{0000041}", "\\x{-1}"}); break;
  case 5: bad = s.pick(std::vector<std::string>{"\\N", "\\N{", "\\N{}", "\\N{U+}x{", "\\N{U+110000}", "\\N{U+0000041}", "\\N{NO SUCH CHARACTER}", "\\NLATIN", "\\N{LATIN SMALL LETTER A"}); break;
  case 6: bad = s.pick(std::vector<std::string>{"\\z", "\\z4", "\\zG1", "\\z1G", "\\z{41}"}); break;
  case 7: bad = s.pick(std::vector<std::string>{"\\p", "\\pL", "\\p{", "\\p{}", "\\p{L", "\\P", "\\P{Lu"}); break;
  case 8: bad = s.pick(std::vector<std::string>{"\xFF", "\xC3", "\xE2\x82", "\x80", "\xC0\xAF", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80"}); break;
  }
  const bool unfinished = bad == "\\" || bad.find('{') != std::string::npos && bad.find('}') == std::string::npos || bad.size() <= 4;
  std::string pre, post;
  for (size_t n = s.small(4); n; --n) pre += (char) ('p' + s.below(4));
  if (!unfinished) for (size_t n = s.small(4); n; --n) post += (char) ('p' + s.below(4));
  std::string text = pre + bad + post;
  c.note("pattern", [&] { return quote(text); });
  c.ident(text);
  LG_HPATTERN h = lg_create_pattern();
  LG_KeyOptions ko{0, (char) s.below(2), (char) s.below(2)};
  LG_Error* err = nullptr;
  int rc = lg_parse_pattern(h, text.c_str(), &ko, &err);
  std::string msg = err ? (err->Message ? err->Message : "") : "";
  const bool had = err;
  lg_free_error(err);
  lg_destroy_pattern(h);
  c.checkf(rc == 0, [&] { return quote(text) + " was accepted"; });
  c.check(had && !msg.empty(), "rejected without a message: " + quote(text));
  c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C11";
  s.rule = "Strings over metacharacters, controls, letters, Latin-1, BMP and supplementary characters: as fixed strings (raw), and as patterns with each character written in any of its ways (itself, backslashed, \\a..\\t, octal, \\xHH, \\x{H..}, \\N{U+..}, \\N{NAME}, raw bytes \\zHH), in seven encodings, against the reference matcher over texts of exact and near copies; and malformed escapes or UTF-8, which must be rejected with a message. Non-trivial: there are hits (or the pattern is one to be rejected).";
  s.parts = {
    {"fixed", fixed, 150000, 1000000},
    {"escapes", escapes, 150000, 1000000},
    {"invalid", invalid, 30000, 100000},
  };
  return s;
}
