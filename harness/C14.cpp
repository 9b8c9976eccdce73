// C14: decoding a hit and its surroundings (lg_read_window, lg_hit_context).
#include "common.h"
#include <lightgrep/util.h>
#include <unicode/ucnv.h>
#include <memory>

namespace {
struct Dec {                                  // reference decoder of one encoding
  std::string name; const Enc* enc = nullptr; UConverter* cv = nullptr; size_t maxLen = 4; bool self = true, oce = false;
  // one character at p: its length, or 0
  size_t one(const unsigned char* p, const unsigned char* e, uint32_t& cp) const {
    if (enc) return enc->decode(p, e, cp);
    for (size_t n = 1; n <= maxLen && p + n <= e; ++n) {
      UErrorCode err = U_ZERO_ERROR;
      UChar buf[8]; UChar* t = buf; const char* src = (const char*) p;
      ucnv_resetToUnicode(cv);
      ucnv_toUnicode(cv, &t, buf + 8, &src, (const char*) p + n, nullptr, true, &err);
      if (U_FAILURE(err) || t == buf) continue;
      UChar32 c; int i = 0; U16_NEXT(buf, i, int(t - buf), c);
      if (i != t - buf) throw Discard();      // several characters from one code
      cp = c;
      return n;
    }
    return 0;
  }
};

// Outlook Compressible Encryption, the other way: what is stored as byte i
unsigned char OCE_DEC[256];
void oceInit() { for (unsigned b = 0; b < 256; ++b) OCE_DEC[oce()[b]] = (unsigned char) b; }

Dec table(const char* n, size_t maxLen, bool self) {
  Dec d; d.name = n; d.maxLen = maxLen; d.self = self;
  UErrorCode e = U_ZERO_ERROR;
  d.cv = ucnv_open(n, &e);
  ucnv_setToUCallBack(d.cv, UCNV_TO_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
  return d;
}
const std::vector<Dec>& decs() {
  static std::vector<Dec> v = [] {
    std::vector<Dec> v;
    for (const char* n : {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ASCII"}) { Dec d; d.name = n; d.enc = &encByName(n); v.push_back(d); }
    v.push_back(v[0]); v.back().name = "UTF-8|OCE"; v.back().oce = true;
    v.push_back(v[1]); v.back().name = "identity|UTF-16LE|OCE"; v.back().oce = true;
    for (const char* n : {"ISO-8859-1", "windows-1252", "windows-1251", "KOI8-R", "IBM-37"}) v.push_back(table(n, 1, true));
    v.push_back(table("Shift_JIS", 2, false));
    v.push_back(table("EUC-JP", 3, false));
    v.push_back(table("Big5", 2, false));
    v.push_back(table("GB18030", 4, false));
    return v;
  }();
  return v;
}

struct V { int32_t v; size_t at; };
std::string str(const std::vector<V>& x) { std::string o; for (auto& e : x) o += cat(e.v < 0 ? "-" : "", std::hex, e.v < 0 ? -e.v : e.v, std::dec, "@", e.at, " "); return o; }
bool operator==(const V& a, const V& b) { return a.v == b.v && a.at == b.at; }

// reference: values from [p, q) on, characters ending at lim at the latest
std::vector<V> decodeRun(const Dec& d, const Bytes& raw, size_t p, size_t q, size_t lim) {
  std::vector<V> o;
  const unsigned char* b = (const unsigned char*) raw.data();
  while (p < q) {
    uint32_t cp = 0;
    size_t n = d.one(b + p, b + lim, cp);
    if (n) { o.push_back({int32_t(cp), p}); p += n; }
    else { o.push_back({-int32_t(b[p]) - 1, p}); ++p; }
  }
  return o;
}

uint32_t genCp(Src& s) {
  switch (s.weighted({5, 2, 1, 1, 1, 2})) {
  case 5: {                                               // where forms and lengths change
    static const uint32_t e[] = {0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xEFFF, 0xF000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF};
    if (s.chance(1, 2)) return e[s.below(sizeof e / sizeof *e)];
    uint32_t v = (uint32_t) s.below(0x110000);
    return v >= 0xD800 && v < 0xE000 ? v - 0x800 : v;
  }
  case 0: return 'a' + s.below(26);
  case 1: return 0xA1 + s.below(0x5F);
  case 2: return 0x400 + s.below(0x50);
  case 3: return 0x3041 + s.below(0x50);
  default: return s.chance(1, 3) ? s.below(0x20) : 0x10000 + s.below(0x1000);
  }
}

Bytes encodeOne(const Dec& d, uint32_t cp) {
  if (d.enc) return d.enc->encode(cp);
  UErrorCode e = U_ZERO_ERROR;
  UChar u[2]; int n = 0; U16_APPEND_UNSAFE(u, n, cp);
  char b[16];
  UConverter* cv = d.cv;
  ucnv_reset(cv);
  ucnv_setFromUCallBack(cv, UCNV_FROM_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
  int k = ucnv_fromUChars(cv, b, 16, u, n, &e);
  return U_FAILURE(e) ? Bytes() : Bytes(b, k);
}

struct Win { std::vector<V> v; LG_Window dh{0, 0}; unsigned bad = 0; size_t clen = 0; bool err = false; };

Win readWindow(Case& c, LG_HDECODER h, const Bytes& buf, uint64_t base, uint64_t hb, uint64_t he, const std::string& enc, size_t pre, size_t post) {
  Win w;
  std::unique_ptr<char[]> b(new char[buf.size()]);
  if (!buf.empty()) memcpy(b.get(), buf.data(), buf.size());
  int32_t* ch = nullptr; size_t* off = nullptr; LG_Error* e = nullptr;
  const LG_Window inner{base + hb, base + he};
  w.bad = lg_read_window(h, b.get(), b.get() + buf.size(), base, &inner, enc.c_str(), pre, post, &ch, &off, &w.clen, &w.dh, &e);
  if (e) { w.err = true; lg_free_error(e); return w; }
  std::unique_ptr<int32_t[], void(*)(int32_t*)> pc(ch, lg_free_window_characters);
  std::unique_ptr<size_t[], void(*)(size_t*)> po(off, lg_free_window_offsets);
  c.check(w.clen > 0, "empty window");
  for (size_t i = 0; i < w.clen; ++i) w.v.push_back({ch[i], off[i]});
  return w;
}

std::string u8(int32_t v, uint32_t repl) { return utf8({v <= 0 ? repl : uint32_t(v)}); }

void check(Case& c, LG_HDECODER h, const Dec& d, const Bytes& raw, const Bytes& buf, uint64_t base, size_t hb, size_t he, size_t pre, size_t post, bool valid, const std::vector<size_t>& bounds) {
  const std::string what = cat(d.name, " ", quote(raw), " hit [", hb, ",", he, ") pre ", pre, " post ", post, " base ", base);
  Win w = readWindow(c, h, buf, base, hb, he, d.name, pre, post);
  c.check(!w.err, what + ": error");
  c.check(w.v.back().v == LG_WINDOW_END, what + ": not terminated");
  std::vector<V> v(w.v.begin(), w.v.end() - 1);
  const size_t end = w.v.back().at;
  auto shown = [&] { return cat(what, ": got ", str(v), "end ", end, " hit values [", w.dh.begin, ",", w.dh.end, ")"); };
  c.note("window", shown);
  c.checkf(w.dh.begin <= w.dh.end && w.dh.end <= v.size(), [&] { return shown() + ": hit window out of order"; });
  unsigned bad = 0;
  for (auto& x : v) { c.checkf(x.v != LG_WINDOW_END, [&] { return shown() + ": END inside"; }); bad += x.v < 0; }
  c.checkf(bad == w.bad, [&] { return cat(shown(), ": reported ", w.bad, " bad values, has ", bad); });

  // hit and trailing part: decoded in one go from the first byte of the hit
  const size_t lim = std::min(raw.size(), he + post * 4 * (d.enc ? 1 : d.maxLen));
  std::vector<V> ref = decodeRun(d, raw, hb, raw.size(), raw.size());
  std::vector<V> got(v.begin() + w.dh.begin, v.end());
  size_t inHit = 0; while (inHit < ref.size() && ref[inHit].at < he) ++inHit;
  // characters may be cut short by the end of what is looked at only in the last value(s)
  const size_t wantN = std::min(ref.size(), inHit + post);
  bool straddle = inHit && inHit < ref.size() ? ref[inHit].at > he : false;   // the last hit character reaches beyond the hit
  straddle |= inHit == ref.size() && raw.size() > he && inHit;
  (void) lim;
  if (!straddle) {
    std::vector<V> want(ref.begin(), ref.begin() + wantN);
    c.checkf(got == want && w.dh.end - w.dh.begin == inHit, [&] { return cat(shown(), ": expected hit and trailing ", str(want), " of which ", inHit, " in the hit"); });
    const size_t wend = wantN < ref.size() ? ref[wantN].at : raw.size();
    if (wantN == ref.size() || post) c.checkf(end == wend, [&] { return cat(shown(), ": expected end ", wend); });
  }
  else {                                                       // values must at least tile the bytes and be right
    c.label("straddling");
    const size_t cut = std::max(inHit, decodeRun(d, raw, hb, he, he).size());   // the last character may be cut off at the end of the hit
    c.checkf(got.size() <= cut + post && (got.empty() || got[0].at == hb), [&] { return shown() + ": wrong extent"; });
  }

  // leading part
  std::vector<V> lead(v.begin(), v.begin() + w.dh.begin);
  c.checkf(lead.size() <= pre, [&] { return shown() + ": too much leading context"; });
  if (lead.size() < pre) c.checkf(lead.empty() ? hb == 0 : lead[0].at == 0, [&] { return shown() + ": too little leading context"; });
  if (hb > 0 && pre > 0) c.checkf(!lead.empty(), [&] { return shown() + ": no leading context"; });
  const unsigned char* rb = (const unsigned char*) raw.data();
  for (size_t i = 0; i < lead.size(); ++i) {                   // it tiles the bytes up to the hit, each value right
    const size_t nx = i + 1 < lead.size() ? lead[i + 1].at : hb;
    const V x = lead[i];
    c.checkf(x.at < nx, [&] { return shown() + ": offsets not increasing"; });
    // (with a byte transformation, the value of a bad byte may be that before or after it)
    if (x.v < 0) c.checkf(nx == x.at + 1 && (x.v == -int32_t(rb[x.at]) - 1 || (d.oce && x.v == -int32_t((unsigned char) buf[x.at]) - 1)), [&] { return cat(shown(), ": bad value ", i); });
    else {
      uint32_t cp = 0;
      const size_t n = d.one(rb + x.at, rb + hb, cp);
      c.checkf(n == nx - x.at && int32_t(cp) == x.v, [&] { return cat(shown(), ": value ", i, " should be ", std::hex, cp, std::dec, " of ", n, " bytes"); });
    }
  }
  // the run of characters adjacent to the hit is as long as can be
  size_t best = 0;
  for (size_t l = hb; l-- > 0 && hb - l <= pre * 4 * (d.enc ? 1 : d.maxLen);) {
    auto r = decodeRun(d, raw, l, hb, hb);
    size_t k = 0; while (k < r.size() && r[r.size() - 1 - k].v >= 0) ++k;
    best = std::max(best, std::min(k, pre));
  }
  size_t adj = 0; while (adj < lead.size() && lead[lead.size() - 1 - adj].v >= 0) ++adj;
  // (a decoder for which more bytes may be looked at may do better than this bound, not worse)
  c.checkf(adj >= best || pre * (d.enc ? 4 : d.maxLen) < hb, [&] { return cat(shown(), ": ", adj, " characters before the hit, ", best, " possible"); });
  if (valid && d.self) {                                       // text in a self-synchronising encoding, hit on its boundaries
    size_t bi = std::find(bounds.begin(), bounds.end(), hb) - bounds.begin();
    std::vector<V> want;
    for (size_t i = bi > pre ? bi - pre : 0; i < bi; ++i) { uint32_t cp = 0; d.one(rb + bounds[i], rb + raw.size(), cp); want.push_back({int32_t(cp), bounds[i]}); }
    c.checkf(lead == want, [&] { return cat(shown(), ": expected leading ", str(want)); });
    c.label("exact leading");
  }

  // lg_hit_context is the same, in UTF-8
  const size_t win = pre;
  const uint32_t repl = c.s.oneof<uint32_t>({0xFFFD, '.', 0x2620, 0x1F4A9});
  Win x = readWindow(c, h, buf, base, hb, he, d.name, win, win);
  std::unique_ptr<char[]> b(new char[buf.size()]);
  if (!buf.empty()) memcpy(b.get(), buf.data(), buf.size());
  const LG_Window inner{base + hb, base + he};
  LG_Window outer{0, 0}, dh{0, 0};
  const char* out = nullptr; LG_Error* e = nullptr;
  const unsigned cb = lg_hit_context(h, b.get(), b.get() + buf.size(), base, &inner, d.name.c_str(), win, repl, &out, &outer, &dh, &e);
  std::unique_ptr<const char[], void(*)(const char*)> o(out, lg_free_hit_context_string);
  c.check(!e && out, what + ": context error");
  std::string want, pfx, hit;
  for (size_t i = 0; i + 1 < x.v.size(); ++i) {
    const std::string q = u8(x.v[i].v, repl);
    want += q;
    if (i < x.dh.begin) pfx += q; else if (i < x.dh.end) hit += q;
  }
  c.checkf(want == out, [&] { return cat(what, ": context ", quote(out), ", expected ", quote(want)); });
  c.checkf(cb == x.bad, [&] { return cat(what, ": context reports ", cb, " bad values, expected ", x.bad); });
  c.checkf(dh.begin == pfx.size() && dh.end == pfx.size() + hit.size(), [&] { return cat(what, ": hit at [", dh.begin, ",", dh.end, ") of the context, expected [", pfx.size(), ",", pfx.size() + hit.size(), ")"); });
  c.checkf(outer.begin == base + x.v[0].at && outer.end == base + x.v.back().at, [&] { return cat(what, ": context covers [", outer.begin, ",", outer.end, ")"); });
}

LG_HDECODER decoder() { static LG_HDECODER h = lg_create_decoder(); return h; }   // reused: it caches decoders

Bytes store(const Dec& d, const Bytes& raw) {
  if (!d.oce) return raw;
  oceInit();
  static unsigned char inv[256]; static bool once = [] { for (int i = 0; i < 256; ++i) inv[OCE_DEC[i]] = (unsigned char) i; return true; }();
  (void) once;
  Bytes o; for (unsigned char ch : raw) o += char(inv[ch]);
  return o;
}

// what is built like a character of a Unicode encoding and is none (or is, now and then)
Bytes nonCharacter(Src& s, const Dec& d) {
  static const uint32_t e[] = {0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x13FFFF, 0x140000, 0x1FFFFF, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000};
  uint32_t v = e[s.below(sizeof e / sizeof *e)];
  if (s.chance(1, 4)) v += (uint32_t) s.below(64);
  auto unit = [&](uint32_t u, int n, bool big) { Bytes o(n, 0); for (int i = 0; i < n; ++i) o[big ? n - 1 - i : i] = char(u >> 8 * i); return o; };
  const std::string& n = d.name;
  const bool big = n.find("BE") != n.npos;
  if (n.find("UTF-32") != n.npos) return unit(s.chance(1, 3) ? v | s.oneof<uint32_t>({0x80000000u, 0x01000000u, 0xFF000000u, 0x00200000u}) : v, 4, big);
  if (n.find("UTF-16") != n.npos) return unit(v & 0xFFFF, 2, big);
  if (n.find("UTF-8") == n.npos) return Bytes(1, char(s.below(256)));
  int k = 1 + (int) s.below(4);                            // of any length
  Bytes o(k, 0);
  for (int i = k - 1; i > 0; --i, v >>= 6) o[i] = char(0x80 | (v & 0x3F));
  static const unsigned lead[] = {0, 0, 0xC0, 0xE0, 0xF0};
  o[0] = char(lead[k] | (v & (k == 1 ? 0xFF : 0xFFu >> (k + 1))));
  if (s.chance(1, 6)) o[s.below(k)] = (char) s.oneof<int>({0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xF5, 0xF8});
  return o;
}

void window(Case& c) {
  Src& s = c.s;
  const Dec& d = s.pick(decs());
  Bytes raw; std::vector<size_t> bounds;
  const bool valid = s.chance(1, 2);
  const size_t n = s.small(24);
  bool any8 = false;
  for (size_t i = 0; i < n; ++i) {
    if (!valid && s.chance(1, 4)) { bounds.push_back(raw.size()); raw += char(s.chance(1, 2) ? s.below(256) : s.oneof<int>({0x80, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xA0, 0x90, 0xD8, 0xDC, 0xDB, 0xDF, 0x00, 0xFF, 0x81, 0x8F, 0x30})); continue; }
    if (!valid && s.chance(1, 4)) { bounds.push_back(raw.size()); raw += nonCharacter(s, d); continue; }
    Bytes b = encodeOne(d, genCp(s));
    if (b.empty()) b = encodeOne(d, 'a' + s.below(26));
    if (b.size() > 1) any8 = true;
    bounds.push_back(raw.size());
    raw += b;
  }
  if (!valid && !raw.empty() && s.chance(1, 3)) { size_t k = s.below(raw.size()); raw.erase(k, 1); bounds.clear(); for (size_t i = 0; i < raw.size(); ++i) bounds.push_back(i); }
  bounds.push_back(raw.size());
  size_t a = s.below(bounds.size()), b = a + s.small(bounds.size() - 1 - a);
  size_t hb = bounds[a], he = bounds[b];
  if (!valid && s.chance(1, 3)) { hb = s.below(raw.size() + 1); he = hb + s.below(raw.size() - hb + 1); }
  const size_t pre = s.small(8), post = s.small(8);
  const uint64_t base = genBase(s);
  c.ident(cat(d.name, raw, hb, ",", he, pre, post));
  c.note("case", [&] { return cat(d.name, " ", quote(raw), " [", hb, ",", he, ") ", pre, " ", post); });
  const bool fresh = s.chance(1, 4);
  LG_HDECODER h = fresh ? lg_create_decoder() : decoder();
  std::unique_ptr<DecoderHandle, void(*)(DecoderHandle*)> own(fresh ? h : nullptr, lg_destroy_decoder);
  check(c, h, d, raw, store(d, raw), base, hb, he, pre, post, valid, bounds);
  if (s.chance(1, 20)) {                                        // an unknown encoding is an error
    Win w = readWindow(c, h, raw, base, hb, he, "nope", pre, post);
    c.check(w.err, "an unknown encoding was decoded");
  }
  c.nontrivial = he > hb && (pre || post);
  c.label(d.name.c_str());
  if (!valid) c.label("damaged");
  if (any8) c.label("multi-byte");
}

// from pattern to hit to decoded hit: a literal is what its hits decode to
void literal(Case& c) {
  Src& s = c.s;
  const Dec& d = s.pick(decs());
  std::vector<uint32_t> lit; Bytes code;
  for (size_t k = 1 + s.small(5); k; --k) { uint32_t cp = genCp(s); if (!cp || encodeOne(d, cp).empty()) cp = 'a' + s.below(4); lit.push_back(cp); }
  for (auto cp : lit) code += encodeOne(d, cp);
  // the code must decode to the literal (one-way mappings do not)
  { auto r = decodeRun(d, code, 0, code.size(), code.size()); c.require(r.size() == lit.size()); for (size_t i = 0; i < r.size(); ++i) c.require(r[i].v == int32_t(lit[i])); }
  Bytes raw;
  for (size_t k = s.small(12); k; --k) raw += encodeOne(d, 'a' + s.below(26));
  const size_t at = raw.size();
  raw += code;
  for (size_t k = s.small(12); k; --k) raw += encodeOne(d, 'a' + s.below(26));
  const Bytes buf = store(d, raw);
  Lg l;
  c.require(l.build({{utf8(lit), true, false, true, d.name, 3}}, 0));
  const uint64_t base = genBase(s);
  auto hits = searchAll(l.ctx, buf, base);
  c.ident(cat(d.name, raw, utf8(lit)));
  const size_t win = s.small(20);
  bool found = false;
  for (auto& h : hits) {
    const LG_Window inner{h.start, h.end}; LG_Window outer, dh;
    const char* out = nullptr; LG_Error* e = nullptr;
    const unsigned bad = lg_hit_context(decoder(), buf.data(), buf.data() + buf.size(), base, &inner, lg_prog_pattern_info(l.prog, 0)->EncodingChain, win, 0xFFFD, &out, &outer, &dh, &e);
    std::unique_ptr<const char[], void(*)(const char*)> o(out, lg_free_hit_context_string);
    c.check(!e && out, "context error");
    const std::string got = std::string(out).substr(dh.begin, dh.end - dh.begin);
    c.checkf(got == utf8(lit), [&] { return cat(d.name, " literal ", quote(utf8(lit)), " in ", quote(raw), " hit ", hitsStr({h}), " decodes to ", quote(got)); });
    if (h.start - base == at) {
      found = true;
      if (d.self) c.checkf(bad == 0, [&] { return cat(d.name, " ", quote(raw), ": ", bad, " bad values around ", hitsStr({h})); });
    }
  }
  c.note("case", [&] { return cat(d.name, " ", quote(utf8(lit)), " in ", quote(raw), " hits ", hitsStr(hits)); });
  if (d.self) c.checkf(found || !hits.empty(), [&] { return cat(d.name, " literal ", quote(utf8(lit)), " not found in ", quote(raw)); });
  c.nontrivial = !hits.empty() && win > 0;
}
}

Suite suite() {
  Suite s;
  s.id = "C14";
  s.rule = "window: random text (valid, or damaged by stray, missing and boundary bytes) in UTF-8/16/32, ASCII, single- and multi-byte tables and OCE chains, a hit on or off character boundaries, 0-8 values of context either side, any base offset, shared and fresh decoders; lg_read_window against an independent decoder: hit and trailing values, offsets and end exact, leading values tile the bytes, decode right, and give the longest possible run of characters next to the hit (exact for valid text in self-synchronising encodings), bad count equals the negative values; lg_hit_context must be the same window in UTF-8. literal: pattern -> hit -> decoded hit is the literal. Non-trivial: non-empty hit with context (window), a hit (literal).";
  s.parts = {
    {"window", window, 150000, 3000000},
    {"literal", literal, 30000, 500000},
  };
  return s;
}
