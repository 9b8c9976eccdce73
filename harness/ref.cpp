#include "ref.h"
#include <algorithm>
#include <cstring>
#include <unordered_map>
#include <unicode/uchar.h>
#include <unicode/uset.h>
#include <unicode/ucnv.h>
#include <unicode/ustring.h>

namespace ref {
using pbt::cat;

// ---------------------------------------------------------------- CpSet
void CpSet::add(uint32_t lo, uint32_t hi) {
  std::vector<std::pair<uint32_t, uint32_t>> o;
  bool done = false;
  for (auto& x : r) {
    if (x.second + 1 < lo || done) {
      if (done && !o.empty() && x.first <= (uint64_t) o.back().second + 1) o.back().second = std::max(o.back().second, x.second);
      else o.push_back(x);
    }
    else if (hi + 1 < x.first) { o.push_back({lo, hi}); o.push_back(x); done = true; }
    else { lo = std::min(lo, x.first); hi = std::max(hi, x.second); }
  }
  if (!done) o.push_back({lo, hi});
  r.swap(o);
}
bool CpSet::has(uint32_t c) const {
  size_t a = 0, b = r.size();
  while (a < b) {
    size_t m = (a + b) / 2;
    if (c < r[m].first) b = m; else if (c > r[m].second) a = m + 1; else return true;
  }
  return false;
}
uint64_t CpSet::size() const { uint64_t n = 0; for (auto& x : r) n += x.second - x.first + 1; return n; }
CpSet CpSet::operator~() const {
  CpSet o; uint32_t c = 0;
  for (auto& x : r) { if (x.first > c) o.r.push_back({c, x.first - 1}); c = x.second + 1; }
  if (c <= MAXCP) o.r.push_back({c, MAXCP});
  return o;
}
CpSet CpSet::operator&(const CpSet& q) const {
  CpSet o; size_t i = 0, j = 0;
  while (i < r.size() && j < q.r.size()) {
    uint32_t lo = std::max(r[i].first, q.r[j].first), hi = std::min(r[i].second, q.r[j].second);
    if (lo <= hi) o.r.push_back({lo, hi});
    if (r[i].second < q.r[j].second) ++i; else ++j;
  }
  return o;
}
CpSet CpSet::operator|(const CpSet& q) const { return ~(~*this & ~q); }
CpSet CpSet::operator-(const CpSet& q) const { return *this & ~q; }
uint32_t CpSet::nth(uint64_t i) const {
  for (auto& x : r) { uint64_t n = x.second - x.first + 1; if (i < n) return x.first + (uint32_t) i; i -= n; }
  return r.empty() ? 0 : r[0].first;
}
std::string CpSet::str() const {
  std::string o = "{"; char t[64]; size_t k = 0;
  for (auto& x : r) {
    if (k++ >= 12) { o += " ..."; break; }
    if (x.first == x.second) snprintf(t, sizeof t, " %X", x.first); else snprintf(t, sizeof t, " %X-%X", x.first, x.second);
    o += t;
  }
  return o + " }";
}

// ---------------------------------------------------------------- case folding
namespace {
struct FoldTab {
  std::unordered_map<uint32_t, std::vector<uint32_t>> cls;   // fold -> members (more than one)
  FoldTab() {
    std::unordered_map<uint32_t, std::vector<uint32_t>> m;
    for (uint32_t c = 0; c <= MAXCP; ++c) {
      uint32_t f = u_foldCase(c, U_FOLD_CASE_DEFAULT);
      if (f != c) { auto& v = m[f]; if (v.empty()) v.push_back(f); v.push_back(c); }
    }
    cls.swap(m);
  }
};
const FoldTab& folds() { static FoldTab t; return t; }

CpSet closeSimple(const CpSet& s) {
  CpSet o = s;
  for (auto& kv : folds().cls) {
    bool any = false;
    for (uint32_t c : kv.second) if (s.has(c)) { any = true; break; }
    if (any) for (uint32_t c : kv.second) if (!s.has(c)) o.add(c);
  }
  return o;
}
}

CpSet foldClosure(const CpSet& s, bool ascii) {
  if (!ascii) {
    // small sets: look the classes up instead of scanning all of them
    if (s.size() <= 64) {
      CpSet o = s;
      for (auto& x : s.r) for (uint32_t c = x.first; c <= x.second; ++c) {
        auto i = folds().cls.find(u_foldCase(c, U_FOLD_CASE_DEFAULT));
        if (i != folds().cls.end()) for (uint32_t d : i->second) o.add(d);
      }
      return o;
    }
    return closeSimple(s);
  }
  CpSet o = s;
  for (uint32_t c = 'A'; c <= 'Z'; ++c) if (s.has(c) || s.has(c + 32)) { o.add(c); o.add(c + 32); }
  return o | foldClosure(s & CpSet(0x80, MAXCP), false);
}

static CpSet fromUSet(const USet* u) {
  CpSet o;
  int n = uset_getItemCount(u);
  for (int i = 0; i < n; ++i) {
    UChar32 a, b; UErrorCode ec = U_ZERO_ERROR;
    if (uset_getItem(u, i, &a, &b, nullptr, 0, &ec) == 0) o.add(a, b);
  }
  return o;
}
CpSet icuProperty(const std::string& p) {
  static std::map<std::string, CpSet> memo;
  auto i = memo.find(p);
  if (i != memo.end()) return i->second;
  UErrorCode ec = U_ZERO_ERROR;
  USet* u = uset_openEmpty();
  size_t eq = p.find('=');
  UChar a[64], b[64];
  std::string n = eq == std::string::npos ? p : p.substr(0, eq), v = eq == std::string::npos ? "" : p.substr(eq + 1);
  u_uastrcpy(a, n.c_str()); u_uastrcpy(b, v.c_str());
  uset_applyPropertyAlias(u, a, n.size(), b, v.size(), &ec);
  CpSet o = fromUSet(u);
  uset_close(u);
  return memo[p] = o;
}
static CpSet category(uint32_t mask) {
  static std::map<uint32_t, CpSet> memo;
  auto i = memo.find(mask);
  if (i != memo.end()) return i->second;
  CpSet o;
  uint32_t lo = 0; bool in = false;
  for (uint32_t c = 0; c <= MAXCP + 1; ++c) {
    bool m = c <= MAXCP && (U_GET_GC_MASK(c) & mask);
    if (m && !in) { lo = c; in = true; }
    else if (!m && in) { o.r.push_back({lo, c - 1}); in = false; }
  }
  return memo[mask] = o;
}
CpSet clsDigit(bool ascii) { return ascii ? CpSet('0', '9') : category(U_GC_ND_MASK); }
CpSet clsH() {
  CpSet s = CpSet::of({9, 0x20, 0xA0, 0x1680, 0x180E, 0x202F, 0x205F, 0x3000});
  s.add(0x2000, 0x200A);
  return s;
}
CpSet clsV() { CpSet s(0xA, 0xD); s.add(0x85); s.add(0x2028, 0x2029); return s; }
CpSet clsSpace(bool ascii) {
  if (ascii) { CpSet s(9, 13); s.add(' '); return s; }
  return category(U_GC_Z_MASK) | clsH() | clsV();
}
CpSet clsWord(bool ascii) {
  if (ascii) { CpSet s('a', 'z'); s.add('A', 'Z'); s.add('0', '9'); s.add('_'); return s; }
  CpSet s = category(U_GC_L_MASK | U_GC_N_MASK);
  s.add('_');
  return s;
}

// ---------------------------------------------------------------- encodings
Bytes utf8(uint32_t c) {
  Bytes o;
  if (c < 0x80) o += (char) c;
  else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
  else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | ((c >> 12) & 63)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
  return o;
}
Bytes utf8(const std::vector<uint32_t>& s) { Bytes o; for (uint32_t c : s) o += utf8(c); return o; }

namespace {
bool scalar(uint32_t c) { return c <= MAXCP && !(c >= 0xD800 && c <= 0xDFFF); }

struct EncAscii: Enc {
  unsigned top;
  EncAscii(const char* n, unsigned t): top(t) { name = n; }
  Bytes encode(uint32_t c) const override { return c <= top ? Bytes(1, (char) c) : Bytes(); }
  size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const override {
    if (p < e && *p <= top) { cp = *p; return 1; }
    return 0;
  }
};
struct EncUtf8: Enc {
  EncUtf8() { name = "UTF-8"; }
  Bytes encode(uint32_t c) const override { return scalar(c) ? utf8(c) : Bytes(); }
  size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const override {
    if (p >= e) return 0;
    if (*p < 0x80) { cp = *p; return 1; }
    size_t n = *p >= 0xF0 && *p <= 0xF7 ? 4 : *p >= 0xE0 && *p < 0xF0 ? 3 : *p >= 0xC0 && *p < 0xE0 ? 2 : 0;
    if (!n || (size_t) (e - p) < n) return 0;
    cp = n == 4 ? *p & 7 : n == 3 ? *p & 15 : *p & 31;
    for (size_t i = 1; i < n; ++i) { if ((p[i] & 0xC0) != 0x80) return 0; cp = cp << 6 | (p[i] & 63); }
    if (!scalar(cp) || utf8(cp).size() != n) return 0;
    return n;
  }
};
struct EncUtf16: Enc {
  bool be;
  EncUtf16(bool b): be(b) { name = b ? "UTF-16BE" : "UTF-16LE"; }
  unsigned unit() const override { return 2; }
  Bytes u(uint32_t x) const { Bytes o; char h = (char) (x >> 8), l = (char) x; if (be) { o += h; o += l; } else { o += l; o += h; } return o; }
  Bytes encode(uint32_t c) const override {
    if (!scalar(c)) return Bytes();
    if (c < 0x10000) return u(c);
    c -= 0x10000;
    return u(0xD800 | c >> 10) + u(0xDC00 | (c & 0x3FF));
  }
  uint32_t rd(const unsigned char* p) const { return be ? p[0] << 8 | p[1] : p[1] << 8 | p[0]; }
  size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const override {
    if (e - p < 2) return 0;
    uint32_t a = rd(p);
    if (a < 0xD800 || a > 0xDFFF) { cp = a; return 2; }
    if (a >= 0xDC00 || e - p < 4) return 0;
    uint32_t b = rd(p + 2);
    if (b < 0xDC00 || b > 0xDFFF) return 0;
    cp = 0x10000 + ((a & 0x3FF) << 10 | (b & 0x3FF));
    return 4;
  }
};
struct EncUtf32: Enc {
  bool be;
  EncUtf32(bool b): be(b) { name = b ? "UTF-32BE" : "UTF-32LE"; }
  unsigned unit() const override { return 4; }
  Bytes encode(uint32_t c) const override {
    if (!scalar(c)) return Bytes();
    Bytes o;
    for (int i = 0; i < 4; ++i) o += (char) (c >> (be ? 24 - 8 * i : 8 * i));
    return o;
  }
  size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const override {
    if (e - p < 4) return 0;
    cp = be ? (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] : (uint32_t) p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
    return scalar(cp) ? 4 : 0;
  }
};
}

const Enc& encByName(const std::string& n) {
  static EncAscii ascii("ASCII", 0x7F), latin("ISO-8859-1", 0xFF);
  static EncUtf8 u8;
  static EncUtf16 l16(false), b16(true);
  static EncUtf32 l32(false), b32(true);
  static const Enc* all[] = { &ascii, &latin, &u8, &l16, &b16, &l32, &b32 };
  for (const Enc* e : all) if (e->name == n) return *e;
  abort();
}

// ---------------------------------------------------------------- patterns
bool Pat::nullable(int i) const {
  const Node& x = n[i];
  switch (x.t) {
  case Node::CHARS: case Node::BYTE: return false;
  case Node::CAT: return nullable(x.l) && nullable(x.r);
  case Node::ALT: return nullable(x.l) || nullable(x.r);
  case Node::REP: return x.min == 0 || nullable(x.l);
  }
  return false;
}
uint64_t Pat::expanded(int i) const {
  const Node& x = n[i];
  switch (x.t) {
  case Node::CHARS: case Node::BYTE: return 1;
  case Node::CAT: case Node::ALT: return expanded(x.l) + expanded(x.r);
  case Node::REP: return expanded(x.l) * std::max(1, x.max < 0 ? std::max(1, x.min) : x.max);
  }
  return 1;
}
std::string Pat::ast(int i) const {
  const Node& x = n[i];
  switch (x.t) {
  case Node::CHARS: {
    std::string t = x.set.str();
    if (!x.bytes.empty()) { t += "+bytes"; for (unsigned k = 0; k < 256; ++k) if (x.bytes[k]) t += cat(" ", k); }
    return t;
  }
  case Node::BYTE: return cat("<byte ", x.b, ">");
  case Node::CAT: return ast(x.l) + ast(x.r);
  case Node::ALT: return "(" + ast(x.l) + "|" + ast(x.r) + ")";
  case Node::REP: return cat("(", ast(x.l), "){", x.min, ",", x.max, "}", x.greedy ? "" : "?");
  }
  return "";
}
Pat::Fit Pat::fits(const Enc& e) const {
  Fit f = FITS;
  std::function<void(int, bool)> go = [&](int i, bool dead) {
    const Node& x = n[i];
    switch (x.t) {
    case Node::CHARS: {
      bool ok = !x.bytes.empty();
      for (auto& rg : x.set.r) {
        if (ok) break;
        // valid code points come in few big ranges in every model encoding
        for (uint32_t c : {rg.first, rg.second, 0xE000u, 0x41u, 0xD7FFu}) if (c >= rg.first && c <= rg.second && e.can(c)) { ok = true; break; }
        for (uint32_t c = rg.first; !ok && c <= rg.second && c < rg.first + 300; ++c) ok = e.can(c);
      }
      if (!ok) f = dead ? (f == NOFIT ? NOFIT : EITHER) : NOFIT;
      break;
    }
    case Node::BYTE: break;
    case Node::CAT: case Node::ALT: go(x.l, dead); go(x.r, dead); break;
    case Node::REP: go(x.l, dead || x.max == 0); break;
    }
  };
  go(root, false);
  // a nongreedy tail may be dropped, and what it makes unreachable with it
  if (f == NOFIT) for (auto& x : n) if (x.t == Node::REP && !x.greedy) f = EITHER;
  return f;
}

std::vector<uint32_t> genAlphabet(Src& s, int kind) {
  static const std::vector<uint32_t> low = {'a', 'b', 'c', 'd', 'x', 'z', '0', '1', ' ', 'A', 'k', 's', '-', '.', ',', '_', 'i', 'm'};
  static const std::vector<uint32_t> odd = {0, 1, '\n', '\t', '\r', 0x7F, '(', ')', '[', ']', '{', '}', '\\', '*', '+', '?', '|', '^', '$', '&', '~', '<', '=', '!', '"', '#', '/', ':', '@', 'B', 'Z'};
  static const std::vector<uint32_t> lat = {0xE9, 0xC9, 0xFF, 0x80, 0xA0, 0xDF, 0xB5, 0x85, 0xD7};
  static const std::vector<uint32_t> bmp = {0x100, 0x17F, 0x3C3, 0x3C2, 0x3A3, 0x436, 0x416, 0x7FF, 0x800, 0x1E9E, 0x2028, 0x212A, 0x4E00, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x0660, 0x1C4, 0x1C5};
  static const std::vector<uint32_t> sup = {0x10000, 0x1F600, 0x10FFFF, 0x10400, 0x10428, 0xFFFFF, 0x100000, 0x20000, 0x1D7CE};
  std::vector<uint32_t> a;
  size_t n = 2 + s.below(3);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = (unsigned) s.below(10);
    if (kind == 0 || k < 4) {
      if (s.chance(1, 10)) a.push_back(s.pick(odd));
      else if (i < 2 && s.chance(3, 4)) a.push_back('a' + (uint32_t) i);
      else a.push_back(s.pick(low));
    }
    else if (kind == 3 || k < 6) a.push_back(s.pick(lat));
    else if (kind == 1 || k < 8) a.push_back(s.chance(1, 4) ? (uint32_t) (0x100 + s.below(0xD800 - 0x100)) : s.pick(bmp));
    else a.push_back(s.chance(1, 4) ? (uint32_t) (0x10000 + s.below(0x100000)) : s.pick(sup));
  }
  std::sort(a.begin(), a.end());
  a.erase(std::unique(a.begin(), a.end()), a.end());
  if (a.size() < 2) a.push_back(a[0] == 'q' ? 'r' : 'q');
  return a;
}

static bool meta(uint32_t c) { return c < 128 && strchr("|()?+*.[]^$-{}&~<=!\\", (int) c) && c; }

std::string renderChar(Src& s, uint32_t cp, bool escapes, bool inClass) {
  char t[32];
  bool must = cp == 0 || (cp >= 0xD800 && cp <= 0xDFFF);
  unsigned k = escapes ? (unsigned) s.weighted({12, 1, 1, 1, 1}) : 0;
  if (must && k == 0) k = 1;
  switch (k) {
  case 1: snprintf(t, sizeof t, s.chance(1, 2) ? "\\x{%X}" : "\\x{%04x}", cp); return t;
  case 2: if (cp < 0x100) { snprintf(t, sizeof t, s.chance(1, 2) ? "\\x%02X" : "\\x%02x", cp); return t; } break;
  case 3: if (cp < 0x100) { snprintf(t, sizeof t, "\\%03o", cp); return t; } break;
  case 4: snprintf(t, sizeof t, "\\N{U+%X}", cp); return t;
  }
  if (must) { snprintf(t, sizeof t, "\\x{%X}", cp); return t; }
  switch (cp) {
  case '\n': return s.chance(1, 2) ? "\\n" : "\n";
  case '\t': return s.chance(1, 2) ? "\\t" : "\t";
  case '\r': return s.chance(1, 2) ? "\\r" : "\r";
  case '\f': return "\\f";
  case 7: return "\\a";
  case 0x1B: return "\\e";
  }
  if (cp == ',') return ",";
  if (inClass ? meta(cp) : (meta(cp) && cp != '-' && cp != '&' && cp != '~' && cp != '<' && cp != '=' && cp != '!' && cp != ']' && cp != '}' && cp != '{')) return std::string("\\") + (char) cp;
  if (!inClass && (cp == '&' || cp == '~' || cp == '<' || cp == '=' || cp == '!' || cp == '-' || cp == ']' || cp == '}'))
    return s.chance(1, 2) ? std::string("\\") + (char) cp : std::string(1, (char) cp);
  if (cp == '{') return "\\{";
  return utf8(cp);
}

namespace {

// one operand of a class expression
ClassExpr genClassAtom(Src& s, const GenOpts& o, unsigned depth, bool first) {
  ClassExpr e;
  const bool asc = !o.uni;
  auto lit = [&](uint32_t c) {
    if (c && c < 128 && strchr("()?+*.{}<=!$|", (int) c) && s.chance(1, 2)) return std::string(1, (char) c);
    if (c == '^' && !first && s.chance(1, 2)) return std::string("^");
    if (c == 8 && s.chance(1, 2)) return std::string("\\b");
    return renderChar(s, c, o.escapes, true);
  };
  auto named = [&](std::string& text) {
    static const char* nm = "dDsSwWhHvV";
    char c = nm[s.below(10)];
    text = std::string("\\") + c;
    CpSet set;
    switch (c | 32) {
    case 'd': set = clsDigit(asc); break;
    case 's': set = clsSpace(asc); break;
    case 'w': set = clsWord(asc); break;
    case 'h': set = clsH(); break;
    case 'v': set = clsV(); break;
    }
    return c < 'a' ? ~set : set;
  };
  if (o.classBytes && s.chance(1, 3)) {
    char t[16];
    unsigned a = s.pick(o.byteAlpha), b = s.pick(o.byteAlpha);
    e.bytes.assign(256, false);
    if (a < b && b - a < 6 && s.chance(1, 2)) { snprintf(t, sizeof t, "\\z%02X-\\z%02x", a, b); for (unsigned k = a; k <= b; ++k) e.bytes[k] = true; }
    else { snprintf(t, sizeof t, "\\z%02X", a); e.bytes[a] = true; }
    e.text = t;
    return e;
  }
  switch (s.weighted({8, 5, 3, (unsigned) (depth ? 3 : 0), (unsigned) (o.richClasses ? 2 : 0), (unsigned) (o.richClasses ? 1 : 0)})) {
  case 0: {
    uint32_t c = s.pick(o.alpha);
    e.text = lit(c);
    e.set = CpSet(c, c);
    break;
  }
  case 1: {
    uint32_t a = s.pick(o.alpha), b;
    if (s.chance(1, 2)) b = s.pick(o.alpha);
    else b = (uint32_t) std::min<uint64_t>(MAXCP, a + 1 + s.small(o.richClasses ? 3000 : 6));
    if (a > b) std::swap(a, b);
    if (a == b) { e.text = lit(a); e.set = CpSet(a, a); break; }
    e.text = lit(a) + "-" + lit(b);
    e.set = CpSet(a, b);
    break;
  }
  case 2: e.set = named(e.text); break;
  case 3: return genClass(s, o, depth - 1);
  case 4: {
    static const std::vector<std::string> props = {"L", "Lu", "Ll", "Nd", "N", "P", "Greek", "Cyrillic", "Alphabetic", "White_Space", "script=Han", "gc=Sc", "Any", "ASCII", "Hex_Digit"};
    const std::string& p = s.pick(props);
    bool neg = s.chance(1, 4);
    e.set = icuProperty(p == "L" || p.size() <= 2 ? "gc=" + p : p);
    if (p == "Any") e.set = CpSet(0, MAXCP);
    if (p == "ASCII") e.set = CpSet(0, 0x7F);
    if (p == "Greek" || p == "Cyrillic") e.set = icuProperty("script=" + p);
    if (neg) e.set = ~e.set;
    if (o.ci) e.set = foldClosure(e.set, false);             // properties fold as in Unicode, whatever the mode
    e.text = std::string(neg ? "\\P{" : "\\p{") + p + "}";
    break;
  }
  case 5: {                                                  // not a range: the character, a hyphen and the class
    uint32_t c = s.pick(o.alpha);
    std::string t;
    e.set = named(t) | CpSet::of({c, '-'});
    e.text = lit(c) + "-" + t;
    break;
  }
  }
  return e;
}
void byteOp(std::vector<bool>& a, const std::vector<bool>& b, int op) {
  if (a.empty() && b.empty()) return;
  if (a.empty()) a.assign(256, false);
  for (unsigned k = 0; k < 256; ++k) {
    bool y = !b.empty() && b[k];
    switch (op) {
    case 0: if (y) a[k] = true; break;
    case 1: if (!y) a[k] = false; break;
    case 2: if (y) a[k] = false; break;
    case 3: if (y) a[k] = !a[k]; break;
    }
  }
}
bool noBytes(const std::vector<bool>& a) { return std::find(a.begin(), a.end(), true) == a.end(); }
}

// Class expressions: juxtaposition (union), && -- and ~~ are all left
// associative and of equal precedence: the left operand is everything so far,
// the right operand a single atom.
ClassExpr genClass(Src& s, const GenOpts& o, unsigned depth) {
  ClassExpr e;
  bool neg = o.negclass && s.chance(1, 5);
  GenOpts in = o;
  bool bytesOnly = false;
  if (neg && in.classBytes) {
    // code points and bytes are not mixed in negated classes
    in.classBytes = false;
    if (depth == 0 && s.chance(1, 3)) { in.classBytes = bytesOnly = true; }
  }
  size_t n = 1 + s.below(4);
  const bool ops = !bytesOnly && depth && o.richClasses && s.chance(2, 5);
  if (ops && n < 2) n = 2;
  bool plain = false;
  for (size_t i = 0; i < n; ++i) {
    ClassExpr a;
    if (bytesOnly) {
      unsigned b = s.pick(o.byteAlpha);
      char t[8]; snprintf(t, sizeof t, "\\z%02X", b);
      a.text = t; a.bytes.assign(256, false); a.bytes[b] = true;
    }
    else if (i == 0 && !neg && o.richClasses && s.chance(1, 20)) {
      char c = s.chance(1, 2) ? ']' : '-';                   // literal when first
      a.text = std::string(1, c); a.set = CpSet((unsigned char) c, (unsigned char) c);
    }
    else a = genClassAtom(s, in, depth ? depth - 1 : 0, i == 0);
    e.err |= a.err;
    int op = ops && i ? (int) s.below(4) : 0;
    // a hyphen that is not part of an operator must not be followed by one
    if (op == 2 && e.text == "-") op = 1;
    if (op == 0 && i == 1 && e.text == "-" && a.text[0] == '-') continue;
    static const char* txt[] = {"", "&&", "--", "~~"};
    e.text += txt[op] + a.text;
    switch (op) {
    case 0: e.set = e.set | a.set; break;
    case 1: e.set = e.set & a.set; break;
    case 2: e.set = e.set - a.set; break;
    case 3: e.set = e.set ^ a.set; break;
    }
    byteOp(e.bytes, a.bytes, op);
    plain = true;
  }
  if (plain && o.richClasses && e.text.back() != '-' && s.chance(1, 20)) { e.text += "-"; e.set.add('-'); }   // literal when last
  if (o.ci) e.set = foldClosure(e.set, !o.uni);
  if (neg) {
    if (e.set.empty() && !noBytes(e.bytes)) e.bytes.flip();
    else e.set = ~e.set;
  }
  if (noBytes(e.bytes)) e.bytes.clear();
  if (e.set.empty() && e.bytes.empty()) e.err = true;
  e.text = (neg ? "[^" : "[") + e.text + "]";
  return e;
}

namespace {
struct Gen {
  Src& s;
  GenOpts o;
  Pat p;
  struct Frag { int node; std::string text; int prec; };   // prec 3 atom, 2 rep, 1 cat, 0 alt
  bool ci, uni;

  CpSet fold(const CpSet& x) const { return ci ? foldClosure(x, !uni) : x; }

  Frag charAtom(uint32_t c) {
    Node x; x.t = Node::CHARS; x.set = fold(CpSet(c, c));
    return Frag{p.add(x), renderChar(s, c, o.escapes, false), 3};
  }
  Frag atom(unsigned depth) {
    switch (s.weighted({20, (unsigned) (depth ? 8 : 0), (unsigned) (o.classes ? 5 : 0), (unsigned) (o.dot ? 2 : 0), (unsigned) (o.bytes ? 4 : 0), (unsigned) (o.classes ? 2 : 0)})) {
    case 0: return charAtom(s.pick(o.alpha));
    case 1: {
      bool sci = ci, suni = uni;
      std::string pre = sw();
      Frag f = alt(depth - 1);
      ci = sci; uni = suni;
      return Frag{f.node, "(" + pre + f.text + ")", 3};
    }
    case 2: {
      GenOpts q = o; q.ci = ci; q.uni = uni;
      ClassExpr e = genClass(s, q, o.richClasses ? 2 : 0);
      if ((e.err && !o.emptyClasses) || e.set.r.size() > o.maxRanges) return charAtom(o.alpha[0]);
      p.rejected |= e.err;
      Node x; x.t = Node::CHARS; x.set = e.set; x.bytes = e.bytes;
      return Frag{p.add(x), e.text, 3};
    }
    case 3: { Node x; x.t = Node::CHARS; x.set = CpSet(0, MAXCP); return Frag{p.add(x), ".", 3}; }
    case 4: {
      Node x; x.t = Node::BYTE; x.b = s.chance(1, 2) ? (unsigned) s.below(256) : (unsigned) (s.pick(o.alpha) & 0xFF);
      char t[8]; snprintf(t, sizeof t, "\\z%02X", x.b);
      return Frag{p.add(x), t, 3};
    }
    case 5: {
      static const char* nm = "dwshvDWSHV";
      char c = nm[s.below(10)];
      Node x; x.t = Node::CHARS;
      switch (c | 32) {
      case 'd': x.set = clsDigit(!uni); break;
      case 'w': x.set = clsWord(!uni); break;
      case 's': x.set = clsSpace(!uni); break;
      case 'h': x.set = clsH(); break;
      case 'v': x.set = clsV(); break;
      }
      if (c < 'a') x.set = ~x.set;
      if (x.set.r.size() > o.maxRanges) return charAtom(o.alpha[0]);
      return Frag{p.add(x), std::string("\\") + c, 3};
    }
    }
    return charAtom(o.alpha[0]);
  }
  std::string sw() {
    if (!o.switches || !s.chance(1, 4)) return "";
    switch (s.below(6)) {
    case 0: ci = true; return "(?i)";
    case 1: ci = false; return "(?-i)";
    case 2: uni = false; return "(?a)";
    case 3: uni = true; return "(?-a)";
    case 4: ci = true; uni = false; return s.chance(1, 2) ? "(?ia)" : "(?ai)";
    default: ci = true; uni = true; return "(?i-a)";
    }
  }
  static std::string wrap(const Frag& f, int prec) { return f.prec < prec ? "(" + f.text + ")" : f.text; }

  Frag rep(unsigned depth) {
    Frag a = atom(depth);
    if (!s.chance(2, 5)) return a;
    unsigned times = s.chance(1, 8) ? 2 : 1;
    for (unsigned k = 0; k < times; ++k) {
      Node x; x.t = Node::REP; x.l = a.node;
      std::string q;
      switch (s.weighted({4, 4, 4, (unsigned) (o.counted ? 3 : 0), (unsigned) (o.counted ? 2 : 0), (unsigned) (o.counted ? 3 : 0), (unsigned) (o.counted && o.empties ? 1 : 0)})) {
      case 0: x.min = 0; x.max = 1; q = "?"; break;
      case 1: x.min = 1; x.max = -1; q = "+"; break;
      case 2: x.min = 0; x.max = -1; q = "*"; break;
      case 3: x.min = x.max = (int) (1 + s.below(o.maxCount)); q = cat("{", x.min, "}"); break;
      case 4: x.min = (int) s.below(o.maxCount); x.max = -1; q = cat("{", x.min, ",}"); break;
      case 5: x.min = (int) s.below(o.maxCount); x.max = x.min + (int) s.below(o.maxCount); if (!x.max) x.max = 1; q = cat("{", x.min, ",", x.max, "}"); break;
      case 6: x.min = x.max = 0; q = s.chance(1, 2) ? "{0}" : "{0,0}"; break;
      }
      if (x.max < 0 && !o.nullableLoops && p.nullable(a.node)) { x.min = 0; x.max = 1; q = "?"; }
      x.greedy = !(o.nongreedy && s.chance(1, 3));
      if (!x.greedy) q += "?";
      int id = p.add(x);
      if (p.expanded(id) > o.maxExpanded) break;
      a = Frag{id, wrap(a, 3) + q, 2};
    }
    return a;
  }
  Frag concat(unsigned depth) {
    size_t n = 1 + s.small(o.maxCat - 1);
    Frag f = rep(depth);
    for (size_t i = 1; i < n; ++i) {
      const bool sci = ci, suni = uni;
      std::string mid = sw();
      Frag g = rep(depth);
      Node x; x.t = Node::CAT; x.l = f.node; x.r = g.node;
      int id = p.add(x);
      if (p.expanded(id) > o.maxExpanded) { ci = sci; uni = suni; break; }
      // a following digit must not extend anything; '-' '-' would pair up, as would && and ~~
      std::string a = f.prec < 1 ? "(" + f.text + ")" : f.text, b = g.prec < 1 ? "(" + g.text + ")" : g.text;
      if (mid.empty() && !a.empty() && !b.empty() && (a.back() == '-' || a.back() == '&' || a.back() == '~') && a.back() == b[0]) b = "(" + b + ")";
      f = Frag{id, a + mid + b, 1};
    }
    return f;
  }
  Frag alt(unsigned depth) {
    size_t n = s.chance(1, 3) ? 1 + s.below(o.maxAlt) : 1;
    Frag f = concat(depth);
    for (size_t i = 1; i < n; ++i) {
      const bool sci = ci, suni = uni;
      Frag g = concat(depth);
      Node x; x.t = Node::ALT; x.l = f.node; x.r = g.node;
      int id = p.add(x);
      if (p.expanded(id) > o.maxExpanded) { ci = sci; uni = suni; break; }
      f = Frag{id, f.text + "|" + g.text, 0};
    }
    return f;
  }
};
}

Pat genPattern(Src& s, const GenOpts& o) {
  Gen g{s, o, Pat(), o.ci, o.uni};
  g.p.ci = o.ci; g.p.uni = o.uni;
  std::string pre = g.sw();
  const bool ci0 = g.ci, uni0 = g.uni;
  Gen::Frag f = g.alt(o.depth);
  if (!o.allowNullable && g.p.nullable(f.node)) {
    // make it non-empty by construction: a required character on either side
    const bool front = s.chance(1, 2);
    // switches last to the end of the enclosing group
    if (front || f.prec < 1) { g.ci = ci0; g.uni = uni0; }
    Gen::Frag c = g.charAtom(s.pick(o.alpha));
    Node x; x.t = Node::CAT;
    std::string body = f.prec < 1 ? "(" + f.text + ")" : f.text;
    if (front) {
      x.l = c.node; x.r = f.node;
      if (!c.text.empty() && !body.empty() && c.text.back() == body[0] && strchr("-&~", body[0])) body = "(" + body + ")";
      f = Gen::Frag{g.p.add(x), c.text + body, 1};
    }
    else {
      x.l = f.node; x.r = c.node;
      if (!c.text.empty() && !body.empty() && body.back() == c.text[0] && strchr("-&~", c.text[0])) body = "(" + body + ")";
      f = Gen::Frag{g.p.add(x), body + c.text, 1};
    }
  }
  g.p.root = f.node;
  g.p.text = pre + f.text;
  return g.p;
}

Pat literalPat(const std::vector<uint32_t>& cps, bool fixed, bool ci, bool uni) {
  for (uint32_t c : cps) if (!c) fixed = false;              // a fixed string cannot contain NUL
  Pat p; p.fixed = fixed; p.ci = ci; p.uni = uni;
  for (uint32_t c : cps) {
    Node x; x.t = Node::CHARS; x.set = ci ? foldClosure(CpSet(c, c), !uni) : CpSet(c, c);
    int id = p.add(x);
    if (p.root < 0) p.root = id;
    else { Node k; k.t = Node::CAT; k.l = p.root; k.r = id; p.root = p.add(k); }
  }
  if (fixed) p.text = utf8(cps);
  else for (uint32_t c : cps) p.text += !c ? std::string("\\x00") : meta(c) ? std::string("\\") + (char) c : utf8(c);
  return p;
}

// ---------------------------------------------------------------- samples and texts
namespace {
bool sampleNode(Src& s, const Pat& p, int i, const Enc& e, Bytes& out, unsigned loopMax, size_t& fuel) {
  if (!fuel) return false;
  --fuel;
  const Node& x = p.n[i];
  switch (x.t) {
  case Node::CHARS: {
    if (!x.bytes.empty() && (x.set.empty() || s.chance(1, 3))) {
      unsigned b = (unsigned) s.below(256);
      for (unsigned k = 0; k < 256; ++k) if (x.bytes[(b + k) & 255]) { out += (char) (b + k); return true; }
    }
    if (x.set.empty()) return false;
    for (int k = 0; k < 8; ++k) {
      const auto& rg = x.set.r[s.below(std::min<size_t>(x.set.r.size(), k < 4 ? 3 : x.set.r.size()))];
      uint32_t c = rg.first + (uint32_t) s.small(rg.second - rg.first);
      if (s.chance(1, 8)) c = rg.second;
      if (x.set.has('a') && x.set.size() > 1000 && s.chance(2, 3)) c = 'a' + (uint32_t) s.below(3);
      if (!x.set.has(c)) continue;
      Bytes b = e.encode(c);
      if (!b.empty()) { out += b; return true; }
    }
    return false;
  }
  case Node::BYTE: out += (char) x.b; return true;
  case Node::CAT: return sampleNode(s, p, x.l, e, out, loopMax, fuel) && sampleNode(s, p, x.r, e, out, loopMax, fuel);
  case Node::ALT: return sampleNode(s, p, s.chance(1, 2) ? x.r : x.l, e, out, loopMax, fuel);
  case Node::REP: {
    int hi = x.max < 0 ? x.min + (int) loopMax : x.max;
    int k = x.min + (int) s.below(hi - x.min + 1);
    for (int j = 0; j < k; ++j) if (!sampleNode(s, p, x.l, e, out, loopMax, fuel)) return false;
    return true;
  }
  }
  return false;
}
}
bool sampleMatch(Src& s, const Pat& p, const Enc& e, Bytes& out, unsigned loopMax) {
  size_t fuel = 400;
  Bytes b;
  if (!sampleNode(s, p, p.root, e, b, loopMax, fuel)) return false;
  out = b;
  return true;
}

Bytes genText(Src& s, const std::vector<const Pat*>& ps, const Enc& e, const std::vector<uint32_t>& alpha, size_t maxLen) {
  Bytes t;
  size_t pieces = 1 + s.small(8);
  auto noise = [&](size_t n) {
    for (size_t i = 0; i < n; ++i) {
      switch (s.weighted({10, 1, 1})) {
      case 0: t += e.encode(s.pick(alpha)); break;
      case 1: t += (char) s.below(256); break;
      case 2: t += e.encode('a' + (uint32_t) s.below(6)); break;
      }
    }
  };
  for (size_t k = 0; k < pieces && t.size() < maxLen; ++k) {
    switch (s.weighted({4, 5, 2, 1})) {
    case 0: noise(s.small(12)); break;
    case 1: case 2: {
      if (ps.empty()) { noise(4); break; }
      Bytes b;
      const Pat* q = s.pick(ps);
      if (!sampleMatch(s, *q, e, b) || b.size() > maxLen) { noise(2); break; }
      switch (s.weighted({5, 1, 1, 1, 1})) {
      case 1: if (!b.empty()) b.erase(s.below(b.size()), 1); break;
      case 2: if (!b.empty()) b.resize(s.below(b.size() + 1)); break;
      case 3: if (!b.empty()) b[s.below(b.size())] = (char) s.below(256); break;
      case 4: if (!b.empty()) { size_t at = s.below(b.size()); Bytes u = e.encode(s.pick(alpha)); b.insert(at, u); } break;
      }
      t += b;
      break;
    }
    case 3: { // repeat something already there
      if (t.empty()) { noise(1); break; }
      size_t a = s.below(t.size()), n = 1 + s.below(std::min<size_t>(t.size() - a, 12));
      Bytes u = t.substr(a, n);
      size_t times = 1 + s.below(4);
      for (size_t j = 0; j < times && t.size() < maxLen; ++j) t += u;
      break;
    }
    }
  }
  if (t.size() > maxLen) t.resize(maxLen);
  return t;
}

// ---------------------------------------------------------------- matcher
Matcher::Matcher(const Pat& pp, const Enc& ee): p(pp), e(ee) {
  emit(p.root);
  I m; m.o = I::MATCH; prog.push_back(m);
}
void Matcher::emit(int node) {
  const Node& x = p.n[node];
  auto put = [&](I::O op) { I i; i.o = op; i.n = &x; prog.push_back(i); return (int) prog.size() - 1; };
  switch (x.t) {
  case Node::CHARS: put(I::CHARS); break;
  case Node::BYTE: put(I::BYTE); break;
  case Node::CAT: emit(x.l); emit(x.r); break;
  case Node::ALT: {
    int s = put(I::SPLIT);
    prog[s].x = (int) prog.size();
    emit(x.l);
    int j = put(I::JMP);
    prog[s].y = (int) prog.size();
    emit(x.r);
    prog[j].x = (int) prog.size();
    break;
  }
  case Node::REP: {
    auto split = [&](int s, int in, int out) { prog[s].x = x.greedy ? in : out; prog[s].y = x.greedy ? out : in; };
    for (int k = 0; k < x.min; ++k) emit(x.l);
    if (x.max < 0) {
      int s = put(I::SPLIT);
      int in = (int) prog.size();
      emit(x.l);
      int j = put(I::JMP);
      prog[j].x = s;
      split(s, in, (int) prog.size());
    }
    else {
      std::vector<int> ss;
      std::vector<int> ins;
      for (int k = x.min; k < x.max; ++k) { ss.push_back(put(I::SPLIT)); ins.push_back((int) prog.size()); emit(x.l); }
      for (size_t k = 0; k < ss.size(); ++k) split(ss[k], ins[k], (int) prog.size());
    }
    break;
  }
  }
}
long Matcher::matchAt(const Bytes& t, size_t pos) {
  const unsigned char* b = (const unsigned char*) t.data();
  const unsigned char* end = b + t.size();
  stack.clear();
  stack.push_back({0, pos});
  while (!stack.empty()) {
    int pc = stack.back().first;
    size_t at = stack.back().second;
    stack.pop_back();
    for (;;) {
      size_t bit = (size_t) pc * stride + at;
      if (seen[bit >> 6] >> (bit & 63) & 1) break;
      seen[bit >> 6] |= 1ull << (bit & 63);
      const I& i = prog[pc];
      if (i.o == I::MATCH) { if (!whole || at == t.size()) return (long) at; break; }
      if (i.o == I::JMP) { pc = i.x; continue; }
      if (i.o == I::SPLIT) { stack.push_back({i.y, at}); pc = i.x; continue; }
      if (i.o == I::BYTE) {
        if (at < t.size() && b[at] == i.n->b) { ++at; ++pc; continue; }
        break;
      }
      uint32_t cp;
      size_t len = e.decode(b + at, end, cp);
      bool viaChar = len && i.n->set.has(cp);
      bool viaByte = !i.n->bytes.empty() && at < t.size() && i.n->bytes[b[at]];
      if (viaChar) {
        if (viaByte && len != 1) stack.push_back({pc + 1, at + 1});
        at += len; ++pc; continue;
      }
      if (viaByte) { ++at; ++pc; continue; }
      break;
    }
  }
  return -1;
}
bool Matcher::member(const Bytes& t) {
  stride = t.size() + 1;
  seen.assign((prog.size() * stride + 63) / 64, 0);
  whole = true;
  const bool r = matchAt(t, 0) == (long) t.size();
  whole = false;
  return r;
}
std::vector<Hit> Matcher::all(const Bytes& t, uint32_t kw, uint64_t base) {
  std::vector<Hit> h;
  stride = t.size() + 1;
  seen.assign((prog.size() * stride + 63) / 64, 0);
  for (size_t i = 0; i < t.size(); ) {
    long m = matchAt(t, i);
    if (m > (long) i) {
      h.push_back(Hit{base + i, base + (uint64_t) m, kw});
      i = (size_t) m;
      std::fill(seen.begin(), seen.end(), 0);
    }
    else ++i;
  }
  return h;
}
std::string hitsStr(const std::vector<Hit>& h, size_t max) {
  std::string o = "[";
  for (size_t i = 0; i < h.size(); ++i) {
    if (i >= max) { o += " ..."; break; }
    o += cat(i ? " " : "", "(", h[i].start, ",", h[i].end, ")#", h[i].kw);
  }
  return o + "]";
}

// ---------------------------------------------------------------- lightgrep
Lg::~Lg() {
  if (ctx) lg_destroy_context(ctx);
  if (prog) lg_destroy_program(prog);
  if (fsm) lg_destroy_fsm(fsm);
}
int Lg::add(const PatSpec& p) {
  if (!fsm) fsm = lg_create_fsm(0, 0);
  LG_HPATTERN hp = lg_create_pattern();
  LG_KeyOptions ko{(char) p.fixed, (char) p.ci, (char) p.uni};
  LG_Error* er = nullptr;
  int rc = lg_parse_pattern(hp, p.text.c_str(), &ko, &er);
  int idx = -1;
  if (rc > 0) idx = lg_add_pattern(fsm, hp, p.enc.c_str(), p.user, &er);
  if (er) { err = er->Message ? er->Message : "(null message)"; lg_free_error(er); }
  else if (idx < 0) err = "failed without an error";
  lg_destroy_pattern(hp);
  return idx;
}
bool Lg::compile(uint32_t depth) {
  LG_ProgramOptions po{depth};
  prog = lg_create_program(fsm, &po);
  if (!prog) err = "lg_create_program failed";
  return prog;
}
bool Lg::context() {
  LG_ContextOptions co{0, 0};
  ctx = lg_create_context(prog, &co);
  if (!ctx) err = "lg_create_context failed";
  return ctx;
}
bool Lg::build(const std::vector<PatSpec>& ps, uint32_t depth) {
  for (auto& p : ps) if (add(p) < 0) return false;
  return compile(depth) && context();
}
void collect(void* ud, const LG_SearchHit* const h) {
  ((Collector*) ud)->hits.push_back(Hit{h->Start, h->End, h->KeywordIndex});
}
namespace {
// exactly sized heap copy, so that a sanitizer sees any access beyond it
struct Buf {
  std::unique_ptr<char[]> p; size_t n;
  Buf(const char* d, size_t len): p(new char[len]), n(len) { if (len) memcpy(p.get(), d, len); }
};
}
std::vector<Hit> searchAll(LG_HCONTEXT ctx, const Bytes& t, uint64_t base) {
  return searchChunks(ctx, t, {}, base);
}
std::vector<Hit> searchChunks(LG_HCONTEXT ctx, const Bytes& t, const std::vector<size_t>& cuts, uint64_t base, std::vector<uint64_t>* rets) {
  Collector c;
  size_t at = 0;
  for (size_t k = 0; k <= cuts.size(); ++k) {
    size_t to = k < cuts.size() ? cuts[k] : t.size();
    Buf b(t.data() + at, to - at);
    uint64_t r = lg_search(ctx, b.p.get(), b.p.get() + b.n, base + at, &c, collect);
    if (rets) rets->push_back(r);
    at = to;
  }
  lg_closeout_search(ctx, &c, collect);
  return c.hits;
}
std::vector<Hit> startsWith(LG_HCONTEXT ctx, const Bytes& t, uint64_t base) {
  Collector c;
  Buf b(t.data(), t.size());
  lg_starts_with(ctx, b.p.get(), b.p.get() + b.n, base, &c, collect);
  return c.hits;
}
std::vector<std::vector<Hit>> byKeyword(const std::vector<Hit>& h, size_t n) {
  std::vector<std::vector<Hit>> o(n);
  for (auto& x : h) if (x.kw < n) o[x.kw].push_back(x);
  return o;
}
uint32_t genDepth(Src& s, uint64_t expanded, unsigned factor) {
  // determinising is exponential in the worst case: limit its depth for big patterns
  static const std::vector<uint32_t> small = {UINT32_MAX, 0, 1, 2, 3, 5, 10, 20}, mid = {0, 1, 2, 3, 4, 5, 6, 7}, big = {0, 1, 2, 3, 4, 0, 1, 2};
  const uint64_t w = expanded * factor;
  return s.pick(w <= 16 ? small : w <= 40 ? mid : big);
}
}
