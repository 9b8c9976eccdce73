// Reference model: code point sets, encodings, a pattern generator that knows
// the meaning of what it generates, and a backtracking matcher with Perl's
// preferences.  Nothing in here uses lightgrep's internals; lightgrep is only
// reached through its public C API (struct Lg below).
#pragma once
#include "pbt.h"
#include <lightgrep/api.h>
#include <lightgrep/util.h>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace ref {
using pbt::Src;
typedef std::string Bytes;
const uint32_t MAXCP = 0x10FFFF;

// ---------------------------------------------------------------- CpSet
class CpSet {
public:
  CpSet() {}
  CpSet(uint32_t lo, uint32_t hi) { add(lo, hi); }           // inclusive
  static CpSet of(std::initializer_list<uint32_t> l) { CpSet s; for (uint32_t c : l) s.add(c, c); return s; }
  void add(uint32_t lo, uint32_t hi);
  void add(uint32_t c) { add(c, c); }
  bool has(uint32_t c) const;
  bool empty() const { return r.empty(); }
  uint64_t size() const;
  CpSet operator|(const CpSet& o) const;
  CpSet operator&(const CpSet& o) const;
  CpSet operator-(const CpSet& o) const;
  CpSet operator^(const CpSet& o) const { return (*this - o) | (o - *this); }
  CpSet operator~() const;
  bool operator==(const CpSet& o) const { return r == o.r; }
  uint32_t nth(uint64_t i) const;                            // i-th member
  std::string str() const;
  std::vector<std::pair<uint32_t, uint32_t>> r;              // sorted, disjoint, inclusive
};

// simple case folding equivalence (built from ICU's per-character folding)
CpSet foldClosure(const CpSet& s, bool ascii);
// sets behind \d \s \w \h \v
CpSet clsDigit(bool ascii), clsSpace(bool ascii), clsWord(bool ascii), clsH(), clsV();
CpSet icuProperty(const std::string& prop);                  // e.g. "Lu", "Greek"

// ---------------------------------------------------------------- encodings
struct Enc {
  std::string name;                                          // as lightgrep knows it
  virtual ~Enc() {}
  // encoded form of cp, or "" if it has none
  virtual Bytes encode(uint32_t cp) const = 0;
  // decodes one character at p; returns its length or 0
  virtual size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const = 0;
  virtual unsigned unit() const { return 1; }
  bool can(uint32_t cp) const { return !encode(cp).empty(); }
};
const Enc& encByName(const std::string& n);                  // ASCII, UTF-8, UTF-16LE ... UTF-32BE, ISO-8859-1
Bytes utf8(uint32_t cp);
Bytes utf8(const std::vector<uint32_t>& s);

// ---------------------------------------------------------------- patterns
struct Node {
  enum T { CHARS, BYTE, CAT, ALT, REP } t = CHARS;
  CpSet set;               // CHARS
  std::vector<bool> bytes; // CHARS: additional single bytes ([...\zHH...]); empty or 256
  unsigned b = 0;          // BYTE
  int l = -1, r = -1;      // CAT/ALT: both, REP: l
  int min = 0, max = 0;    // REP; max -1 = unbounded
  bool greedy = true;
};

struct Pat {
  std::vector<Node> n;
  int root = -1;
  std::string text;                                          // rendered
  bool fixed = false, ci = false, uni = true;                // options to pass with it
  bool rejected = false;                                     // contains an empty class
  bool nullable(int i) const;
  bool nullable() const { return nullable(root); }
  uint64_t expanded(int i) const;                            // positions after expanding counts
  uint64_t expanded() const { return expanded(root); }
  bool has(Node::T t) const { for (auto& x : n) if (x.t == t) return true; return false; }
  std::string ast(int i) const;
  std::string ast() const { return ast(root); }
  int add(const Node& x) { n.push_back(x); return (int) n.size() - 1; }
  // true if some node must be encodable and is not
  enum Fit { FITS, NOFIT, EITHER };
  Fit fits(const Enc& e) const;
};

struct GenOpts {
  std::vector<uint32_t> alpha;        // characters to draw from
  unsigned depth = 3;
  unsigned maxCat = 4, maxAlt = 3;
  bool nongreedy = true;
  bool counted = true;
  unsigned maxCount = 4;
  bool empties = true;                // {0}, {0,0}
  bool classes = true, dot = true, negclass = true;
  bool escapes = true;                // render characters in varied ways
  bool bytes = false;                 // \zHH
  bool switches = false;              // (?i) etc
  bool ci = false, uni = true;        // options in force
  bool allowNullable = false;         // generate patterns that admit the empty match
  bool nullableLoops = true;          // unbounded loop around a nullable body
  unsigned maxExpanded = 60;
  bool richClasses = false;
  bool emptyClasses = false;          // classes without members may be generated (err is then set)
  bool classBytes = false;            // \zHH in classes
  std::vector<unsigned> byteAlpha;    // from these
  size_t maxRanges = 1000000;         // sets with more ranges are not used
};

Pat genPattern(Src& s, const GenOpts& o);
// one character class expression: text and the set it denotes
struct ClassExpr {
  std::string text; CpSet set;
  std::vector<bool> bytes;          // raw bytes in it (\zHH); empty or 256
  bool err = false;                 // it, or a class inside it, is empty: to be rejected
};
ClassExpr genClass(Src& s, const GenOpts& o, unsigned depth);
// a single character, rendered (outside a class)
std::string renderChar(Src& s, uint32_t cp, bool escapes, bool inClass);
std::vector<uint32_t> genAlphabet(Src& s, int kind);         // 0 ascii letters, 1 bmp, 2 all planes, 3 latin1
Pat literalPat(const std::vector<uint32_t>& cps, bool fixed, bool ci, bool uni);

// a random member of the pattern's language, encoded (false if none could be made)
bool sampleMatch(Src& s, const Pat& p, const Enc& e, Bytes& out, unsigned loopMax = 3);
// text to search: noise over the alphabet mixed with (mutated) samples of the patterns
Bytes genText(Src& s, const std::vector<const Pat*>& ps, const Enc& e, const std::vector<uint32_t>& alpha, size_t maxLen);

// ---------------------------------------------------------------- matcher
struct Hit {
  uint64_t start, end; uint32_t kw;
  bool operator==(const Hit& o) const { return start == o.start && end == o.end && kw == o.kw; }
  bool operator<(const Hit& o) const { return std::tie(start, end, kw) < std::tie(o.start, o.end, o.kw); }
};
std::string hitsStr(const std::vector<Hit>& h, size_t max = 30);

class Matcher {
public:
  Matcher(const Pat& p, const Enc& e);
  // preferred match starting exactly at pos; end or -1
  long matchAt(const Bytes& t, size_t pos);
  // whether the whole of t is one of the strings denoted, preferred or not
  bool member(const Bytes& t);
  // leftmost, preferred, non-overlapping matches
  std::vector<Hit> all(const Bytes& t, uint32_t kw = 0, uint64_t base = 0);
  size_t progSize() const { return prog.size(); }
private:
  struct I { enum O { CHARS, BYTE, SPLIT, JMP, MATCH } o; int x = 0, y = 0; const Node* n = nullptr; };
  const Pat& p;
  const Enc& e;
  std::vector<I> prog;
  std::vector<uint64_t> seen;        // bit per (pc, pos)
  size_t stride = 0;
  bool whole = false;
  std::vector<std::pair<int, size_t>> stack;
  void emit(int node);
  int step(const I& i, const Bytes& t, size_t pos, size_t out[2]) const;
};

// ---------------------------------------------------------------- lightgrep, through its C API
struct PatSpec { std::string text; bool fixed, ci, uni; std::string enc; uint64_t user; };

struct LgError { std::string message, pattern, chain, source; int index; };

struct Lg {
  LG_HFSM fsm = nullptr;
  LG_HPROGRAM prog = nullptr;
  LG_HCONTEXT ctx = nullptr;
  std::string err;
  Lg() {}
  Lg(const Lg&) = delete;
  Lg(Lg&& o): fsm(o.fsm), prog(o.prog), ctx(o.ctx), err(o.err) { o.fsm = nullptr; o.prog = nullptr; o.ctx = nullptr; }
  ~Lg();
  // adds one pattern; index, or -1 (message in err)
  int add(const PatSpec& p);
  bool compile(uint32_t depth);
  bool context();
  bool build(const std::vector<PatSpec>& ps, uint32_t depth);   // all of the above
};

struct Collector { std::vector<Hit> hits; };
void collect(void* ud, const LG_SearchHit* const h);

// search text as one exactly-sized heap buffer / in the given pieces
std::vector<Hit> searchAll(LG_HCONTEXT ctx, const Bytes& t, uint64_t base = 0);
std::vector<Hit> searchChunks(LG_HCONTEXT ctx, const Bytes& t, const std::vector<size_t>& cuts, uint64_t base = 0, std::vector<uint64_t>* rets = nullptr);
std::vector<Hit> startsWith(LG_HCONTEXT ctx, const Bytes& t, uint64_t base = 0);
std::vector<std::vector<Hit>> byKeyword(const std::vector<Hit>& h, size_t n);

uint32_t genDepth(Src& s, uint64_t expanded, unsigned factor = 1);                // a determinisation depth that is affordable
}
