// Shared generators for the property suites: sets of patterns with related
// structure, texts for them, chunkings.
#pragma once
#include "ref.h"
#include <algorithm>
#include <cstring>
using namespace pbt;
using namespace ref;

struct SetOpts {
  size_t minPats = 2, maxPats = 6;
  int kind = 0;                        // alphabet
  std::vector<const char*> encs = {"ASCII"};
  GenOpts g;
  unsigned maxTotal = 60;              // positions over all patterns
  bool dups = true;                    // repeated and closely related patterns
};

struct PatSet {
  std::vector<Pat> pats;
  std::vector<const Enc*> encs;
  std::vector<PatSpec> specs;
  std::vector<uint32_t> alpha;
  uint64_t total = 0;
  unsigned factor = 1;
  uint32_t depth = 0;
  void add(const Pat& p, const Enc& e, uint64_t user) {
    pats.push_back(p); encs.push_back(&e);
    specs.push_back({p.text, p.fixed, p.ci, p.uni, e.name, user});
    total += p.expanded();
    if (e.encode('a').size() > 1 || e.encode(0x100).size() > 1) factor = 2;
  }
  std::string str() const {
    std::string o;
    for (size_t i = 0; i < specs.size(); ++i)
      o += cat(i ? " " : "", "#", i, "=", quote(specs[i].text), "[", specs[i].enc, specs[i].fixed ? " fixed" : "", specs[i].ci ? " ci" : "", specs[i].uni ? " uni" : "", "]");
    return cat(o, " depth=", depth);
  }
};

inline PatSet genSet(Src& s, SetOpts so) {
  PatSet ps;
  ps.alpha = genAlphabet(s, so.kind);
  const size_t want = so.minPats + s.small(so.maxPats - so.minPats);
  for (size_t k = 0; k < want; ++k) {
    if (k && ps.total > so.maxTotal) break;
    const Enc& e = encByName(s.pick(so.encs));
    if (so.dups && !ps.pats.empty() && s.chance(1, 6)) {
      Pat q = s.pick(ps.pats);                               // the same again, perhaps in another encoding
      if (q.fits(e) == Pat::FITS) { ps.add(q, e, 100 + k); continue; }
    }
    GenOpts g = so.g;
    g.alpha = ps.alpha;
    if (so.dups && s.chance(1, 2) && g.alpha.size() > 2) g.alpha.resize(2);   // many shared prefixes
    g.maxExpanded = std::min<unsigned>(g.maxExpanded, so.maxTotal / 2);
    g.ci = s.chance(1, 6);
    const bool multi = e.encode(0x100).size() > 1;
    g.uni = s.chance(1, multi ? 4 : 2);
    if (multi && g.uni) { g.maxRanges = 25; g.maxExpanded = std::min(g.maxExpanded, 20u); }
    if (so.encs.size() > 1) g.maxRanges = 25;                // it might end up in UTF-8
    Pat p;
    if (s.chance(1, 4)) {
      std::vector<uint32_t> cps;
      size_t n = 1 + s.small(8);
      for (size_t i = 0; i < n; ++i) cps.push_back(s.pick(g.alpha));
      p = literalPat(cps, s.chance(1, 2), g.ci, g.uni);
    }
    else p = genPattern(s, g);
    if (p.fits(e) != Pat::FITS) {
      const Enc& a = encByName("UTF-8");
      if (p.fits(a) == Pat::FITS && std::find(so.encs.begin(), so.encs.end(), std::string("UTF-8")) != so.encs.end()) ps.add(p, a, 100 + k);
      continue;
    }
    ps.add(p, e, 100 + k);
  }
  if (ps.pats.empty()) ps.add(literalPat({'a', 'b'}, false, false, false), encByName("ASCII"), 1);
  ps.depth = genDepth(s, ps.total, ps.factor);
  return ps;
}

inline Bytes genSetText(Src& s, const PatSet& ps, size_t maxLen) {
  std::vector<const Enc*> es;
  for (auto e : ps.encs) if (std::find(es.begin(), es.end(), e) == es.end()) es.push_back(e);
  Bytes t;
  for (size_t k = 0; k < es.size(); ++k) {
    std::vector<const Pat*> v;
    for (size_t i = 0; i < ps.pats.size(); ++i) if (ps.encs[i] == es[k]) v.push_back(&ps.pats[i]);
    t += genText(s, v, *es[k], ps.alpha, maxLen / es.size());
  }
  return t;
}

inline std::vector<size_t> genCuts(Src& s, size_t len) {
  std::vector<size_t> c;
  switch (s.below(4)) {
  case 0: { size_t n = s.small(6); for (size_t i = 0; i < n; ++i) c.push_back(s.below(len + 1)); break; }
  case 1: for (size_t i = 1; i < len; ++i) c.push_back(i); break;                    // byte by byte
  case 2: { size_t w = 1 + s.small(15); for (size_t i = w; i < len; i += w) c.push_back(i); break; }
  case 3: { size_t n = s.small(20); for (size_t i = 0; i < n; ++i) c.push_back(s.below(len + 1)); c.push_back(0); c.push_back(len); break; }
  }
  std::sort(c.begin(), c.end());
  return c;
}

inline uint64_t genBase(Src& s) {
  switch (s.weighted({4, 1, 1, 1, 1})) {
  case 1: return 1 + s.below(5000);
  case 2: return 0xFFFFFFFFull - s.below(100);               // across 2^32
  case 3: return (1ull << 40) + s.below(1000000);
  case 4: return (1ull << 62) + s.below(1000000);
  default: return 0;
  }
}

inline std::vector<Hit> sorted(std::vector<Hit> h) { std::sort(h.begin(), h.end()); return h; }

// byte b is stored as oce()[b]
inline const unsigned char* oce() {
  // Outlook's "compressible encryption", as published in [MS-PST] 5.1
  static unsigned char f[256];
  static const unsigned char t[256] = {
65,54,19,98,168,33,110,187,244,22,204,4,127,100,232,93,30,242,203,42,116,197,94,53,210,149,71,158,150,45,154,136,
76,125,132,63,219,172,49,182,72,95,246,196,216,57,139,231,35,59,56,142,200,193,223,37,177,32,165,70,96,78,156,251,
170,211,86,81,69,124,85,0,7,201,43,157,133,155,9,160,143,173,179,15,99,171,137,75,215,167,21,90,113,102,66,191,
38,74,107,152,250,234,119,83,178,112,5,44,253,89,58,134,126,206,6,235,130,120,87,199,141,67,175,180,28,212,91,205,
226,233,39,79,195,8,114,128,207,176,239,245,40,109,190,48,77,52,146,213,14,60,34,50,229,228,249,159,194,209,10,129,
18,225,238,145,131,118,227,151,230,97,138,23,121,164,183,220,144,122,92,140,2,166,202,105,222,80,26,17,147,185,82,135,
88,252,237,29,55,73,27,106,224,41,51,153,189,108,217,148,243,64,84,111,240,198,115,184,214,62,101,24,68,31,221,103,
16,241,12,25,236,174,3,161,20,123,169,11,255,248,163,192,162,1,247,46,188,36,104,117,13,254,186,47,181,208,218,61};
  if (!f[0]) memcpy(f, t, 256);
  return f;
}
