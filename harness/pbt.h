// A small choice-sequence property-based testing library (in the style of
// Hypothesis): every random decision a generator takes is one number drawn
// from a Src; the sequence of numbers *is* the test case.  Failures are shrunk
// by shortening and lowering that sequence, and the shrunk sequence is the
// replay file.  The same properties can be driven by libFuzzer, which then
// supplies the numbers from its byte string.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure { std::string msg; };

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hashStr(const std::string& s);

class Src {
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  explicit Src(uint64_t seed): mode(RANDOM) { st[0] = mix64(seed); st[1] = mix64(seed + 0x1234567); if (!(st[0] | st[1])) st[0] = 1; }
  explicit Src(const std::vector<uint64_t>& v): mode(REPLAY), rep(v) {}
  Src(const uint8_t* d, size_t n): mode(BYTES), data(d), dlen(n) {}

  // uniform in [0,n); 0 is the "simplest" value
  uint64_t below(uint64_t n);
  // inclusive range, lo is simplest
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t)(hi - lo) + 1); }
  // true with probability num/den; false is simplest
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // index according to weights; earlier entries are simpler
  size_t weighted(std::initializer_list<unsigned> w);
  size_t weightedv(const std::vector<unsigned>& w);
  template <class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // small numbers much more likely than big ones, in [0,max]
  uint64_t small(uint64_t max);

  std::vector<uint64_t> rec;        // what was drawn
  uint64_t* shared = nullptr;       // optional crash-proof copy: [count, values...]
  size_t sharedCap = 0;
  bool overrun = false;
private:
  Mode mode;
  uint64_t st[2] = {1, 2};
  std::vector<uint64_t> rep;
  size_t pos = 0;
  const uint8_t* data = nullptr;
  size_t dlen = 0;
  uint64_t rnd();
};

struct Case {
  Src& s;
  bool verbose = false;             // render() notes wanted
  bool nontrivial = false;
  uint64_t key = 0;                 // identity of the case
  std::map<std::string, uint64_t>* labels = nullptr;
  std::vector<std::pair<std::string, std::string>> notes;

  explicit Case(Src& src): s(src) {}
  void label(const char* l, uint64_t n = 1) { if (labels) (*labels)[l] += n; }
  void (*sink)(const std::string&) = nullptr;   // sees notes at once, for cases that crash
  template <class F> void note(const char* k, F&& f) {
    if (!verbose) return;
    notes.emplace_back(k, f());
    if (sink) sink(std::string(k) + ": " + notes.back().second + "\n");
  }
  void ident(const std::string& str) { key = mix64(key ^ hashStr(str)); }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void check(bool ok, const std::string& m) { if (!ok) fail(m); }
  template <class F> void checkf(bool ok, F&& f) { if (!ok) fail(f()); }
  void require(bool ok) { if (!ok) throw Discard(); }
};

struct Part {
  const char* name;
  std::function<void(Case&)> fn;
  uint64_t quick;      // cases, quick tier
  uint64_t thorough;   // cases, thorough tier
};

struct Suite {
  std::string id;
  std::string rule;
  std::vector<Part> parts;
  std::function<void()> init;       // once per process
};


// helpers
std::string quote(const std::string& bytes, size_t max = 400);   // printable rendering
std::string hex(const std::string& bytes);
template <class... A> std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
// scratch directory of this process (created on demand, removed by the driver)
std::string scratch();
std::string argOpt(const std::string& name);   // value of a --name=value option

}

// defined by every property file
pbt::Suite suite();
