#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix64(h ^ s.size());
}

uint64_t Src::rnd() { // xorshift128+
  uint64_t x = st[0], y = st[1];
  st[0] = y;
  x ^= x << 23;
  st[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
  return st[1] + y;
}

uint64_t Src::below(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v = 0;
  switch (mode) {
  case RANDOM: v = n == 1 ? 0 : rnd() % n; break;
  case REPLAY:
    if (pos < rep.size()) { v = rep[pos++]; if (v >= n) v = n - 1; }
    else overrun = true;
    break;
  case BYTES: {
    uint64_t m = n - 1;
    unsigned sh = 0;
    while (m) {
      if (pos < dlen) v |= (uint64_t) data[pos++] << sh;
      sh += 8; m >>= 8;
    }
    v %= n;
    break;
  }
  }
  rec.push_back(v);
  if (shared && rec.size() <= sharedCap) { shared[rec.size()] = v; shared[0] = rec.size(); }
  if (rec.size() > 2000000) throw Discard();
  return v;
}

size_t Src::weightedv(const std::vector<unsigned>& w) {
  uint64_t t = 0;
  for (unsigned x : w) t += x;
  uint64_t v = below(t);
  for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
  return 0;
}
size_t Src::weighted(std::initializer_list<unsigned> w) { return weightedv(std::vector<unsigned>(w)); }

uint64_t Src::small(uint64_t max) {
  if (!max) return 0;
  uint64_t m = max;
  switch (below(4)) {
  case 0: m = std::min<uint64_t>(max, 2); break;
  case 1: m = std::min<uint64_t>(max, 5); break;
  case 2: m = std::min<uint64_t>(max, 16); break;
  }
  return below(m + 1);
}

std::string quote(const std::string& b, size_t max) {
  std::string o = "\"";
  char t[8];
  for (size_t i = 0; i < b.size(); ++i) {
    if (i >= max) { o += "...(" + std::to_string(b.size()) + " bytes)"; break; }
    unsigned char c = b[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c >= 0x20 && c < 0x7F) o += c;
    else { snprintf(t, sizeof t, "\\x%02X", c); o += t; }
  }
  return o + "\"";
}
std::string hex(const std::string& b) {
  std::string o; char t[4];
  for (unsigned char c : b) { snprintf(t, sizeof t, "%02X", c); o += t; }
  return o;
}

static std::map<std::string, std::string> g_opts;
static std::string g_scratch_root;
std::string argOpt(const std::string& n) { auto i = g_opts.find(n); return i == g_opts.end() ? "" : i->second; }

static std::string g_scratch;
static pid_t g_scratch_pid = 0;
std::string scratch() {
  if (g_scratch_pid != getpid()) {
    g_scratch_pid = getpid();
    std::string base = g_scratch_root.empty() ? "/tmp" : g_scratch_root;
    g_scratch = base + "/w" + std::to_string(getpid());
    mkdir(g_scratch.c_str(), 0755);
  }
  return g_scratch;
}

} // namespace pbt
using namespace pbt;

namespace {

std::string jstr(const std::string& s) {
  std::string o = "\"";
  char t[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7F) { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
    else o += c;
  }
  return o + "\"";
}

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { enum K { PASS, DISCARD, FAIL } k = PASS; std::string msg; };

Outcome runCase(const Part& p, Src& s, Case& c) {
  Outcome o;
  try { p.fn(c); }
  catch (Discard&) { o.k = Outcome::DISCARD; }
  catch (Failure& f) { o.k = Outcome::FAIL; o.msg = f.msg; }
  catch (std::exception& e) { o.k = Outcome::FAIL; o.msg = std::string("unexpected exception: ") + e.what(); }
  return o;
}

// CPU-time budget of one case: independent of how busy the machine is
int g_caseCpu = 30;
void armCpu() {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = g_caseCpu;
  setitimer(ITIMER_PROF, &it, nullptr);
}
void onProf(int) {
  static const char m[] = "case exceeded its CPU budget\n";
  ssize_t r = write(2, m, sizeof m - 1); (void) r;
  _exit(97);
}

struct Shm {              // one per worker
  uint64_t part, idx;     // case being executed
  uint64_t state;         // 0 running, 1 done, 2 failed
  uint64_t msgLen;
  char msg[8192];
};

struct ChildRes { bool failed = false; bool discard = false; std::string msg; std::vector<uint64_t> rec; std::string notes; };

const size_t REC_CAP = 400000;
uint64_t* g_recShm = nullptr;   // [count, values...]
char* g_msgShm = nullptr;
const size_t MSG_CAP = 1 << 16;

std::string describeExit(int st) {
  if (WIFSIGNALED(st)) return cat("killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
  if (WEXITSTATUS(st) == 97) return "did not terminate (CPU budget exceeded)";
  return cat("exited with status ", WEXITSTATUS(st), " (sanitizer report or abort)");
}

std::string tail(const std::string& path, size_t n) {
  std::ifstream in(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p != std::string::npos) { p = s.rfind('\n', p); s = s.substr(p == std::string::npos ? 0 : p); }
  return s.substr(0, n);
}

std::string g_errlog;

// runs one case in a child process
ChildRes inChild(const Part& p, const std::function<void(Src*&)>& mk, bool verbose, const std::function<void()>& prelude = nullptr) {
  g_recShm[0] = 0; g_msgShm[0] = 0;
  std::string errf = g_errlog + ".child";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    signal(SIGPROF, onProf);
    if (prelude) prelude();
    armCpu();
    Src* s = nullptr;
    mk(s);
    s->shared = g_recShm; s->sharedCap = REC_CAP;
    Case c(*s);
    c.verbose = verbose;
    c.sink = [](const std::string& x) { strncat(g_msgShm, x.c_str(), MSG_CAP - 1 - strlen(g_msgShm)); };
    Outcome o = runCase(p, *s, c);
    std::string m = o.msg;
    if (verbose) { m += "\n"; for (auto& n : c.notes) m += n.first + ": " + n.second + "\n"; }
    snprintf(g_msgShm, MSG_CAP, "%s", m.c_str());
    _exit(o.k == Outcome::FAIL ? 10 : o.k == Outcome::DISCARD ? 11 : 0);
  }
  // wall-clock net far above the CPU budget: only for a child that sleeps for ever
  double t0 = now();
  int st = 0;
  bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > 240) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
    double e = now() - t0;
    usleep(e < 0.01 ? 200 : e < 0.2 ? 2000 : 20000);
  }
  ChildRes r;
  r.rec.assign(g_recShm + 1, g_recShm + 1 + std::min<uint64_t>(g_recShm[0], REC_CAP));
  r.msg = g_msgShm;
  if (killed) { r.failed = true; r.msg = "did not terminate (wall-clock net)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) r.discard = true;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) r.failed = true;
  else { r.failed = true; r.msg = describeExit(st) + "\n" + r.msg + tail(errf, 3000); }
  unlink(errf.c_str());
  std::string sc = g_scratch_root + "/w" + std::to_string(pid);
  if (!g_scratch_root.empty()) { std::string cmd = "rm -rf -- '" + sc + "'"; int rc = system(cmd.c_str()); (void) rc; }
  return r;
}

ChildRes replayChoices(const Part& p, const std::vector<uint64_t>& v, bool verbose) {
  return inChild(p, [&](Src*& s) { s = new Src(v); }, verbose);
}

bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<uint64_t> shrink(const Part& p, std::vector<uint64_t> best, double budget) {
  const double end = now() + budget;
  unsigned tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& v) {
    if (now() > end || tries > 6000) return false;
    ++tries;
    ChildRes r = replayChoices(p, v, false);
    if (r.failed && simpler(r.rec, best)) { best = r.rec; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len : {256, 64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
      for (size_t i = 0; i + len <= best.size() && now() < end; ) {
        std::vector<uint64_t> v(best);
        v.erase(v.begin() + i, v.begin() + i + len);
        if (attempt(v)) { progress = true; continue; }
        // deletion plus decrement of the preceding value (a length)
        bool ok = false;
        for (size_t back = 1; back <= 4 && back <= i && !ok && len <= 16; ++back) {
          if (v[i - back] == 0) continue;
          std::vector<uint64_t> w(v);
          --w[i - back];
          ok = attempt(w);
        }
        if (ok) { progress = true; continue; }
        i += len > 8 ? len / 2 : 1;
      }
    }
    for (size_t len : {32, 8, 4, 2}) {
      for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
        std::vector<uint64_t> v(best);
        if (std::all_of(v.begin() + i, v.begin() + i + len, [](uint64_t x) { return x == 0; })) continue;
        std::fill(v.begin() + i, v.begin() + i + len, 0);
        progress |= attempt(v);
      }
    }
    for (size_t i = 0; i < best.size() && now() < end; ++i) {
      if (!best[i]) continue;
      std::vector<uint64_t> v(best);
      v[i] = 0;
      if (attempt(v)) { progress = true; continue; }
      uint64_t lo = 0;                       // known to pass
      while (i < best.size() && best[i] > lo + 1 && now() < end) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        v = best; v[i] = mid;
        if (attempt(v)) progress = true; else lo = mid;
      }
    }
  }
  return best;
}

void writeReplay(const std::string& path, const Suite& su, const Part& p, const std::vector<uint64_t>& v, const std::string& text) {
  std::ofstream o(path);
  o << "suite " << su.id << "\npart " << p.name << "\nchoices " << v.size();
  for (uint64_t x : v) o << ' ' << x;
  o << "\n";
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l)) o << "# " << l << "\n";
}

uint64_t caseSeed(uint64_t seed, const std::string& part, uint64_t idx) {
  return mix64(mix64(seed * 0x9E37 + 77) ^ hashStr(part) ^ mix64(idx + 0xABCDEF));
}

struct Stats {
  uint64_t evals = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

} // namespace

int driver(int argc, char** argv) {
  Suite su = suite();
  uint64_t seed = 1;
  std::string tier = "quick", evid, replay, outdir = ".", only;
  unsigned jobs = 8;
  double scale = 1.0, maxWall = 420, shrinkBudget = 60;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    size_t e = a.find('=');
    std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
    if (k.size() > 2) g_opts[k.substr(2)] = v;
    if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier") tier = v;
    else if (k == "--evidence") evid = v;
    else if (k == "--replay") replay = v;
    else if (k == "--outdir") outdir = v;
    else if (k == "--jobs") jobs = atoi(v.c_str());
    else if (k == "--scale") scale = atof(v.c_str());
    else if (k == "--only") only = v;
    else if (k == "--max-wall") maxWall = atof(v.c_str());
    else if (k == "--shrink") shrinkBudget = atof(v.c_str());
    else if (k == "--cpu") g_caseCpu = atoi(v.c_str());
    else if (k == "--scratch") g_scratch_root = v;
  }
  { std::string cmd = "mkdir -p -- '" + outdir + "'"; int rc = system(cmd.c_str()); (void) rc; }
  g_errlog = outdir + "/." + su.id + "-" + std::to_string(getpid());
  g_recShm = (uint64_t*) mmap(0, (REC_CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_msgShm = (char*) mmap(0, MSG_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (su.init) su.init();

  if (!replay.empty()) {
    std::ifstream in(replay);
    if (!in) { std::cout << "cannot read " << replay << std::endl; return 2; }
    std::string line, part;
    std::vector<uint64_t> v;
    std::string seqArgs;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string w;
      is >> w;
      if (w == "part") is >> part;
      else if (w == "choices") { size_t n; is >> n; v.resize(n); for (auto& x : v) is >> x; }
      else if (w == "sequence") std::getline(is, seqArgs);
    }
    for (auto& p : su.parts) if (part == p.name) {
      if (!seqArgs.empty()) {
        std::istringstream is(seqArgs);
        uint64_t sd, first, step, last;
        is >> sd >> first >> step >> last;
        ChildRes r = inChild(p, [&](Src*& s) { s = new Src(caseSeed(sd, p.name, last)); }, true, [&]() {
          for (uint64_t i = first; i < last; i += step) { Src s(caseSeed(sd, p.name, i)); Case c(s); runCase(p, s, c); }
        });
        std::cout << (r.failed ? "FAIL " : "PASS ") << r.msg << std::endl;
        return r.failed ? 1 : 0;
      }
      ChildRes r = replayChoices(p, v, true);
      std::cout << (r.failed ? "FAIL " : r.discard ? "DISCARD " : "PASS ") << r.msg << std::endl;
      return r.failed ? 1 : 0;
    }
    std::cout << "no such part: " << part << std::endl;
    return 2;
  }

  // --bytes=FILE: a libFuzzer input, turned into a choice replay
  if (g_opts.count("bytes")) {
    std::ifstream in(g_opts["bytes"], std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    const uint8_t* b = (const uint8_t*) d.data();
    size_t pi = d.empty() ? 0 : b[0] % su.parts.size();
    const Part& p = su.parts[pi];
    ChildRes r = inChild(p, [&](Src*& s) { s = d.empty() ? new Src(b, 0) : new Src(b + 1, d.size() - 1); }, true);
    if (!r.failed) { std::cout << "PASS" << std::endl; return 0; }
    std::vector<uint64_t> best = shrink(p, r.rec, shrinkBudget);
    ChildRes f = replayChoices(p, best, true);
    std::string rp = outdir + "/" + su.id + "-fuzz.replay";
    writeReplay(rp, su, p, best, f.msg);
    std::cout << "FAIL " << rp << "\n" << f.msg << std::endl;
    return 1;
  }

  double t0 = now();
  Shm* shm = (Shm*) mmap(0, sizeof(Shm) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile uint64_t* stopFlag = (uint64_t*) mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto count = [&](const Part& p) -> uint64_t {
    uint64_t n = tier == "thorough" ? p.thorough : p.quick;
    return (uint64_t) (n * scale + 0.5);
  };
  std::vector<pid_t> pids(jobs, 0);
  std::vector<std::string> files(jobs);
  fflush(nullptr);
  for (unsigned w = 0; w < jobs; ++w) {
    files[w] = g_errlog + ".w" + std::to_string(w);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open((files[w] + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
      signal(SIGPROF, onProf);
      std::vector<Stats> st(su.parts.size());
      std::vector<std::unordered_set<uint64_t>> keys(su.parts.size());
      bool stop = false;
      // parts are interleaved in slices, so that a wall-clock cut hits all alike
      const unsigned SLICES = 20;
      for (unsigned sl = 0; sl < SLICES && !stop; ++sl)
      for (size_t pi = 0; pi < su.parts.size() && !stop; ++pi) {
        const Part& p = su.parts[pi];
        if (!only.empty() && only != p.name) continue;
        const uint64_t n = count(p), lo = n * sl / SLICES, hi = n * (sl + 1) / SLICES;
        uint64_t i0 = lo + (w + jobs - lo % jobs) % jobs;
        for (uint64_t i = i0; i < hi; i += jobs) {
          if (*stopFlag || now() - t0 > maxWall) { stop = true; break; }
          shm[w].part = pi; shm[w].idx = i;
          armCpu();
          Src s(caseSeed(seed, p.name, i));
          Case c(s);
          c.labels = &st[pi].labels;
          const bool wantSample = st[pi].samples.size() < 3 && i >= n / 7;
          c.verbose = wantSample;
          static const bool timing = getenv("PBT_TIMING");
          clock_t c0 = timing ? clock() : 0;
          Outcome o = runCase(p, s, c);
          if (timing) {
            double dt = double(clock() - c0) / CLOCKS_PER_SEC;
            if (dt > 0.1) c.label("cpu > 0.1s");
            if (dt > 1) { c.label("cpu > 1s"); fprintf(stderr, "slow %s %llu %.1fs\n", p.name, (unsigned long long) i, dt); }
          }
          ++st[pi].evals;
          if (o.k == Outcome::DISCARD) ++st[pi].discards;
          else if (o.k == Outcome::FAIL) {
            shm[w].state = 2;
            snprintf(shm[w].msg, sizeof shm[w].msg, "%s", o.msg.c_str());
            *stopFlag = 1;
            stop = true;
            break;
          }
          else if (c.nontrivial) {
            ++st[pi].nontrivial;
            keys[pi].insert(c.key ? c.key : mix64(i));
            if (wantSample && st[pi].samples.size() < 3) {
              std::string d;
              for (auto& nt : c.notes) d += (d.empty() ? "" : "; ") + nt.first + "=" + nt.second.substr(0, 300);
              st[pi].samples.push_back(d);
            }
          }
        }
      }
      struct itimerval it; memset(&it, 0, sizeof it);
      setitimer(ITIMER_PROF, &it, nullptr);
      FILE* f = fopen(files[w].c_str(), "wb");
      if (f) {
        for (size_t pi = 0; pi < su.parts.size(); ++pi) {
          fprintf(f, "P %zu %llu %llu %llu\n", pi, (unsigned long long) st[pi].evals, (unsigned long long) st[pi].discards, (unsigned long long) st[pi].nontrivial);
          for (auto& l : st[pi].labels) fprintf(f, "L %llu %s\n", (unsigned long long) l.second, l.first.c_str());
          for (auto& sm : st[pi].samples) { std::string t = sm; std::replace(t.begin(), t.end(), '\n', ' '); fprintf(f, "S %s\n", t.c_str()); }
          for (uint64_t k : keys[pi]) fprintf(f, "K %llx\n", (unsigned long long) k);
        }
        fclose(f);
      }
      if (shm[w].state == 0) shm[w].state = 1;
      fflush(nullptr);
      _exit(0);
    }
    pids[w] = pid;
  }

  struct Fail { uint64_t part, idx; unsigned w; std::string msg; };
  std::vector<Fail> fails;
  unsigned live = jobs;
  std::vector<bool> dead(jobs, false);
  std::vector<uint64_t> lastIdx(jobs, ~0ull);
  std::vector<double> lastMove(jobs, now());
  while (live) {
    int st;
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r > 0) {
      for (unsigned w = 0; w < jobs; ++w) if (pids[w] == r) {
        dead[w] = true; --live;
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok) {
          std::string m = describeExit(st) + "\n" + tail(files[w] + ".err", 3000);
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            std::cerr << "note: worker killed (out of memory?) at case " << shm[w].idx << "\n";
          }
          fails.push_back({shm[w].part, shm[w].idx, w, m});
          *stopFlag = 1;
        }
        else if (shm[w].state == 2) fails.push_back({shm[w].part, shm[w].idx, w, shm[w].msg});
      }
      continue;
    }
    // a worker blocked without using CPU (deadlock): very generous wall-clock net
    for (unsigned w = 0; w < jobs; ++w) if (!dead[w]) {
      uint64_t id = shm[w].idx * 64 + shm[w].part;
      if (id != lastIdx[w]) { lastIdx[w] = id; lastMove[w] = now(); }
      else if (now() - lastMove[w] > 240) kill(pids[w], SIGKILL);
    }
    usleep(5000);
  }

  int rc = 0;
  std::string violation, vmsg, unrep;
  std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.idx < b.idx; });
  for (auto& f : fails) {
    const Part& p = su.parts[f.part];
    ChildRes r = inChild(p, [&](Src*& s) { s = new Src(caseSeed(seed, p.name, f.idx)); }, false);
    std::string rp = outdir + "/" + su.id + "-" + p.name + "-s" + std::to_string(seed) + "-" + std::to_string(f.idx) + ".replay";
    if (r.failed) {
      std::vector<uint64_t> best = r.rec.size() < REC_CAP ? shrink(p, r.rec, shrinkBudget) : r.rec;
      unsigned again = 0;
      ChildRes q;
      for (int k = 0; k < 3; ++k) { ChildRes x = replayChoices(p, best, true); if (x.failed) { ++again; q = x; } }
      if (again == 3) {
        writeReplay(rp, su, p, best, cat("seed ", seed, " case ", f.idx, "\n", q.msg));
        violation = rp; vmsg = q.msg; rc = 1;
        break;
      }
      unrep += cat("flaky: part ", p.name, " case ", f.idx, " (", again, "/3): ", f.msg, "\n");
      continue;
    }
    // not reproducible alone: replay the worker's history up to it
    unsigned again = 0;
    ChildRes q;
    uint64_t first = f.w;
    for (int k = 0; k < 3; ++k) {
      ChildRes x = inChild(p, [&](Src*& s) { s = new Src(caseSeed(seed, p.name, f.idx)); }, true, [&]() {
        for (uint64_t i = first; i < f.idx; i += jobs) { Src s(caseSeed(seed, p.name, i)); Case c(s); runCase(p, s, c); }
      });
      if (x.failed) { ++again; q = x; } else break;
    }
    if (again == 3) {
      std::ofstream o(rp);
      o << "suite " << su.id << "\npart " << p.name << "\nsequence " << seed << ' ' << first << ' ' << jobs << ' ' << f.idx << "\n";
      std::istringstream is(q.msg); std::string l;
      while (std::getline(is, l)) o << "# " << l << "\n";
      violation = rp; vmsg = q.msg; rc = 1;
      break;
    }
    unrep += cat("not reproducible: part ", p.name, " case ", f.idx, ": ", f.msg, "\n");
  }

  // collect statistics
  std::vector<Stats> tot(su.parts.size());
  std::vector<std::unordered_set<uint64_t>> keys(su.parts.size());
  for (unsigned w = 0; w < jobs; ++w) {
    std::ifstream in(files[w]);
    std::string line;
    size_t pi = 0;
    while (std::getline(in, line)) {
      if (line.size() < 2) continue;
      std::istringstream is(line.substr(2));
      if (line[0] == 'P') { uint64_t a, b, c; is >> pi >> a >> b >> c; tot[pi].evals += a; tot[pi].discards += b; tot[pi].nontrivial += c; }
      else if (line[0] == 'L') { uint64_t n; is >> n; std::string l; std::getline(is, l); tot[pi].labels[l.substr(1)] += n; }
      else if (line[0] == 'S') tot[pi].samples.push_back(line.substr(2));
      else if (line[0] == 'K') keys[pi].insert(strtoull(line.c_str() + 2, 0, 16));
    }
    unlink(files[w].c_str());
    if (!getenv("PBT_TIMING")) unlink((files[w] + ".err").c_str());
  }
  uint64_t evals = 0, distinct = 0;
  std::ostringstream ev;
  ev << "{\"parts\":{";
  std::ostringstream sm;
  bool firstP = true, firstS = true;
  for (size_t pi = 0; pi < su.parts.size(); ++pi) {
    if (!tot[pi].evals) continue;
    evals += tot[pi].evals - tot[pi].discards;
    distinct += keys[pi].size();
    ev << (firstP ? "" : ",") << jstr(su.parts[pi].name) << ":{\"cases\":" << tot[pi].evals << ",\"discarded\":" << tot[pi].discards
       << ",\"nontrivial\":" << tot[pi].nontrivial << ",\"distinct_nontrivial\":" << keys[pi].size() << ",\"labels\":{";
    firstP = false;
    bool fl = true;
    for (auto& l : tot[pi].labels) { ev << (fl ? "" : ",") << jstr(l.first) << ":" << l.second; fl = false; }
    ev << "}}";
    for (size_t k = 0; k < tot[pi].samples.size() && k < 3; ++k) {
      sm << (firstS ? "" : ",") << jstr(std::string(su.parts[pi].name) + ": " + tot[pi].samples[k]);
      firstS = false;
    }
  }
  ev << "},\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct << ",\"rule\":" << jstr(su.rule)
     << ",\"samples\":[" << sm.str() << "],\"unreproduced\":" << jstr(unrep) << ",\"violation\":" << jstr(violation)
     << ",\"message\":" << jstr(vmsg) << ",\"wall_s\":" << (now() - t0) << "}";
  if (!evid.empty()) { std::ofstream o(evid); o << ev.str() << "\n"; }
  else std::cout << ev.str() << std::endl;
  if (!unrep.empty()) std::cerr << unrep;
  if (rc) {
    std::cout << vmsg << std::endl;
    std::cout << "VIOLATION property=" << su.id << " replay=" << violation << std::endl;
  }
  return rc;
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  static Suite su = suite();
  if (su.init) su.init();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static Suite su = suite();
  if (n < 2) return 0;
  const Part& p = su.parts[d[0] % su.parts.size()];
  Src s(d + 1, n - 1);
  Case c(s);
  Outcome o = runCase(p, s, c);
  if (o.k == Outcome::FAIL) { fprintf(stderr, "PROPERTY FAILURE in %s: %s\n", p.name, o.msg.c_str()); __builtin_trap(); }
  return 0;
}
#else
int main(int argc, char** argv) { return driver(argc, argv); }
#endif
