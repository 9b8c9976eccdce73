// Running the lightgrep executable in a scratch directory.
#pragma once
#include "common.h"
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cli {
inline void put(const std::string& path, const Bytes& b) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) throw std::runtime_error("cannot write " + path);
  if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) throw std::runtime_error("cannot write " + path);
  fclose(f);
}
// an output file may be there already, longer or shorter than what replaces it
inline void stale(Src& s, const std::string& path) {
  if (!s.chance(1, 3)) return;
  const size_t n = s.chance(1, 2) ? s.below(20) : 200 + s.below(4000);
  put(path, s.chance(1, 2) ? Bytes(n, '\0') : Bytes(n, 'x'));
}
inline bool exists(const std::string& path) { struct stat st; return stat(path.c_str(), &st) == 0; }
inline Bytes get(const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return Bytes();
  Bytes o; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f))) o.append(b, n);
  fclose(f);
  return o;
}

// a fresh directory for one case, removed afterwards
struct Dir {
  std::string path;
  Dir() { static unsigned n = 0; path = cat(pbt::scratch(), "/c", n++); mkdir(path.c_str(), 0755); }
  ~Dir() { const std::string c = "rm -rf -- '" + path + "'"; int rc = system(c.c_str()); (void) rc; }
  std::string operator/(const std::string& f) const { return path + "/" + f; }
};

struct Run { int status = 0; Bytes out, err; };
// status: exit status, or 256 + signal
inline Run run(const Dir& d, const std::vector<std::string>& args, const Bytes* in = nullptr) {
  static const std::string exe = pbt::argOpt("cli");
  if (exe.empty()) throw std::runtime_error("no --cli=path");
  if (in) put(d / ".in", *in);
  std::vector<char*> av{const_cast<char*>(exe.c_str())};
  for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  const std::string fi = in ? d / ".in" : "/dev/null", fo = d / ".out", fe = d / ".err";
  const pid_t p = fork();
  if (p < 0) throw std::runtime_error("fork failed");
  if (!p) {
    int i = open(fi.c_str(), O_RDONLY), o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (i < 0 || o < 0 || e < 0 || chdir(d.path.c_str())) _exit(126);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    for (int f = 3; f < 32; ++f) close(f);
    signal(SIGALRM, SIG_DFL);
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr); setitimer(ITIMER_VIRTUAL, &z, nullptr);
    struct rlimit r = {20, 20}; setrlimit(RLIMIT_CPU, &r);
    struct rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c);
    alarm(120);
    execv(exe.c_str(), av.data());
    _exit(127);
  }
  Run r;
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
  r.out = get(fo); r.err = get(fe);
  return r;
}
inline std::string show(const std::vector<std::string>& args) { std::string o; for (auto& a : args) o += " " + quote(a); return o; }

inline bool listable(const std::string& t) { return !t.empty() && t.find_first_of(std::string("\r\n\t\0", 4)) == std::string::npos; }
inline std::string keyLine(const PatSpec& p) { return cat(p.text, "\t", p.enc, "\t", int(p.fixed), "\t", int(p.ci), "\t", int(p.uni)); }

// drops patterns which cannot stand in a list
inline void listableOnly(PatSet& ps) {
  for (size_t i = ps.specs.size(); i-- > 0;)
    if (!listable(ps.specs[i].text)) { ps.specs.erase(ps.specs.begin() + i); ps.pats.erase(ps.pats.begin() + i); ps.encs.erase(ps.encs.begin() + i); }
}

inline std::string hitLine(LG_HPROGRAM prog, const Hit& h) {
  const LG_PatternInfo* i = lg_prog_pattern_info(prog, h.kw);
  return cat(h.start, "\t", h.end, "\t", i->UserIndex, "\t", i->Pattern, "\t", i->EncodingChain);
}

inline std::vector<std::string> lines(const Bytes& b) {
  std::vector<std::string> o;
  size_t p = 0;
  while (p < b.size()) { size_t e = b.find('\n', p); if (e == b.npos) e = b.size(); o.push_back(b.substr(p, e - p)); p = e + 1; }
  return o;
}
}
