// An interpreter which carries out histories on request: one line in, lines
// ended by one with a dot out.
#pragma once
#include "cli.h"
#include <poll.h>
#include <sys/prctl.h>

namespace peer {
using namespace cli;
// where harness/ and build/ lie: this program is in build/bin/
inline std::string home() {
  char b[4096];
  const ssize_t n = readlink("/proc/self/exe", b, sizeof b);
  std::string p(b, n > 0 ? n : 0);
  for (int i = 0; i < 3; ++i) p.resize(p.rfind('/') == p.npos ? 0 : p.rfind('/'));
  return p;
}

// the interpreter working for this process
struct Server {
  std::function<std::vector<std::string>()> prepare;         // what to run
  explicit Server(std::function<std::vector<std::string>()> p): prepare(p) {}
  pid_t pid = -1, owner = -1;
  int to = -1, from = -1;
  Bytes pending;
  void start() {
    const std::vector<std::string> cmd = prepare();
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("no pipes");
    owner = getpid();
    pid = fork();
    if (pid < 0) throw std::runtime_error("fork failed");
    if (!pid) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(a[0], 0); dup2(b[1], 1);
      signal(SIGALRM, SIG_DFL);
      struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr); setitimer(ITIMER_VIRTUAL, &z, nullptr);
      struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
      const int e = open((scratch() + "/peer.err").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (e >= 0) dup2(e, 2);
      std::vector<char*> av;
      for (auto& x : cmd) av.push_back(const_cast<char*>(x.c_str()));
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]); close(b[1]);
    to = a[1]; from = b[0]; pending.clear();
    signal(SIGPIPE, SIG_IGN);
  }
  std::string stop(bool force) {
    close(to); close(from);
    if (force) kill(pid, SIGKILL);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    pid = -1;
    return WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("status ", WEXITSTATUS(st));
  }
  // false when the interpreter fell over
  bool ask(const std::string& line, std::vector<std::string>& reply, std::string& why) {
    if (pid < 0 || owner != getpid()) start();
    const std::string l = line + "\n";
    for (size_t p = 0; p < l.size();) {
      const ssize_t n = write(to, l.data() + p, l.size() - p);
      if (n < 0 && errno == EINTR) continue;
      if (n < 0) { why = "the interpreter ended: " + stop(false); return false; }
      p += n;
    }
    for (;;) {
      size_t nl;
      while ((nl = pending.find('\n')) != Bytes::npos) {
        const std::string x = pending.substr(0, nl);
        pending.erase(0, nl + 1);
        if (x == ".") return true;
        reply.push_back(x);
      }
      struct pollfd f = {from, POLLIN, 0};
      const int r = poll(&f, 1, 120000);
      if (r < 0 && errno == EINTR) continue;
      if (r == 0) { why = "no answer in two minutes: " + stop(true); return false; }
      char b[65536];
      const ssize_t n = read(from, b, sizeof b);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) { why = "the interpreter ended: " + stop(false) + " " + get(scratch() + "/peer.err").substr(0, 300); return false; }
      pending.append(b, n);
    }
  }
};
}
