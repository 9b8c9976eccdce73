// ad-hoc tool: lgx DEPTH TEXT PATTERN...   (ASCII, case-sensitive)
#include "ref.h"
#include <chrono>
#include <iostream>
using namespace ref;
pbt::Suite suite() {
  pbt::Suite s; s.id = "lgx";
  s.init = [] {
    std::vector<PatSpec> ps;
    std::string a = pbt::argOpt("pat"), enc = pbt::argOpt("enc"), t = pbt::argOpt("text");
    if (enc.empty()) enc = "ASCII";
    size_t p;
    while ((p = a.find("@@")) != std::string::npos) { ps.push_back({a.substr(0, p), false, false, false, enc, 0}); a = a.substr(p + 2); }
    ps.push_back({a, false, pbt::argOpt("ci") == "1", pbt::argOpt("uni") == "1", enc, 0});
    uint32_t d = pbt::argOpt("depth").empty() ? 0xFFFFFFFF : strtoul(pbt::argOpt("depth").c_str(), 0, 10);
    auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
    double t0 = now();
    Lg g;
    bool ok = g.build(ps, d);
    double t1 = now();
    std::cout << "build " << ok << " " << g.err << " " << t1 - t0 << "s prog " << (g.prog ? lg_program_size(g.prog) : 0) << std::endl;
    if (!ok) exit(1);
    std::cout << "search " << hitsStr(searchAll(g.ctx, t)) << std::endl;
    std::cout << now() - t1 << "s" << std::endl;
    std::cout << "starts " << hitsStr(startsWith(g.ctx, t)) << std::endl;
    exit(0);
  };
  return s;
}
