// Contexts: histories of calls on several contexts of one program.  The model
// of a context is the text it has been fed since it was fresh.
#include "common.h"
#include <thread>

namespace {
struct Model {
  LG_HCONTEXT ctx = nullptr;
  bool fresh = true;           // new, reset, or just after starts_with
  bool closed = false;         // closed out, must be reset before further use
  Bytes text; uint64_t base = 0; Collector got;
};
struct World {
  std::vector<Model> m;
  ~World() { for (auto& x : m) if (x.ctx) lg_destroy_context(x.ctx); }
};
}

static void history(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  c.note("patterns", [&] { return ps.str(); });
  const size_t n = ps.pats.size();
  // the reference program stays apart from the one under test
  Lg r, g;
  c.checkf(r.build(ps.specs, ps.depth), [&] { return "valid pattern set was rejected: " + r.err; });
  for (auto& p : ps.specs) c.checkf(g.add(p) >= 0, [&] { return g.err; });
  c.checkf(g.compile(ps.depth), [&] { return g.err; });
  if (s.chance(1, 2)) { lg_destroy_fsm(g.fsm); g.fsm = nullptr; }       // "the FSM may be discarded"
  LG_ContextOptions co{0, 0};
  std::string log;
  auto oracle = [&](const Bytes& t, uint64_t base) {
    LG_HCONTEXT x = lg_create_context(r.prog, &co);
    std::vector<Hit> h = searchAll(x, t, base);
    lg_destroy_context(x);
    return h;
  };
  World w;
  const size_t k = 1 + s.below(4);
  w.m.resize(k);
  for (auto& x : w.m) x.ctx = lg_create_context(g.prog, &co);
  size_t compared = 0, interleaved = 0, last = k, searches = 0;
  std::vector<bool> touched(k, false);
  const size_t ops = 3 + s.small(25);
  for (size_t o = 0; o < ops; ++o) {
    const size_t i = s.below(k);
    Model& x = w.m[i];
    size_t op = s.weighted({8, 4, 2, 3, 1});
    if (op == 0 && x.closed) op = 2;
    switch (op) {
    case 0: { // search another buffer
      Bytes t = s.chance(1, 8) ? Bytes() : genSetText(s, ps, len);
      if (x.fresh && x.text.empty()) x.base = genBase(s);
      std::unique_ptr<char[]> b(new char[t.size()]);
      if (!t.empty()) memcpy(b.get(), t.data(), t.size());
      lg_search(x.ctx, b.get(), b.get() + t.size(), x.base + x.text.size(), &x.got, collect);
      if (!t.empty()) memset(b.get(), 'a', t.size());          // the buffer is ours again
      x.text += t; x.fresh = false; ++searches;
      if (last != i && last != k && !w.m[last].fresh) ++interleaved;
      log += cat("search ", i, " ", quote(t), "; ");
      break;
    }
    case 1: { // end of this text
      if (x.closed) break;
      lg_closeout_search(x.ctx, &x.got, collect);
      log += cat("closeout ", i, "; ");
      x.closed = true; x.fresh = false;
      std::vector<Hit> want = oracle(x.text, x.base);
      std::vector<std::vector<Hit>> a = byKeyword(want, n), b = byKeyword(x.got.hits, n);
      c.checkf(a == b, [&] { return cat(ps.str(), " context ", i, " on ", quote(x.text), " base ", x.base, ": expected ", hitsStr(want), " got ", hitsStr(x.got.hits), " after ", log); });
      if (!want.empty()) ++compared;
      break;
    }
    case 2: // reset, also in the middle of a text
      lg_reset_context(x.ctx);
      log += cat("reset ", i, "; ");
      x.fresh = true; x.closed = false; x.text.clear(); x.got.hits.clear();
      break;
    case 3: { // starts_with leaves a fresh context fresh
      if (!x.fresh) { lg_reset_context(x.ctx); x.fresh = true; x.closed = false; x.text.clear(); x.got.hits.clear(); log += cat("reset ", i, "; "); }
      Bytes t = genSetText(s, ps, 20);
      uint64_t base = genBase(s);
      log += cat("starts_with ", i, " ", quote(t), "; ");
      LG_HCONTEXT y = lg_create_context(r.prog, &co);
      std::vector<Hit> want = startsWith(y, t, base), got = startsWith(x.ctx, t, base);
      lg_destroy_context(y);
      c.checkf(sorted(want) == sorted(got), [&] { return cat(ps.str(), " context ", i, " starts_with ", quote(t), ": expected ", hitsStr(want), " got ", hitsStr(got), " after ", log); });
      break;
    }
    case 4: // replace the context
      lg_destroy_context(x.ctx);
      x = Model();
      x.ctx = lg_create_context(g.prog, &co);
      log += cat("new ", i, "; ");
      break;
    }
    last = i;
  }
  c.note("history", [&] { return log; });
  c.ident(log); for (auto& q : ps.specs) c.ident(q.text);
  if (compared && (interleaved || k == 1) && searches > 1) c.nontrivial = true;
  if (interleaved) c.label("interleaved");
  if (compared > 1) c.label("several texts completed with hits");
}

static void threads(Case& c, SetOpts so, size_t len) {
  Src& s = c.s;
  PatSet ps = genSet(s, so);
  c.note("patterns", [&] { return ps.str(); });
  const size_t n = ps.pats.size(), T = 2 + s.below(4);
  Lg g, r;
  c.checkf(r.build(ps.specs, ps.depth), [&] { return "rejected: " + r.err; });
  c.checkf(g.build(ps.specs, ps.depth), [&] { return "rejected: " + g.err; });
  std::vector<std::vector<Bytes>> texts(T);
  std::vector<std::vector<std::vector<size_t>>> cuts(T);
  std::vector<std::vector<std::vector<Hit>>> got(T);
  bool any = false;
  for (size_t i = 0; i < T; ++i) for (size_t k = 0; k < 3; ++k) {
    texts[i].push_back(genSetText(s, ps, len));
    cuts[i].push_back(genCuts(s, texts[i].back().size()));
    c.ident(texts[i].back());
  }
  c.note("texts", [&] { std::string o; for (auto& v : texts) for (auto& t : v) o += quote(t) + " "; return o; });
  std::vector<std::thread> th;
  for (size_t i = 0; i < T; ++i) th.emplace_back([&, i] {
    LG_ContextOptions co{0, 0};
    LG_HCONTEXT x = lg_create_context(g.prog, &co);          // also created concurrently
    for (size_t k = 0; k < texts[i].size(); ++k) {
      got[i].push_back(searchChunks(x, texts[i][k], cuts[i][k]));
      lg_reset_context(x);
    }
    if (lg_prog_pattern_count(g.prog) != n || std::string(lg_prog_pattern_info(g.prog, 0)->Pattern) != ps.specs[0].text) got[i].clear();
    lg_destroy_context(x);
  });
  for (auto& t : th) t.join();
  for (size_t i = 0; i < T; ++i) {
    c.checkf(got[i].size() == texts[i].size(), [&] { return "pattern information changed"; });
    for (size_t k = 0; k < texts[i].size(); ++k) {
      std::vector<std::vector<Hit>> a = byKeyword(searchAll(r.ctx, texts[i][k]), n), b = byKeyword(got[i][k], n);
      lg_reset_context(r.ctx);
      c.checkf(a == b, [&] { return cat(ps.str(), " thread ", i, " on ", quote(texts[i][k]), ": ", hitsStr(got[i][k])); });
      for (auto& v : a) any |= !v.empty();
    }
  }
  if (any) c.nontrivial = true;
}

Suite suite() {
  Suite s;
  s.id = "C06";
  s.rule = "Stateful: random histories of search / closeout / reset / starts_with / destroy+create over 1-4 contexts of one program (its FSM discarded or kept, buffers overwritten after each call), compared with a model that searches each completed text in a brand new context of a separately built program; and 2-5 threads searching with a context each (built with ThreadSanitizer in one configuration). Non-trivial: some completed text has hits and the contexts were interleaved (or there is one context and several buffers); for threads, some text has hits.";
  auto base = [] { SetOpts so; so.minPats = 1; so.maxPats = 5; so.maxTotal = 40; return so; };
  s.parts = {
    {"history", [=](Case& c) { SetOpts so = base(); history(c, so, 40); }, 60000, 1000000},
    {"history-mixed", [=](Case& c) { SetOpts so = base(); so.kind = 2; so.encs = {"UTF-8", "UTF-16LE", "ASCII"}; so.maxTotal = 25; history(c, so, 60); }, 20000, 300000},
    {"threads", [=](Case& c) { SetOpts so = base(); threads(c, so, 200); }, 10000, 100000},
  };
  return s;
}
