// The radix trees used by one thread: art::map (C07), art::concurrent_map (C16, -DCONC).
#include "dict_seq.h"
#include "art_keys.h"
#include <fstream>
#include <optional>
#include <sstream>
#ifndef ACFG
#define ACFG 0
#endif
#ifdef CONC
#include "indexes/art/concurrent_map.h"
#else
#include "indexes/art/map.h"
#endif
using namespace dict;
#if ACFG == 1
using V = Val;
#else
using V = long;
#endif
struct Dbg : indexes::art::art_traits_default {};
#define STR2(x) #x
#define STR(x) STR2(x)
// keys of a behaviour of spec/Radix.tla: those that come and go, and the others
static std::vector<uint64_t> FIXED;
static std::vector<uint64_t> universe(Rng &g) { return FIXED.empty() ? artk::universe(g) : FIXED; }
struct R {
#ifdef CONC
  using M = indexes::art::concurrent_map<V>;
  static constexpr const char *NAME = "cart" STR(ACFG);
#else
  using M = indexes::art::map<V>;
  static constexpr const char *NAME = "art" STR(ACFG);
#endif
  std::vector<uint64_t> u;
  int N;
  std::unique_ptr<M> m = std::make_unique<M>();
  static int keys(Rng &g) { return universe(g).size(); }
  R(Rng &g) : u(universe(g)), N(u.size()) {}
  long ins(int k, int v) { return m->Insert(u[k], V(v)); }
  long ups(int k, int v) { return opt(m->Upsert(u[k], V(v))); }
  long upd(int k, int v) { return opt(m->Update(u[k], V(v))); }
  long sea(int k) { return opt(m->Search(u[k])); }
  long del(int k) { return opt(m->Delete(u[k])); }
  long size() { return m->size(); }
  long empty() { return -1; }
  void extra(Rng &g) {
    if (g.p(30)) m = std::make_unique<M>(std::move(*m));
#ifdef CONC
    else if (g.p(50)) m->reclaim_all();
    else m->reserve(g(10));
#endif
  }
  // keys that were never inserted must not be found
  void observe(Recorder &r, Rng &g, bool) {
    for (int j = 0; j < 3; j++) {
      uint64_t k = u[g(N)] ^ ((1 + g(255)) << (8 * g(8)));
      if (std::find(u.begin(), u.end(), k) == u.end()) {
        long x = opt(g.p(50) ? m->Search(k) : g.p(50) ? m->Delete(k) : m->Update(k, V(1)));
        if (x != -1) r.ev(evj("foreign", {x}));
      }
    }
  }
};

// A walk through the state graph of Radix: +k inserts the k-th key, -k deletes it.
struct Behaviours { std::vector<uint64_t> keys; int moving; std::vector<std::vector<int>> walks; };
static void walk_job(Recorder &r, const Behaviours &b, const std::vector<int> &w, const std::string &id, uint64_t seed) {
  r.begin(std::string(R::NAME) + "#" + id, "\"n\":" + std::to_string(b.keys.size()));
  {
    Drv<R> d(r, seed);
    for (size_t k = b.moving; k < b.keys.size(); k++) d.put(k);
    for (int op : w) {
      int k = abs(op) - 1;
      if (op > 0) d.put(k); else d.del(k);
      d.sea(k);
      for (int j = 0; j < 2; j++) d.sea(d.g(d.N));
      int q = d.g(100);
      if (q < 8) { if (op > 0) d.put(k); else d.del(k); } // once more: changes nothing
      if (q >= 8 && q < 30) d.upd(d.g(d.N));
      if (q >= 30 && q < 45) d.size();
      if (q >= 45 && q < 48) d.d.extra(d.g);
      if (q >= 48 && q < 55) d.d.observe(r, d.g, false);
      if (q >= 55 && q < 60) d.all();
    }
    d.all();
  }
  r.end();
}
static int walks(char **argv) {
  std::vector<Behaviours> all;
  std::ifstream f(argv[5]);
  std::string line;
  std::vector<std::pair<int, int>> jobs;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    if (line[0] == 'K') {
      char c; uint64_t x; int n, m;
      is >> c >> n >> m;
      all.push_back({{}, m, {}});
      for (int j = 0; j < n; j++) { is >> x; all.back().keys.push_back(x); }
    } else {
      int x; std::vector<int> w;
      while (is >> x) w.push_back(x);
      jobs.push_back({(int)all.size() - 1, (int)all.back().walks.size()});
      all.back().walks.push_back(w);
    }
  }
  Recorder r(size_t(1) << 30);
  run_jobs(r, jobs.size(), 30, [&](int i) {
    auto &b = all[jobs[i].first];
    FIXED = b.keys;
    walk_job(r, b, b.walks[jobs[i].second], "walk" + std::to_string(i), strtoull(argv[2], nullptr, 10) * 1000003 + i);
  });
  dump(r, argv[1]);
  return 0;
}
int main(int argc, char **argv) { return argc > 5 ? walks(argv) : main_<R>(argc, argv); }
