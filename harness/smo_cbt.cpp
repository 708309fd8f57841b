// Finds scenarios in which pairs of operations restructure the concurrent
// B+tree: seeded initial contents are built, every operation is tried on its
// own, and classed by what it splits, trims and merges (as the statistics tell).
// For each pair of classes scenarios are drawn that make such operations meet.
// usage: prog OUT SEED PERPAIR TRIES STRATEGY [OPS3]
#include "trace.h"
#include <algorithm>
#include <array>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include "indexes/btree/concurrent_map.h"
#ifndef NSIZE
#define NSIZE 208
#endif
#ifndef MERGE
#define MERGE 50
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef GAP
#define GAP 0
#endif
#ifndef NK
#define NK 8
#endif
#include "val.h"
namespace bt = indexes::btree;
struct Traits : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NSIZE;
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
  static constexpr bool STAT = true;
};
#include "cbt_keys.h"
using M = bt::concurrent_map<int, Val, Traits>;
using Sig = std::array<long, 7>;
static Sig sig(M &m) {
  auto &s = m.stats();
  return {(long)s.num_leaf_splits, (long)s.num_inner_splits, (long)s.num_leaf_trims, (long)s.num_inner_trims,
          (long)s.num_leaf_merges, (long)s.num_inner_merges, (long)m.height()};
}
struct O { char c; int k; };
static void apply(M &m, const O &o) {
  if (o.c == 'i') m.Insert(key(o.k), mk(1));
  else if (o.c == 'u') m.Upsert(key(o.k), mk(2));
  else m.Delete(key(o.k));
}
static std::string str(const std::vector<O> &v) {
  std::string s;
  for (auto &o : v) s += (s.empty() ? "" : " ") + std::string(1, o.c) + std::to_string(o.k);
  return s;
}
static void build(M &m, const std::vector<O> &setup) {
  for (int j = 0; j < FILL; j++) m.Insert(filler(j), mk(1));
  for (auto &o : setup) apply(m, o);
}
int main(int argc, char **argv) {
  vt::Rng g(strtoull(argv[2], nullptr, 10));
  int per = atoi(argv[3]), tries = atoi(argv[4]);
  std::string strat = argv[5];
  std::map<std::pair<Sig, Sig>, std::vector<std::string>> found;
  std::map<std::pair<Sig, Sig>, long> n;
  for (int t = 0; t < tries; t++) {
    std::vector<O> setup;
    int len = g(4) ? 2 + g(10) : 6 + g(30);
    bool in[NK] = {};
    for (int i = 0; i < len; i++) {
      int k = g(NK);
      bool del = in[k] ? g.p(60) : false;
      if (in[k] && !del) { if (g.p(80)) continue; setup.push_back({'u', k}); continue; }
      setup.push_back({del ? 'd' : g.p(50) ? 'i' : 'u', k});
      in[k] = !del;
    }
    // what each operation does on its own
    std::vector<std::pair<O, Sig>> ops;
    for (int k = 0; k < NK; k++) {
      O o{in[k] ? 'd' : g.p(60) ? 'i' : 'u', k};
      M m;
      build(m, setup);
      Sig a = sig(m);
      apply(m, o);
      Sig b = sig(m);
      for (int i = 0; i < 7; i++) b[i] = std::min(b[i] - a[i], 1L);
      ops.push_back({o, b});
    }
    for (auto &x : ops)
      for (auto &y : ops) {
        if (x.first.k == y.first.k || y.second < x.second) continue;
        auto key = std::make_pair(x.second, y.second);
        long seen = ++n[key];
        auto &v = found[key];
        std::string l = str(setup) + " | " + str({x.first}) + " | " + str({y.first});
        if ((int)v.size() < per) v.push_back(l);           // a sample of all there are
        else if (g(seen) < per) v[g(per)] = l;
      }
  }
  std::ofstream f(argv[1]);
  int id = 0;
  for (auto &e : found) {
    std::string cl;
    for (auto *s : {&e.first.first, &e.first.second}) {
      cl += cl.empty() ? "" : "-";
      static const char *w[] = {"ls", "is", "lt", "it", "lm", "im", "h"};
      std::string c;
      for (int i = 0; i < 7; i++) if ((*s)[i]) c += w[i];
      cl += c.empty() ? "0" : c;
    }
    std::set<std::string> uniq(e.second.begin(), e.second.end());
    for (auto &l : uniq) f << "smo" << id++ << "." << cl << " | " << strat << " | " << l << "\n";
  }
  printf("classes %zu\n", found.size());
}
