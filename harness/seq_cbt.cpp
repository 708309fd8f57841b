// The concurrent B+tree used by one thread (C11).  BCFG: key and value types,
// node size and merge threshold.
#include "dict_seq.h"
#include "btree_cfg.h"
#include <functional>
#include <memory>
#include <optional>
#include "indexes/btree/concurrent_map.h"
#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef BCFG
#define BCFG 0
#endif
using namespace dict;

struct OwnVals {
  using Val = dict::Val;
  static Val val(int v) { return Val(v); }
  static int num(const Val &v) { return (int)*v.p; }
};
template <class K, class V, int NS, int MT, bool DBG, int NK> struct CCfg : K, V {
  static constexpr int N = NK;
  using T = Tr<NS, MT, DBG>;
  struct Traits : T { static constexpr bool STAT = true; };
  using Map = bt::concurrent_map<typename K::Key, typename V::Val, Traits>;
};
#if BCFG == 0
using CC = CCfg<IntKeys, IntVals, 256, 50, true, 64>;
#elif BCFG == 1
using CC = CCfg<IntKeys, IntVals, 208, 100, true, 40>;
#elif BCFG == 2
using CC = CCfg<LongKeys, OwnVals, 320, 20, false, 64>;
#elif BCFG == 3
using CC = CCfg<StrKeys, StrVals, 768, 60, true, 40>;
#elif BCFG == 4
using CC = CCfg<CompKeys, IntVals, 256, 80, true, 64>;
#elif BCFG == 5
using CC = CCfg<CompStrKeys, FatVals, 1024, 40, true, 64>;
#elif BCFG == 6
using CC = CCfg<LongKeys, IntVals, 256, 30, true, 500>;
#elif BCFG == 7
using CC = CCfg<IntKeys, IntVals, 8192, 20, true, 2500>;
#endif

struct B {
  static constexpr const char *NAME = "cbt" STR(BCFG);
  using M = CC::Map;
  std::unique_ptr<M> m = std::make_unique<M>();
  int N;
  static int keys(Rng &g) { return g.p(25) ? CC::N / 4 : CC::N; }
  B(Rng &g) : N(keys(g)) {}
  template <class O> static long opt(const O &o) { return o ? CC::num(*o) : -1; }
  long ins(int k, int v) { return m->Insert(CC::key(k), CC::val(v)); }
  long ups(int k, int v) { return opt(m->Upsert(CC::key(k), CC::val(v))); }
  long upd(int k, int v) { return opt(m->Update(CC::key(k), CC::val(v))); }
  long sea(int k) { return opt(m->Search(CC::key(k))); }
  long del(int k) { return opt(m->Delete(CC::key(k))); }
  long size() { return m->size(); }
  long empty() { return m->empty(); }
  void extra(Rng &g) {
    switch (g(3)) {
    case 0: m->reserve(g(100)); break;
    case 1: m->reclaim_all(); break;
    case 2: m = std::make_unique<M>(std::move(*m)); break;
    }
  }
  template <class It> static void at(Recorder &r, const char *op, long a, const It &it, const It &e) {
    if (it == e) r.ev(evj(op, {a, -1, -1}));
    else r.ev(evj(op, {a, CC::idx(it->first), CC::num(it->second)}));
  }
  template <class It> void walk(Recorder &r, const char *dir, It it, const It &e, Rng &g, int steps) {
    if (it == e) return;
    r.ev(std::string("[\"cur\",\"") + dir + "\"," + js(CC::idx(it.key())) + "]");
    while (steps-- > 0 && it != e) {
      bool post = g.p(30);
      const char *op = g.p(60) ? "next" : "pv";
      if (op[0] == 'n') { if (post) it++; else ++it; } else { if (post) it--; else --it; }
      bool end = it == e;
      r.ev(evj(op, {end ? -1 : CC::idx((*it).first), end ? -1 : CC::num(it.data())}));
    }
  }
  template <class It> void scan(Recorder &r, const char *dir, It b, const It &e, bool post) {
    std::vector<int> ks, vs;
    for (int guard = N + 5; b != e && guard--;) {
      ks.push_back(CC::idx(b->first));
      vs.push_back(CC::num(b.data()));
      if (post) b++; else ++b;
    }
    r.ev(std::string("[\"scan\",\"") + dir + "\"," + js(ks) + "," + js(vs) + "]");
  }
  template <class It> void ranged(Recorder &r, const char *dir, int lo, int li, int hi, int hii, It it) {
    std::vector<int> ks, vs;
    int guard = N + 5;
    while (it && guard--) { ks.push_back(CC::idx(it->first)); vs.push_back(CC::num(it.data())); if (!++it) break; }
    if (it) ks.push_back(-5);
    r.ev(std::string("[\"rng\",\"") + dir + "\"," + js(lo) + "," + js(li) + "," + js(hi) + "," + js(hii) + "," + js(ks) + "," + js(vs) + "]");
  }
  template <bt::range_kind L, bt::range_kind R> void range4(Recorder &r, bool fwd, int lo, int hi) {
    CC::probe(*m, lo, [&](M &mm, auto &&a) {
      return CC::probe(mm, hi, [&](M &mm, auto &&b) {
        int li = L == bt::INCLUSIVE, ri = R == bt::INCLUSIVE;
        if (fwd) ranged(r, "f", lo, li, hi, ri, mm.template range_iter<L, R>(a, b));
        else ranged(r, "r", lo, li, hi, ri, mm.template rrange_iter<L, R>(a, b));
        return 0;
      });
    });
  }
  void range(Recorder &r, Rng &g, int lo, int hi) {
    bool fwd = g.p(50);
    switch (g(4)) {
    case 0: range4<bt::INCLUSIVE, bt::INCLUSIVE>(r, fwd, lo, hi); break;
    case 1: range4<bt::INCLUSIVE, bt::EXCLUSIVE>(r, fwd, lo, hi); break;
    case 2: range4<bt::EXCLUSIVE, bt::INCLUSIVE>(r, fwd, lo, hi); break;
    case 3: range4<bt::EXCLUSIVE, bt::EXCLUSIVE>(r, fwd, lo, hi); break;
    }
  }
  // bounds given as temporaries, gone by the time the range is walked
  void range_tmp(Recorder &r, Rng &g, int a, int b) {
    auto it = m->template range_iter<bt::INCLUSIVE, bt::EXCLUSIVE>(CC::key(a), CC::key(b));
    auto rt = m->template rrange_iter<bt::EXCLUSIVE, bt::INCLUSIVE>(CC::key(a), CC::key(b));
    (void)g;
    ranged(r, "f", 2 * a + 1, 1, 2 * b + 1, 0, std::move(it));
    ranged(r, "r", 2 * a + 1, 0, 2 * b + 1, 1, rt);
  }
  void probe(Recorder &r, Rng &g, int p) {
    const M &cm = *m;
    CC::probe(*m, p, [&](M &mm, auto &&k) { auto it = mm.lower_bound(k); at(r, "lb", p, it, mm.end()); if (g.p(30)) walk(r, "f", it, mm.end(), g, 1 + g(8)); return 0; });
    CC::probe(*m, p, [&](M &, auto &&k) { auto it = cm.upper_bound(k); at(r, "ub", p, it, cm.cend()); if (g.p(20)) walk(r, "f", it, cm.cend(), g, 1 + g(8)); return 0; });
    if (p & 1) return;
    CC::probe(*m, p, [&](M &mm, auto &&k) { if (mm.Search(k)) r.ev("[\"foreign\"]"); return 0; });
  }
  void observe(Recorder &r, Rng &g, bool all) {
    if (!all) {
      switch (g(5)) {
      case 0: probe(r, g, g(2 * N + 1)); break;
      case 1: { int a = g(2 * N + 1), w = g.p(50) ? g(12) : g(2 * N); range(r, g, a, std::min(2 * N, a + w)); break; }
      case 2: { int a = g(N), b = g.p(80) ? a + g(N - a) : g(N); range_tmp(r, g, a, b); break; }
      case 3: if (m->rbegin() != m->rend()) walk(r, "r", m->rbegin(), m->rend(), g, 3 + g(20)); break;
      case 4: walk(r, "f", m->cbegin(), m->cend(), g, 3 + g(20)); break;
      }
      return;
    }
    scan(r, "f", m->begin(), m->end(), g.p(20));
    scan(r, "r", m->rbegin(), m->rend(), g.p(20));
    if (N <= 80) for (int p = g(3); p <= 2 * N; p += 1 + g(4)) probe(r, g, p);
    for (int j = 0; j < 8; j++) range(r, g, g(2 * N + 1), g(2 * N + 1));
    r.ev(evj("edge", {m->begin() == m->end(), m->rbegin() == m->rend()}));
  }
};
int main(int argc, char **argv) { return main_<B>(argc, argv); }
