// Shape and memory of the real sequential B+tree, or with -DCONC of the
// concurrent one used by one thread.
// usage: btree_tree OUT SEED NTRACES NOPS [WALKFILE]
#include <cstdlib>
#include <cstddef>
#include <new>
// Only what the map allocates counts: g_in is set while a call of the map runs.
static size_t g_live = 0;      // bytes held by the map
static long g_chunks = 0;      // buffers of exactly g_size bytes held
static long g_total = 0;       // ... ever obtained
static size_t g_size = 0;
static bool g_in = false;
struct In { In() { g_in = true; } ~In() { g_in = false; } };
static void *xalloc(size_t n) {
  size_t *p = (size_t *)malloc(n + 16);
  if (!p) abort();
  p[0] = n;
  p[1] = g_in;
  if (g_in) {
    g_live += n;
    if (n == g_size) { g_chunks++; g_total++; }
  }
  return (char *)p + 16;
}
static void xfree(void *q) {
  if (!q) return;
  size_t *p = (size_t *)((char *)q - 16);
  if (p[1]) {
    g_live -= p[0];
    if (p[0] == g_size) g_chunks--;
  }
  free(p);
}
void *operator new(size_t n) { return xalloc(n); }
void *operator new[](size_t n) { return xalloc(n); }
void operator delete(void *p) noexcept { xfree(p); }
void operator delete[](void *p) noexcept { xfree(p); }
void operator delete(void *p, size_t) noexcept { xfree(p); }
void operator delete[](void *p, size_t) noexcept { xfree(p); }

#define BTREE_DUMP_ENABLED
#include <deque>
#include <iostream>
#include <sstream>
#include <fstream>
#include "trace.h"
#include "btree_cfg.h"
#include "tree_dump.h"
using namespace vt;
using Key = decltype(C::key(0));
#ifdef CONC
#include "indexes/btree/concurrent_map.h"
static constexpr int NODESIZE = C::NODESIZE + (C::NODESIZE < 1000 ? 80 : 0); // larger headers
struct CTraits : Tr<NODESIZE, C::MT, C::DBGSTAT> {};
using Map = bt::concurrent_map<Key, C::Val, CTraits>;
static void put(Map &m, int k, int v) { m.Upsert(C::key(k), C::val(v)); }
static void rem(Map &m, int k) { m.Delete(C::key(k)); }
static void settle(Map &m) { m.reclaim_all(); }
#define WHICH "c-" CFGNAME
#else
static constexpr int NODESIZE = C::NODESIZE;
using Map = C::Map;
static void put(Map &m, int k, int v) { m[C::key(k)] = C::val(v); }
static void rem(Map &m, int k) { m.erase(C::key(k)); }
static void settle(Map &) {}
#define WHICH CFGNAME
#endif

struct Drv {
  Recorder &r;
  Rng rnd;
  Map *m;
  int N;
  size_t base;
  bool chunky = false;
  std::vector<char> live;
  Drv(Recorder &r_, uint64_t seed, int n) : r(r_), rnd(seed), N(n), live(n, 0) {
    In in;
    base = g_live;
    g_chunks = 0;
    g_total = 0;
    m = new Map;
  }
  void set(int k) {
    { In in; put(*m, k, 1 + rnd(1000)); }
    if (first) { first = false; chunky = g_chunks == 1 && g_total == 1; }
    r.ev(evj("set", {k}));
    if (k < (int)live.size()) live[k] = 1;
  }
  bool first = true;
  void del(int k) {
    { In in; rem(*m, k); }
    r.ev(evj("del", {k}));
    if (k < (int)live.size()) live[k] = 0;
  }
  static bool parse(const std::string &s, std::string &out, long &nodes) {
    return parse_dump(s, out, nodes, [](const std::string &k) { return (long)C::idx((Key)atoll(k.c_str())); });
  }
  long nodes_now(std::string *lv = nullptr) {
    std::string out;
    long n = 0;
    {
      std::ostringstream os;
      m->dump(os);
      if (!parse(os.str(), out, n)) out = "[]";
    }
    if (lv) *lv = out;
    return n;
  }
  template <class M> static std::vector<int> stats(M &m) {
    if constexpr (C::DBGSTAT) {
      auto &s = m.stats();
      return {(int)s.num_leaf_splits, (int)s.num_inner_splits, (int)s.num_leaf_merges,
              (int)s.num_inner_merges, (int)s.num_leaf_trims, (int)s.num_inner_trims};
    }
    return {};
  }
  void tree() {
    if (first) return; // nothing was ever stored
    { In in; settle(*m); }
    long ch = chunky ? g_chunks : -1, tot = chunky ? g_total : -1;
    size_t held = g_live - base; // the map, its statistics, its nodes
    std::string lv;
    long n;
    n = nodes_now(&lv);
    long over = (long)held - n * NODESIZE;
    if (over < 0) over = 0;
    std::string s = "[\"tree\"," + std::to_string(m->height()) + "," + lv + "," + js(stats(*m)) + "," +
                    std::to_string(tot) + "," + std::to_string(ch) + "," + std::to_string(over) + "]";
    r.ev(s);
  }
  void end() {
    { In in; delete m; }
    r.ev(evj("end", {(long)g_live - (long)base}));
  }
};

static int NOPS;
static void job(Recorder &r, uint64_t seed, int id) {
  r.begin(std::string(WHICH) + "#tree" + std::to_string(seed) + "." + std::to_string(id), "\"n\":" + std::to_string(C::N));
  Drv d(r, seed * 1000003 + id, C::N);
  Rng &g = d.rnd;
  int N = C::N, ops = 0, every = C::N > 1000 ? 700 : C::N > 200 ? 40 : 3;
  while (ops < NOPS) {
    int ph = g(8), len = N / 3 + g(N);
    for (int s = 0; s < len && ops < NOPS; s++, ops++) {
      switch (ph) {
      case 0: d.set(s % N); break;
      case 1: d.set(N - 1 - s % N); break;
      case 2: d.set(g(N)); break;
      case 3: d.del(s % N); break;
      case 4: d.del(N - 1 - s % N); break;
      case 5: d.del(g(N)); break;
      case 6: if (g.p(50)) d.set(g(N)); else d.del(g(N)); break;
      case 7: d.set(s % N); d.del((s + N - N / 3) % N); break;
      }
      if (g(every) == 0) d.tree();
    }
    d.tree();
  }
  // fill, then drain to a handful: the nodes must go
  if (C::MERGES) {
    for (int k = 0; k < N; k++) if (!d.live[k]) d.set(k);
    d.tree();
    long full = d.nodes_now();
    int keep = g(3), dir = g(3);
    std::vector<int> ord(N);
    for (int i = 0; i < N; i++) ord[i] = dir == 1 ? N - 1 - i : i;
    if (dir == 2) std::shuffle(ord.begin(), ord.end(), g.g);
    for (int i = 0; i < N - keep; i++) { d.del(ord[i]); if (g(every * 4) == 0) d.tree(); }
    d.tree();
    r.ev(evj("drained", {full, d.nodes_now(), d.m->height()}));
    for (int i = 0; i < 3; i++) d.set(g(N));
    d.tree();
  }
  d.end();
  r.end();
}
// The same work over and over on ever new keys: node counts per round.
static void cycles_job(Recorder &r, uint64_t seed, int id) {
  if (!C::MERGES) return;
  r.begin(std::string(WHICH) + "#cycles" + std::to_string(seed) + "." + std::to_string(id), "\"n\":1");
  size_t base = g_live;
  {
    Map *mp;
    { In in; mp = new Map; }
    Map &m = *mp;
    Rng g(seed * 31 + id);
    int cap = NODESIZE / (int)(sizeof(Key) + sizeof(typename C::Val) + 4);
    bool big = cap > 100; // windows of several nodes
    int W = big ? cap * 2 + g(cap * 3) : 20 + g(60), rounds = big ? 80 : 200, kind = id % 6;
    std::vector<int> ns, ord(W);
    long lo = 0;
    auto add = [&](long k) { In in; put(m, (int)k, 1); };
    auto del = [&](long k) { In in; rem(m, (int)k); };
    auto nodes = [&] { std::ostringstream os; m.dump(os); std::string o; long n; Drv::parse(os.str(), o, n); return (int)n; };
    if (kind >= 3) for (int i = 0; i < W; i++) add(i);
    for (int q = 0; q < rounds; q++) {
      if (kind < 3) { // fill a window and empty it
        for (int i = 0; i < W; i++) add(lo + (kind == 1 ? W - 1 - i : i));
        for (int i = 0; i < W; i++) ord[i] = i;
        if (kind == 2) std::shuffle(ord.begin(), ord.end(), g.g);
        for (int i = 0; i < W; i++) del(lo + (kind == 1 ? ord[W - 1 - i] : ord[i]));
        if (g.p(70)) lo += W;
      } else if (kind == 3) { // a window sliding up
        for (int i = 0; i < W; i++) { add(lo + W + i); del(lo + i); }
        lo += W;
      } else if (kind == 4) { // a window sliding down
        for (int i = 0; i < W; i++) { add(lo - 1 - i); del(lo + W - 1 - i); }
        lo -= W;
      } else { // random replacement within a fixed range
        for (int i = 0; i < W; i++) { del(g(W)); add(g(W)); del(g(W)); }
      }
      ns.push_back(nodes());
    }
    r.ev("[\"cycles\"," + js(ns) + "]");
    In in;
    delete mp;
  }
  r.ev(evj("end", {(long)g_live - (long)base}));
  r.end();
}

// Insertions only: how many nodes hold how many keys.
static void fill_job(Recorder &r, uint64_t seed, int id) {
  r.begin(std::string(WHICH) + "#fill" + std::to_string(seed) + "." + std::to_string(id), "\"n\":1");
  size_t base = g_live;
  {
    Rng g(seed * 37 + id);
    Map *mp;
    { In in; mp = new Map; }
    Map &m = *mp;
    int kind = id % 5, cap = 0, big = NODESIZE > 1000, n = big ? 4000 + g(4000) : 200 + g(800);
    std::vector<int> ord(n);
    for (int i = 0; i < n; i++) ord[i] = kind == 1 ? n - 1 - i : i;
    if (kind == 2) std::shuffle(ord.begin(), ord.end(), g.g);
    if (kind == 3) for (int i = 0; i < n; i++) ord[i] = i % 2 ? n / 2 + i / 2 : n / 2 - 1 - i / 2; // outwards
    if (kind == 4) for (int i = 0; i < n; i++) ord[i] = i % 2 ? n - 1 - i / 2 : i / 2;           // inwards
    for (int i = 0; i < n; i++) {
      { In in; put(m, ord[i], 1); }
      if (!cap && m.height() > 0) cap = i;
      if (cap && (i == cap || i == n - 1 || g(n / 8) == 0)) {
        std::ostringstream os; m.dump(os); std::string o; long k; Drv::parse(os.str(), o, k);
        r.ev(evj("filled", {i + 1, cap, k, m.height()}));
      }
    }
    In in;
    delete mp;
  }
  r.ev(evj("end", {(long)g_live - (long)base}));
  r.end();
}

static std::vector<std::vector<int>> WALKS;
static void walk_job(Recorder &r, uint64_t seed, int id) {
  r.begin(std::string(WHICH) + "#treewalk" + std::to_string(id), "\"n\":" + std::to_string(C::N));
  Drv d(r, seed * 1000003 + id, C::N);
  for (int op : WALKS[id]) {
    int k = abs(op) - 1;
    if (op > 0) d.set(k); else d.del(k);
    d.tree();
  }
  d.end();
  r.end();
}
int main(int argc, char **argv) {
  g_size = NODESIZE;
  uint64_t seed = strtoull(argv[2], 0, 10);
  NOPS = atoi(argv[4]);
  Recorder r(size_t(1) << 30);
  if (argc > 5) {
    std::ifstream f(argv[5]);
    std::string line;
    while (std::getline(f, line)) { std::istringstream is(line); std::vector<int> w; int x; while (is >> x) w.push_back(x); WALKS.push_back(w); }
    run_jobs(r, (int)WALKS.size(), 20, [&](int i) { walk_job(r, seed, i); });
  } else {
    int n = atoi(argv[3]);
    int a = argc > 4 && NOPS == 0 ? 0 : n; // NOPS 0: cycles and fills only
    run_jobs(r, a + n / 2 + n / 3, 20, [&](int i) { if (i < a) job(r, seed, i); else if (i < a + n / 2) cycles_job(r, seed, i - a); else fill_job(r, seed, i - a - n / 2); });
  }
  dump(r, argv[1]);
}
