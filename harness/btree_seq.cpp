// Drives the real sequential B+tree through generated histories and records
// every call with its result.   usage: btree_seq OUT SEED NTRACES NOPS MODE
//   MODE: bit 1 dictionary calls, bit 2 iteration, bit 4 bounds
#include "trace.h"
#include "btree_cfg.h"
#include <fstream>
#include <sstream>
using namespace vt;
using Map = C::Map;
static int MODE = 7;
enum { DICT = 1, ITER = 2, BOUND = 4 };

struct Drv {
  Recorder &r;
  Rng rnd;
  Map m;
  const Map &cm = m;
  int N, stamp = 0;
  std::vector<int> vals; // only to know which keys may legally be passed to erase(iterator)
  std::vector<char> live;
  Drv(Recorder &r_, uint64_t seed, int n) : r(r_), rnd(seed), N(n), live(n, 0) {}

  void E(const char *op, std::initializer_list<long> a) { r.ev(evj(op, a)); }
  void S(const char *dir, const std::vector<int> &k, const std::vector<int> &v) {
    r.ev(std::string("[\"scan\",\"") + dir + "\"," + js(k) + "," + js(v) + "]");
  }
  template <class It> std::pair<int, int> at(const It &it, bool isend) {
    if (isend) return {-1, -1};
    return {C::idx(it->first), C::num(it->second)};
  }

  void set(int k) { int v = ++stamp; m[C::key(k)] = C::val(v); live[k] = 1; E("set", {k, v}); }
  void sub(int k) { int v = C::num(m[C::key(k)]); live[k] = 1; E("sub", {k, v}); }
  void find(int k) {
    if (rnd.p(50)) { auto it = m.find(C::key(k)); auto p = at(it, it == m.end());
      E("find", {k, p.first < 0 ? -1 : p.first == k ? p.second : -9}); }
    else { auto it = cm.find(C::key(k)); auto p = at(it, it == cm.end());
      E("find", {k, p.first < 0 ? -1 : p.first == k ? p.second : -9}); }
  }
  void erase(int k) {
    if (live[k] && rnd.p(40)) {
      typename Map::iterator it = rnd.p(50) ? m.find(C::key(k)) : m.lower_bound(C::key(k));
      if (it == m.end()) { E("find", {k, -1}); return; }
      m.erase(it);
      E("erit", {k});
    } else { bool b = m.erase(C::key(k)); E("erase", {k, b}); }
    live[k] = 0;
  }
  void setit(int k) {
    if (!live[k]) return;
    auto it = m.find(C::key(k));
    if (it == m.end()) { E("find", {k, -1}); return; }
    int v = ++stamp;
    if (rnd.p(50)) it->second = C::val(v); else it.data() = C::val(v);
    E("setit", {k, v});
  }
  void size() { E("size", {(long)m.size(), m.empty()}); }
  template <class It> void scan_range(const char *dir, It b, It e, bool post) {
    std::vector<int> ks, vs;
    size_t guard = N + 5;
    while (b != e && guard--) {
      ks.push_back(C::idx(b->first));
      vs.push_back(C::num(b.data()));
      if (post) b++; else ++b;
    }
    S(dir, ks, vs);
  }
  void scan(int kind) {
    bool post = rnd.p(30);
    switch (kind % 6) {
    case 0: scan_range("f", m.begin(), m.end(), post); break;
    case 1: scan_range("f", cm.begin(), cm.end(), post); break;
    case 2: scan_range("f", m.cbegin(), m.cend(), post); break;
    case 3: scan_range("r", m.rbegin(), m.rend(), post); break;
    case 4: scan_range("r", cm.rbegin(), cm.rend(), post); break;
    case 5: scan_range("r", m.crbegin(), m.crend(), post); break;
    }
  }
  void edge() {
    if (rnd.p(50)) E("edge", {m.begin() == m.end(), m.rbegin() == m.rend()});
    else E("edge", {cm.begin() == cm.end(), cm.rbegin() == cm.rend()});
  }
  void lb(int p) {
    if (rnd.p(50)) C::probe(m, p, [&](auto &mm, const auto &k) { auto it = mm.lower_bound(k); auto q = at(it, it == mm.end()); E("lb", {p, q.first, q.second}); });
    else C::probe(cm, p, [&](auto &mm, const auto &k) { auto it = mm.lower_bound(k); auto q = at(it, it == mm.end()); E("lb", {p, q.first, q.second}); });
  }
  void ub(int p) {
    if (rnd.p(50)) C::probe(m, p, [&](auto &mm, const auto &k) { auto it = mm.upper_bound(k); auto q = at(it, it == mm.end()); E("ub", {p, q.first, q.second}); });
    else C::probe(cm, p, [&](auto &mm, const auto &k) { auto it = mm.upper_bound(k); auto q = at(it, it == mm.end()); E("ub", {p, q.first, q.second}); });
  }
  // A walk with ++ and -- in all their forms, comparing positions on the way.
  template <class It> void walk(const char *dir, It it, It b, It e, int steps, int bias = 55) {
    auto q = at(it, it == e);
    r.ev(std::string("[\"cur\",\"") + dir + "\"," + std::to_string(q.first) + "]");
    int pos = q.first;
    for (int s = 0; s < steps; s++) {
      bool atend = it == e, atbeg = it == b;
      bool fwd = atend ? false : atbeg ? true : rnd.p(bias);
      if (atend && atbeg) return;
      It old = it;
      if (fwd) {
        if (rnd.p(50)) { auto x = ++it; auto a = at(it, it == e), c = at(x, x == e); E("next", {a.first, a == c ? a.second : -9}); }
        else { auto x = it++; auto a = at(it, it == e); E("eq", {pos, C::idx(x->first), x == old}); E("next", {a.first, a.second}); }
      } else {
        if (rnd.p(50)) { auto x = --it; auto a = at(it, it == e), c = at(x, x == e); E("prev", {a.first, a == c ? a.second : -9}); }
        else { auto x = it--; auto a = at(it, it == e); if (pos >= 0) E("eq", {pos, C::idx(x->first), x == old}); E("prev", {a.first, a.second}); }
      }
      int np = at(it, it == e).first;
      E("eq", {pos, np, it == old});
      E("eq", {pos, np, !(it != old)});
      pos = np;
    }
  }
  void cursor() {
    int steps = 3 + rnd(14);
    int p = rnd(2 * N + 2);
    switch (rnd(8)) {
    case 0: walk("f", m.begin(), m.begin(), m.end(), steps); break;
    case 1: walk("f", cm.begin(), cm.begin(), cm.end(), steps); break;
    case 2: walk("r", m.rbegin(), m.rbegin(), m.rend(), steps); break;
    case 3: walk("r", cm.rbegin(), cm.rbegin(), cm.rend(), steps); break;
    case 4: { int k = rnd(N); auto it = m.lower_bound(C::key(k)); walk("f", it, m.begin(), m.end(), steps); break; }
    case 5: { int k = rnd(N); typename Map::const_iterator it = m.upper_bound(C::key(k)); walk("f", it, cm.begin(), cm.end(), steps); break; }
    case 6: { int k = rnd(N); auto f = m.find(C::key(k)); if (f == m.end()) break; typename Map::reverse_iterator it = f; walk("r", it, m.rbegin(), m.rend(), steps); break; }
    case 7: walk("f", m.end(), m.begin(), m.end(), steps); break;
    }
    (void)p;
  }
  // Steps in both directions from a bound, of a full or a partial key.
  void bcursor() {
    int p = rnd(2 * N), steps = 4 + rnd(40), up = rnd.p(50), bias = rnd.p(40) ? 4 : rnd.p(40) ? 96 : 55;
    if (rnd.p(50)) C::probe(m, p, [&](auto &mm, const auto &k) { auto it = up ? mm.upper_bound(k) : mm.lower_bound(k); walk("f", it, mm.begin(), mm.end(), steps, bias); });
    else C::probe(cm, p, [&](auto &mm, const auto &k) { auto it = up ? mm.upper_bound(k) : mm.lower_bound(k); walk("f", it, mm.begin(), mm.end(), steps, bias); });
  }
  void observe_all() {
    if (MODE & ITER) { for (int i = 0; i < 6; i++) scan(i); edge(); }
    if (MODE & DICT) { size(); for (int j = 0; j < std::min(N, 12); j++) find(rnd(N)); }
    if (MODE & BOUND) { int n = std::min(2 * N + 1, 24), st = rnd(2 * N + 1); for (int j = 0; j < n; j++) { int p = (st + j) % (2 * N + 1); lb(p < 2*N ? p : 2*N-1); ub(p < 2*N ? p : 2*N-1); } bcursor(); bcursor(); bcursor(); }
    if (MODE & ITER) { cursor(); cursor(); }
  }
  void query() {
    int c = rnd(100);
    if ((MODE & DICT) && c < 35) { if (c < 22) find(rnd(N)); else if (c < 27) size(); else if (c < 31) setit(rnd(N)); else sub(rnd(N)); }
    else if ((MODE & BOUND) && c < 70) { int p = rnd(2 * N); if (c >= 55) bcursor(); else if (c & 1) lb(p); else ub(p); }
    else if (MODE & ITER) { if (c < 78) scan(rnd(6)); else if (c < 82) edge(); else cursor(); }
  }
};

static int NOPS;
static void job(Recorder &r, uint64_t seed, int id) {
  r.begin(std::string(CFGNAME) + "#" + std::to_string(seed) + "." + std::to_string(id),
          "\"n\":" + std::to_string(C::N));
  {
    Drv d(r, seed * 1000003 + id, C::N);
    int N = C::N, ops = 0;
    Rng &g = d.rnd;
    int qpct = C::N > 200 ? 2 : 12;
    if (g.p(15)) d.observe_all(); // also on a map that never held anything
    // a universe restricted to part of the keys in some traces
    int lo = 0, hi = N;
    if (g.p(25)) { lo = g(N / 2); hi = lo + N / 3; }
    int W = hi - lo;
    while (ops < NOPS) {
      int ph = g(10), len = W / 4 + g(W + W / 2), k = lo;
      for (int s = 0; s < len && ops < NOPS; s++, ops++) {
        switch (ph) {
        case 0: k = lo + s % W; d.set(k); break;                       // ascending fill
        case 1: k = hi - 1 - s % W; d.set(k); break;                   // descending fill
        case 2: k = lo + g(W); if (g.p(90)) d.set(k); else d.sub(k); break;
        case 3: k = lo + s % W; d.erase(k); break;                     // ascending erase
        case 4: k = hi - 1 - s % W; d.erase(k); break;                 // descending erase
        case 5: k = lo + g(W); d.erase(k); break;
        case 6: k = lo + g(W); if (g.p(50)) d.set(k); else d.erase(k); break;  // churn
        case 7: d.set(lo + s % W); d.erase(lo + (s + W - W / 3) % W); break;   // sliding window
        case 8: { int w = 6, b = lo + (s / 24 * 5) % W; k = std::min(hi - 1, b + (int)g(w)); if (g.p(45)) d.set(k); else d.erase(k); break; } // local churn
        case 9: { int w = W / 3 + 1, b = lo + g(3) * (W / 3); k = std::min(hi - 1, b + s % w); d.erase(k); break; } // empty a region
        }
        if (g.p(qpct)) d.query();
        if (C::N < 200 ? g.p(1) : g(NOPS / 3 + 1) == 0) d.observe_all();
      }
      if (C::N < 200 ? g.p(40) : g.p(10)) d.observe_all();
    }
    // drain completely, looking at what is left now and then, then refill a little
    if (g.p(60)) {
      int st = g(N), dirn = g.p(50) ? 1 : N - 1;
      for (int j = 0; j < N; j++) { int k = (st + (long)j * dirn) % N; if (d.live[k]) d.erase(k); if (g(N) < 6) d.query(); }
      d.observe_all();
      for (int j = 0; j < 3; j++) d.set(g(N));
    }
    d.observe_all();
  }
  r.end();
}

// A behaviour of spec/BTree.tla: +k+1 inserts key k, -(k+1) erases it.
static std::vector<std::vector<int>> WALKS;
static void walk_job(Recorder &r, uint64_t seed, int id) {
  r.begin(std::string(CFGNAME) + "#walk" + std::to_string(id), "\"n\":" + std::to_string(C::N));
  {
    Drv d(r, seed * 1000003 + id, C::N);
    Rng &g = d.rnd;
    int N = C::N;
    for (int op : WALKS[id]) {
      int k = abs(op) - 1;
      if (op > 0) { if (g.p(85)) d.set(k); else d.sub(k); } else d.erase(k);
      if (MODE & DICT) { for (int j = 0; j < 3; j++) d.find(g(N)); d.find(k); d.size(); if (g.p(20)) d.setit(g(N)); }
      if (MODE & ITER) { d.scan(g(3)); d.scan(3 + g(3)); if (g.p(20)) d.edge(); if (g.p(15)) d.cursor(); }
      if (MODE & BOUND) { int all = g.p(15); for (int p = 0; p < 2 * N; p++) if (all || g.p(15)) { d.lb(p); d.ub(p); } if (g.p(25)) d.bcursor(); }
    }
    d.observe_all();
  }
  r.end();
}

int main(int argc, char **argv) {
  if (argc < 6) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10);
  int nt = atoi(argv[3]);
  NOPS = atoi(argv[4]);
  MODE = atoi(argv[5]);
  Recorder r(size_t(1) << 30);
  if (argc > 6) {
    std::ifstream f(argv[6]);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::vector<int> w;
      int x;
      while (is >> x) w.push_back(x);
      WALKS.push_back(w);
    }
    run_jobs(r, (int)WALKS.size(), 20, [&](int i) { walk_job(r, seed, i); });
  } else
    run_jobs(r, nt, 20, [&](int i) { job(r, seed, i); });
  dump(r, argv[1]);
  return 0;
}
