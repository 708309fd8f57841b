// Drives a dictionary (hash table, radix trees, concurrent B+tree), used by one
// thread, through generated histories and records every call with its result.
// D, the map under test, provides N, NAME, D(Rng&), ins, ups, upd, sea, del,
// size, empty, extra(Rng&) (calls without effect on the content) and
// observe(Recorder&, Rng&, all) (scans, where the map has any).
//   usage: prog OUT SEED NTRACES NOPS
#pragma once
#include "trace.h"
#include <memory>
namespace dict {
using namespace vt;

// A value that owns memory: dead, torn or foreign values do not go unnoticed.
struct Val {
  long *p;
  Val() : p(new long(0)) {}
  Val(long v) : p(new long(v)) {}
  Val(const Val &o) : p(new long(*o.p)) {}
  Val &operator=(const Val &o) { long *q = new long(*o.p); delete p; p = q; return *this; }
  ~Val() { delete p; p = (long *)0xDEAD000000000008; }
};
inline long num(const Val &v) { return *v.p; }
inline long num(long v) { return v; }
template <class O> long opt(const O &o) { return o ? num(*o) : -1; }

template <class D, class R> auto start(D &d, R &r, int) -> decltype(d.start(r)) { return d.start(r); }
template <class D, class R> void start(D &, R &, long) {}

template <class D> struct Drv {
  Recorder &r;
  Rng g;
  D d;
  int N, stamp = 0;
  std::vector<char> live;
  Drv(Recorder &rr, uint64_t seed) : r(rr), g(seed), d(g), N(d.N), live(N, 0) {}
  void E(const char *op, std::initializer_list<long> a) { r.ev(evj(op, a)); }
  // op: 0 insert or upsert, 1 delete, 2 update, 3 search, 4 insert, 5 upsert
  void put(int k) {
    int v = ++stamp;
    if (g.p(50)) { long x = d.ins(k, v); E("ins", {k, v, x}); }
    else { long x = d.ups(k, v); E("ups", {k, v, x}); }
  }
  void del(int k) { long x = d.del(k); E("del", {k, x}); }
  void upd(int k) { int v = ++stamp; long x = d.upd(k, v); E("upd", {k, v, x}); }
  void sea(int k) { long x = d.sea(k); E("sea", {k, x}); }
  void size() { long n = d.size(); E("size", {n, d.empty() < 0 ? (n == 0) : d.empty()}); }
  void query() {
    int c = g(100);
    if (c < 45) sea(g(N)); else if (c < 65) upd(g(N)); else if (c < 80) size();
    else if (c < 90) d.observe(r, g, false); else d.extra(g);
  }
  void all() {
    size();
    if (N <= 80) for (int k = 0; k < N; k++) sea(k);
    else for (int j = 0; j < 40; j++) sea(g(N));
    d.observe(r, g, true);
  }
  void run(int nops) {
    int ops = 0, lo = 0, W = N;
    int qpct = N > 300 ? 6 : 15;
    start(d, *this, 0); // a shape random histories hardly reach, if the map has any
    if (g.p(20)) all();
    if (g.p(25)) { W = std::max(1, N / 3); lo = g(N - W + 1); }
    while (ops < nops) {
      int ph = g(12), len = W / 4 + g(W + W / 2) + 1;
      int hot = lo + g(W);
      for (int s = 0; s < len && ops < nops; s++, ops++) {
        switch (ph) {
        case 0: case 10: put(lo + s % W); break;
        case 1: put(lo + W - 1 - s % W); break;
        case 2: put(lo + g(W)); break;
        case 3: del(lo + s % W); break;
        case 4: del(lo + W - 1 - s % W); break;
        case 5: del(lo + g(W)); break;
        case 6: if (g.p(50)) put(lo + g(W)); else del(lo + g(W)); break;
        case 7: put(lo + s % W); del(lo + (s + W - W / 3) % W); break;
        case 8: { int k = lo + (hot - lo + (int)g(6)) % W; if (g.p(50)) put(k); else del(k); break; }
        case 9: if (g.p(50)) put(hot); else del(hot); if (g.p(30)) sea(hot); break;
        case 11: { int k = lo + g(W); if (g.p(60)) upd(k); else put(k); break; }
        }
        if (g.p(qpct)) query();
      }
      if (g.p(N > 300 ? 15 : 40)) all();
    }
    if (g.p(50)) { // drain, then start again
      int st = g(N), dirn = g.p(50) ? 1 : N - 1;
      for (int j = 0; j < N; j++) { int k = (st + (long)j * dirn) % N; del(k); if (g(N) < 8) query(); }
      all();
      for (int j = 0; j < 4; j++) put(g(N));
    }
    all();
  }
};

template <class D> int main_(int argc, char **argv) {
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int nt = atoi(argv[3]), nops = atoi(argv[4]);
  Recorder r(size_t(1) << 30);
  run_jobs(r, nt, 30, [&](int i) {
    // the header needs the number of keys, which may depend on the seed
    int n;
    { Rng g(seed * 1000003 + i); n = D::keys(g); }
    r.begin(std::string(D::NAME) + "#" + std::to_string(seed) + "." + std::to_string(i), "\"n\":" + std::to_string(n));
    { Drv<D> d(r, seed * 1000003 + i); d.run(nops); }
    r.end();
  });
  dump(r, argv[1]);
  return 0;
}
} // namespace dict
