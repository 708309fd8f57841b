// Memory held by the concurrent maps (C13) and art::map: histories that keep a bounded number
// of keys but never stop changing which.  At every checkpoint retired memory is
// reclaimed and the bytes the map holds are recorded.
// With -DFRESH (C22) also what a new map needs for the same content.
// With -DUNASKED nobody asks for reclamation: the map reclaims by itself.
//   MCFG: 0-3 B+tree, 4-6 radix tree, 7-10 hash table, 11-13 sequential radix tree
#include "trace.h"
#include <cstddef>
#include <deque>
#include <malloc.h>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <unordered_map>

static long g_bytes;
static bool g_on;
struct alignas(16) Hd { size_t n; size_t counted; };
static void *take(size_t n) {
  Hd *h = (Hd *)malloc(n + sizeof(Hd));
  if (!h) throw std::bad_alloc();
  h->n = n; h->counted = g_on;
  if (g_on) g_bytes += n;
  return h + 1;
}
static void give(void *p) {
  if (!p) return;
  Hd *h = (Hd *)p - 1;
  if (h->counted) g_bytes -= h->n;
  free(h);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

#ifndef MCFG
#define MCFG 0
#endif
#if MCFG < 4
#include "indexes/btree/concurrent_map.h"
#elif MCFG < 7
#include "indexes/art/concurrent_map.h"
#elif MCFG > 10
#include "indexes/art/map.h"
#else
#include "indexes/hashtable/concurrent_map.h"
#endif
using namespace vt;
#if MCFG == 1 || MCFG == 5 || MCFG == 8 || MCFG == 12
using V = std::string;
static V val(long v) { return "a value that lives on the heap, number " + std::to_string(v); }
#else
using V = long;
static V val(long v) { return v; }
#endif
#if MCFG < 4
template <int NS, int MT> struct T : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = NS;
  static constexpr int NODE_MERGE_THRESHOLD = MT;
  static constexpr bool STAT = true;
};
#if MCFG == 0
using M = indexes::btree::concurrent_map<long, V, T<256, 50>>;
#elif MCFG == 1
using M = indexes::btree::concurrent_map<long, V, T<512, 20>>;
#elif MCFG == 2
using M = indexes::btree::concurrent_map<long, V, T<256, 100>>;
#elif MCFG == 3
using M = indexes::btree::concurrent_map<long, V, T<512, 30>>;
#endif
static long key(uint64_t k) { return (long)k; }
static M *make() { return new M(); }
#elif MCFG < 7 || MCFG > 10
#if MCFG < 7
using M = indexes::art::concurrent_map<V>;
#else
struct M : indexes::art::map<V> { void reclaim_all() {} };
#endif
static uint64_t key(uint64_t k) {
#if MCFG == 4 || MCFG == 11
  return k;                                   // dense
#elif MCFG == 5 || MCFG == 12
  return k * 0x9E3779B97F4A7C15ull;           // scattered
#else
  return (k % 7) | (k / 7 % 5) << 24 | (k / 35) << 40; // long shared prefixes
#endif
}
static M *make() { return new M(); }
#else
struct H {
  size_t operator()(long k) const {
#if MCFG == 7
    return k;
#elif MCFG == 8
    return (size_t)k * 0x9E3779B97F4A7C15ull;
#elif MCFG == 9
    return k % 3;
#else
    return k / 4;
#endif
  }
};
using M = indexes::hashtable::concurrent_map<long, V, H>;
static long key(uint64_t k) { return (long)k; }
static M *make() { return new M(8); }
#endif

struct Run {
  Recorder &r;
  Rng g;
  M *m;
  uint64_t next = 1u << 20;
  std::deque<uint64_t> live;
  long stamp = 0, empty;
  Run(Recorder &rr, uint64_t seed) : r(rr), g(seed) {
    g_bytes = 0; on(true); m = make(); m->reclaim_all(); on(false);
    empty = g_bytes;
    r.ev(evj("base", {g_bytes}));
  }
  void on(bool b) { g_on = b; }
  void ins(uint64_t k) { V v = val(++stamp); on(true); if (g.p(50)) m->Insert(key(k), v); else m->Upsert(key(k), v); on(false); }
  void del(uint64_t k) { on(true); m->Delete(key(k)); on(false); }
  void upd(uint64_t k) { V v = val(++stamp); on(true); { if (g.p(50)) m->Update(key(k), v); else m->Upsert(key(k), v); } on(false); }
  uint64_t fresh(int how) {
    switch (how) {
    case 0: return next++;                    // ever greater
    case 1: return (1u << 20) - (++next - (1u << 20)) ; // ever smaller
    case 2: return g.g() >> 1 >> g(40);       // anywhere
    default: return next += 1 + g(300);
    }
  }
  void point() {
#ifndef UNASKED
    on(true); m->reclaim_all(); on(false);
#endif
    r.ev(evj("mem", {(long)live.size(), g_bytes}));
#ifdef FRESH
    // what a new map needs for the same content
    long held = g_bytes;
    std::vector<uint64_t> ks(live.begin(), live.end());
    on(true);
    M *f = make();
    for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[g(i)]);
    { V v = val(1); for (auto k : ks) f->Insert(key(k), v); }
    long now = g_bytes;
    delete f;
    on(false);
    r.ev(evj("fresh", {held - empty, now - held - empty}));
    g_bytes = held;
#endif
  }
  void fill(int how, size_t w) {
    while (live.size() < w) { uint64_t k = fresh(how); size_t n = m->size(); ins(k); if (m->size() != n) live.push_back(k); }
  }
  void go(int kind, int w, int rounds) {
    int how = g(4);
    for (int i = 0; i < rounds; i++) {
      switch (kind) {
      case 0: // a window slides along
        fill(how, w);
        for (int j = 0; j < 2 * w; j++) { fill(how, w + 1); del(live.front()); live.pop_front(); }
        break;
      case 1: { // fill with new keys, drain in some order
        fill(how, w);
        if (i % 2) point();
        int o = g(3);
        while (!live.empty()) {
          if (o == 0) { del(live.front()); live.pop_front(); }
          else if (o == 1) { del(live.back()); live.pop_back(); }
          else { size_t j = g(live.size()); std::swap(live[j], live.back()); del(live.back()); live.pop_back(); }
        }
        break; }
      case 2: // random replacement
        fill(how, w);
        for (int j = 0; j < 2 * w; j++) { size_t x = g(live.size()); std::swap(live[x], live.front()); del(live.front()); live.pop_front(); fill(how, w); }
        break;
      case 3: // the same keys updated, over and over
        fill(how, w);
        for (int j = 0; j < 4 * w; j++) upd(live[g(live.size())]);
        break;
      case 4: // few keys of many come and go
        fill(how, w);
        for (int j = 0; j < 3 * w; j++) { uint64_t k = live[j % 3]; del(k); ins(k); if (g.p(20)) upd(k); }
        break;
      }
      point();
    }
  }
  void end() { on(true); delete m; on(false); r.ev(evj("end", {g_bytes})); }
};

// usage: prog OUT SEED NTRACES ROUNDS
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int nt = atoi(argv[3]), rounds = atoi(argv[4]);
  Recorder r(size_t(1) << 28);
  run_jobs(r, nt, 60, [&](int i) {
    r.begin(
#ifdef UNASKED
      "unasked-"
#endif
      "mem" + std::to_string(MCFG) + "#" + std::to_string(seed) + "." + std::to_string(i), "\"warm\":" + std::to_string(rounds / 10));
    { Run x(r, seed * 1000003 + i);
      static const int ws[] = {2, 5, 20, 60, 150};
      x.go(i % 5, ws[x.g(5)], rounds);
      x.end(); }
    r.end();
  });
  dump(r, argv[1]);
}
