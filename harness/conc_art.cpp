// The concurrent radix tree under the explorer.
#include "conc.h"
#include "val.h"
#include <optional>
#include "indexes/art/concurrent_map.h"
#ifndef ACFG
#define ACFG 0
#endif
#ifndef FILL
#define FILL 0     // keys inserted beforehand, beside those of the scenario
#endif
#if ACFG >= 10
#define NK 8
#else
#define NK 6
#endif

static uint64_t key(int k) {
#if ACFG == 0      // children of one node
  return k;
#elif ACFG == 1    // nodes below a node
  return (uint64_t)(k & 1) | (uint64_t)(k >> 1) << 8;
#elif ACFG == 2    // prefixes that part at different levels
  static const uint64_t t[] = {0x0505050505050505, 0x0605050505050505, 0x0505060505050505,
                               0x0505050605050505, 0x0505070505050505, 0x0505050605050506};
  return t[k];
#elif ACFG == 3    // all below one prefix: the node is a child, not the root
  return 0x77 | (uint64_t)k << 16;
#else              // the key sets of MCRadix: their keys' bytes in order
  static const uint64_t t[] = {SCENARIO_KEYS};
  return t[k];
#endif
}
static uint64_t filler(int j) {
#if ACFG == 10     // children of the node the third byte leads to
  return FILLER_BASE + ((uint64_t)(2 * (j + 1)) << 16);
#elif ACFG == 3
  return 0x77 | (uint64_t)(100 + j) << 16;
#elif ACFG == 0
  return 100 + j;
#else
  return 0x99 + j;
#endif
}

struct A {
  static constexpr int N = NK;
  static constexpr bool DTOR = true;
  using M = indexes::art::concurrent_map<Val>;
  M *m;
  void ctor() {
    m = new M();
#if ACFG == 3
    m->Insert(0x78, mk(1)); // keeps the node below the root
#endif
    for (int j = 0; j < FILL; j++) m->Insert(filler(j), mk(1));
  }
  void dtor() { delete m; }
  static long opt(const std::optional<Val> &o) { return o ? out(*o) : -1; }
  long ins(int k, int v) { return m->Insert(key(k), mk(v)); }
  long ups(int k, int v) { return opt(m->Upsert(key(k), mk(v))); }
  long upd(int k, int v) { return opt(m->Update(key(k), mk(v))); }
  long sea(int k) { return opt(m->Search(key(k))); }
  long del(int k) { return opt(m->Delete(key(k))); }
  void reclaim() { m->reclaim_all(); }
  void reserve(int n) { m->reserve(n); }
  long size() { return m->size() - FILL - (ACFG == 3); }
  template <typename F, typename G> bool scan(char, int, F, G) { return true; }
  template <typename F> void final(F) {}
};
CONC_MAIN(A)
