// The concurrent hash table under the explorer.
#include "conc.h"
#include <optional>
#include "indexes/hashtable/concurrent_map.h"

#ifndef HCFG
#define HCFG 0
#endif
#if HCFG == 0   // identity
struct Hash { size_t operator()(long k) const { return k; } };
#elif HCFG == 1 // everything collides
struct Hash { size_t operator()(long k) const { return 7; } };
#elif HCFG == 2 // two chains that share a neighbourhood
struct Hash { size_t operator()(long k) const { return (k & 1) + 8 * k; } };
#elif HCFG == 3 // clustered at the wrap-around of small tables
struct Hash { size_t operator()(long k) const { return ~size_t(3) + (k & 1); } };
#endif

#include "val.h"
#ifndef NK
#define NK 6
#endif
#ifndef CAP
#define CAP 4
#endif

struct A {
  static constexpr int N = NK;
  static constexpr bool DTOR = true;
  using M = indexes::hashtable::concurrent_map<long, Val, Hash>;
  M *m;
  void ctor() { m = new M(CAP); }
  void dtor() { delete m; }
  static long opt(const std::optional<Val> &o) { return o ? out(*o) : -1; }
  long ins(int k, int v) { return m->Insert(k, mk(v)); }
  long ups(int k, int v) { return opt(m->Upsert(k, mk(v))); }
  long upd(int k, int v) { return opt(m->Update(k, mk(v))); }
  long sea(int k) { return opt(m->Search(k)); }
  long del(int k) { return opt(m->Delete(k)); }
  void reclaim() { m->reclaim_all(); }
  void reserve(int n) { m->reserve(n); }
  long size() { return m->size(); }
  template <typename F, typename G> bool scan(char, int, F, G) { return true; }
  template <typename F> void final(F) {}
};
CONC_MAIN(A)
