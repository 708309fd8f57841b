// The hash table used by one thread (C17).  HCFG: hash function and key type.
#include "dict_seq.h"
#include <optional>
#include <string>
#include "indexes/hashtable/concurrent_map.h"
using namespace dict;
#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef HCFG
#define HCFG 0
#endif

#if HCFG == 5
using Key = std::string;
static Key key(int k) { return "a rather long key, stored on the heap, number " + std::to_string(k); }
#else
using Key = long;
static Key key(int k) {
#if HCFG == 8
  return k < 40 ? k : (long)(k - 39) << 20; // dense keys and keys that share their low bits
#elif HCFG == 6
  return (long)(size_t)0 - 1 - k;
#else
  return k;
#endif
}
#endif
struct Hash {
  size_t operator()(const Key &k) const {
#if HCFG == 0 || HCFG == 6 || HCFG == 8
    return k;                                    // identity, up to the reserved hashes
#elif HCFG == 1
    return 5;                                    // one chain
#elif HCFG == 2
    return k / 8;                                // clusters that overlap
#elif HCFG == 3
    static const size_t h[] = {~size_t(0), ~size_t(1), 0, ~size_t(2), 1};
    return h[k % 5];                             // reserved hashes, wrap-around
#elif HCFG == 4
    return (size_t)k << 40;                      // low bits never differ
#elif HCFG == 5
    return std::hash<std::string>{}(k);
#elif HCFG == 9
    return k < 260 ? k : k < 300 ? 0 : 100;      // chains with long links in a sparse table
#elif HCFG == 7
    return (size_t)k * 0x9E3779B97F4A7C15ull >> 7;
#endif
  }
};
#if HCFG == 1 || HCFG == 4
static const int NK = 600;
#elif HCFG == 7
static const int NK = 500;
#elif HCFG == 8
static const int NK = 400;
#elif HCFG == 9
static const int NK = 340;
#else
static const int NK = 64;
#endif
#if HCFG == 1 || HCFG == 4 || HCFG >= 8
using V = long;
#else
using V = Val;
#endif

struct H {
  static constexpr const char *NAME = "ht" STR(HCFG);
  using M = indexes::hashtable::concurrent_map<Key, V, Hash>;
  std::unique_ptr<M> m;
  int N;
  static int keys(Rng &g) { return g.p(30) ? NK / 8 : NK; }
  H(Rng &g) : N(keys(g)) {
    static const size_t caps[] = {0, 1, 3, 4, 5, 16, 100};
    m = g.p(20) ? std::make_unique<M>() : std::make_unique<M>(caps[g(7)]);
  }
  long ins(int k, int v) { return m->Insert(key(k), V(v)); }
  long ups(int k, int v) { return opt(m->Upsert(key(k), V(v))); }
  long upd(int k, int v) { return opt(m->Update(key(k), V(v))); }
  long sea(int k) { return opt(m->Search(key(k))); }
  long del(int k) { return opt(m->Delete(key(k))); }
  long size() { return m->size(); }
  long empty() { return m->empty(); }
  void extra(Rng &g) {
    switch (g(6)) {
    case 0: m->reserve(0); break;
    case 1: m->reserve(g(HCFG == 9 ? 8 * N : 2 * N)); break;
    case 2: m->reclaim_all(); break;
    case 3: m->reserve(g(4)); break;
    case 4: m = std::make_unique<M>(std::move(*m)); break;
    case 5: m->load_factor(); break;
    }
  }
#if HCFG == 9
  // a run of used buckets about as long as the longest link, then chains across it
  template <class R> void start(R &r) {
    if (N < NK || r.g.p(30)) return;
    m = std::make_unique<M>(r.g.p(70) ? 1024 : 512);
    int used = r.g.p(75) ? 252 + r.g(7) : 100 + r.g(160), far = 1 + r.g(6);
    for (int k = 0; k < used; k++) if (k < used - 3 || r.g.p(85)) r.put(k);
    for (int j = 0; j < far; j++) r.put(260 + r.g(r.g.p(60) ? 40 : 80));
    if (r.g.p(50)) for (int j = 0; j < 20; j++) r.del(r.g.p(50) ? r.g(260) : 260 + r.g(80));
    r.all();
    for (int k = 240; k < 340; k++) r.sea(k);
    for (int j = 0; j < 3; j++) r.put(260 + r.g(80));
  }
#endif
  void observe(Recorder &, Rng &, bool) {}
};
int main(int argc, char **argv) { return main_<H>(argc, argv); }
