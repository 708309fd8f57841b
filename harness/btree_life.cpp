// Life of the objects a sequential B+tree holds.
// usage: btree_life OUT SEED NTRACES NOPS      -DLCFG=n selects the types
#include "trace.h"
#include "indexes/btree/map.h"
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <string>
namespace bt = indexes::btree;
using namespace vt;

static Recorder *R;
static Rng *RG;
struct Ledger {
  std::unordered_map<const void *, int> ids;
  std::unordered_set<int> alive; // only decides which reads are worth recording
  int id(const void *p) { return ids.emplace(p, (int)ids.size()).first->second; }
  static void E(const char *op, std::initializer_list<long> a) { R->ev(evj(op, a)); }
  void ctor(const void *p) { int i = id(p); alive.insert(i); E("ctor", {i}); }
  void copy(const void *p, const void *q) { int i = id(p), j = id(q); alive.insert(i); E("copy", {i, j}); }
  void asg(const void *p, const void *q) { E("asg", {id(p), id(q)}); }
  void dtor(const void *p) { int i = id(p); alive.erase(i); E("dtor", {i}); }
  void read(const void *p) { int i = id(p); if (!alive.count(i) || (*RG)(97) == 0) E("read", {i}); }
};
static Ledger *L;

template <int Tag> struct Obj {
  int v;
  int pad;
  Obj() : v(0) { L->ctor(this); }
  Obj(int x) : v(x) { L->ctor(this); }
  Obj(const Obj &o) : v(o.v) { L->copy(this, &o); }
  Obj(Obj &&o) noexcept : v(o.v) { L->copy(this, &o); }
  Obj &operator=(const Obj &o) { L->asg(this, &o); v = o.v; return *this; }
  Obj &operator=(Obj &&o) noexcept { L->asg(this, &o); v = o.v; return *this; }
  ~Obj() { L->dtor(this); v = -777; }
  bool operator<(const Obj &o) const { L->read(this); L->read(&o); return v < o.v; }
  bool operator==(const Obj &o) const { L->read(this); L->read(&o); return v == o.v; }
};
struct PlainKey { int v; PlainKey(int x) : v(x) {} bool operator<(const PlainKey &o) const { return v < o.v; } bool operator==(const PlainKey &o) const { return v == o.v; } };

template <int NS, int MT> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NS;
  static constexpr int NODE_MERGE_THRESHOLD = MT;
};
#if LCFG == 0
using Key = Obj<0>; using Val = Obj<1>; using Map = bt::map<Key, Val, Tr<192, 50>>;
#elif LCFG == 1
using Key = Obj<0>; using Val = int; using Map = bt::map<Key, Val, Tr<224, 90>>;
#elif LCFG == 2
using Key = PlainKey; using Val = Obj<1>; using Map = bt::map<Key, Val, Tr<160, 30>>;
#elif LCFG == 3
using Key = Obj<0>; using Val = Obj<1>; using Map = bt::map<Key, Val, Tr<512, 0>>;
#else
using Key = Obj<0>; using Val = Obj<1>; using Map = bt::map<Key, Val, Tr<1024, 60>>;
#endif
static void at(const Key &k, const Val &v, int key) {
  if constexpr (!std::is_same_v<Val, int>) Ledger::E("at", {key, L->id(&v)});
  if constexpr (!std::is_same_v<Key, PlainKey>) Ledger::E("at", {key, L->id(&k)});
}
static int NOPS;
static void job(Recorder &r, uint64_t seed, int id) {
  Rng g(seed * 7919 + id);
  Ledger led;
  L = &led;
  RG = &g;
  r.begin("life" + std::to_string(LCFG) + "#" + std::to_string(seed) + "." + std::to_string(id), "\"n\":1");
  {
    Map m;
    int N = 8 + g(50), ops = 0;
    while (ops < NOPS) {
      int ph = g(8), len = N / 3 + g(N);
      for (int s = 0; s < len && ops < NOPS; s++, ops++) {
        int k = ph < 2 ? s % N : ph == 2 ? N - 1 - s % N : (int)g(N);
        bool ins = ph == 0 || ph == 2 ? true : ph == 1 || ph == 3 ? false : g.p(ph == 4 ? 75 : ph == 5 ? 30 : 50);
        if (ins) {
          Ledger::E("op", {1, k});
          if (g.p(80)) { Key kk(k); Val v(k + 1000 * s); m[kk] = v; } else (void)m[Key(k)];
        } else if (g.p(60)) {
          Ledger::E("op", {2, k});
          m.erase(Key(k));
        } else {
          Ledger::E("op", {3, k});
          auto it = m.find(Key(k));
          if (it != m.end()) m.erase(it);
        }
        int q = g(40);
        if (q == 0) { Ledger::E("op", {4, 0}); for (auto it = m.begin(); it != m.end(); ++it) at(it->first, it->second, 0); }
        if (q == 1) { Ledger::E("op", {5, 0}); for (auto it = m.rbegin(); it != m.rend(); ++it) at(it->first, it->second, 0); }
        if (q == 2) { Ledger::E("op", {6, k}); auto it = m.lower_bound(Key(k)); if (it != m.end()) { at(it->first, it->second, k); it->second = Val(7); } }
        if (q == 3) { Ledger::E("op", {7, k}); auto it = m.upper_bound(Key(k)); if (it != m.end()) at(it->first, it->second, k); }
      }
    }
    Ledger::E("op", {9, 0});
  }
  Ledger::E("end", {0});
  r.end();
}
// histories taken from the state graph of spec/BTree.tla
static std::vector<std::vector<int>> WALKS;
static void walk_job(Recorder &r, uint64_t seed, int id) {
  Rng g(seed * 7919 + id);
  Ledger led;
  L = &led;
  RG = &g;
  r.begin("lifewalk" + std::to_string(LCFG) + "#" + std::to_string(id), "\"n\":1");
  {
    Map m;
    for (int op : WALKS[id]) {
      int k = abs(op) - 1;
      Ledger::E("op", {op > 0 ? 1 : 2, k});
      if (op > 0) m[Key(k)] = Val(k); else m.erase(Key(k));
      if (g.p(5)) for (auto it = m.begin(); it != m.end(); ++it) at(it->first, it->second, 0);
    }
    Ledger::E("op", {9, 0});
  }
  Ledger::E("end", {0});
  r.end();
}
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[2], 0, 10);
  NOPS = atoi(argv[4]);
  Recorder r;
  R = &r;
  if (argc > 5) {
    std::ifstream f(argv[5]);
    std::string line;
    while (std::getline(f, line)) { std::istringstream is(line); std::vector<int> w; int x; while (is >> x) w.push_back(x); WALKS.push_back(w); }
    run_jobs(r, (int)WALKS.size(), 20, [&](int i) { walk_job(r, seed, i); });
  } else run_jobs(r, atoi(argv[3]), 20, [&](int i) { job(r, seed, i); });
  dump(r, argv[1]);
}
