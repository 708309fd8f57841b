// Life of the objects the radix trees, the hash table and the concurrent B+tree
// hold, used by one thread (C21).    usage: life OUT SEED NTRACES NOPS [WALKS]
//   LCFG: 0 art::map, 1 art::concurrent_map, 2-3 hash table, 4-6 concurrent B+tree
#include "trace.h"
#include "art_keys.h"
#include <fstream>
#include <memory>
#include <optional>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#if LCFG == 0
#include "indexes/art/map.h"
#elif LCFG == 1
#include "indexes/art/concurrent_map.h"
#elif LCFG <= 3
#include "indexes/hashtable/concurrent_map.h"
#else
#include "indexes/btree/concurrent_map.h"
#endif
using namespace vt;

static Recorder *R;
struct Ledger {
  std::unordered_map<const void *, int> ids;
  std::unordered_set<int> alive; // only decides which reads are worth recording
  long n = 0;
  int id(const void *p) { return ids.emplace(p, (int)ids.size()).first->second; }
  static void E(const char *op, std::initializer_list<long> a) { R->ev(evj(op, a)); }
  void ctor(const void *p) { int i = id(p); alive.insert(i); E("ctor", {i}); }
  void copy(const void *p, const void *q) { int i = id(p), j = id(q); alive.insert(i); E("copy", {i, j}); }
  void asg(const void *p, const void *q) { E("asg", {id(p), id(q)}); }
  void dtor(const void *p) { int i = id(p); alive.erase(i); E("dtor", {i}); }
  void read(const void *p) { int i = id(p); if (!alive.count(i) || ++n % 97 == 0) E("read", {i}); }
};
static Ledger *L;

template <int Tag> struct Obj {
  long v;
  Obj() : v(0) { L->ctor(this); }
  Obj(long x) : v(x) { L->ctor(this); }
  Obj(const Obj &o) : v(o.v) { L->copy(this, &o); }
  Obj(Obj &&o) noexcept : v(o.v) { L->copy(this, &o); }
  Obj &operator=(const Obj &o) { L->asg(this, &o); v = o.v; return *this; }
  Obj &operator=(Obj &&o) noexcept { L->asg(this, &o); v = o.v; return *this; }
  ~Obj() { L->dtor(this); v = -777; }
  bool operator<(const Obj &o) const { L->read(this); L->read(&o); return v < o.v; }
  bool operator==(const Obj &o) const { L->read(this); L->read(&o); return v == o.v; }
};
using Val = Obj<1>;
#if LCFG <= 1
using Key = uint64_t;
#elif LCFG == 3
using Key = long;
#else
using Key = Obj<0>;
#endif
#if LCFG == 0
using Map = indexes::art::map<Val>;
#elif LCFG == 1
using Map = indexes::art::concurrent_map<Val>;
#elif LCFG <= 3
struct H {
#if LCFG == 2
  size_t operator()(const Key &k) const { L->read(&k); return k.v; }
#else
  size_t operator()(const Key &k) const { return k / 4; }
#endif
};
using Map = indexes::hashtable::concurrent_map<Key, Val, H>;
#else
struct T : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = LCFG == 4 ? 256 : LCFG == 5 ? 512 : 288;
  static constexpr int NODE_MERGE_THRESHOLD = LCFG == 4 ? 50 : LCFG == 5 ? 90 : 20;
};
#if LCFG == 6
using Map = indexes::btree::concurrent_map<long, Val, T>;
#define PLAINKEY
#else
using Map = indexes::btree::concurrent_map<Key, Val, T>;
#endif
#endif

struct Run {
  Rng g;
  std::vector<uint64_t> u;
  std::unique_ptr<Map> m;
  int N;
#if LCFG <= 1
  Run(uint64_t s, const std::vector<uint64_t> &f) : g(s), u(f.empty() ? artk::universe(g) : f), m(std::make_unique<Map>()), N(u.size()) {}
  Key key(int k) { return u[k]; }
#else
  Run(uint64_t s, const std::vector<uint64_t> &) : g(s), m(make()), N(8 + g(60)) {}
#if LCFG <= 3
  std::unique_ptr<Map> make() { static const size_t caps[] = {0, 1, 5, 16, 64}; return std::make_unique<Map>(caps[g(5)]); }
#else
  std::unique_ptr<Map> make() { return std::make_unique<Map>(); }
#endif
#ifdef PLAINKEY
  long key(int k) { return k; }
#else
  Key key(int k) { return Key(k); }
#endif
#endif
  void put(int k) {
    Ledger::E("op", {1, k});
    if (g.p(50)) m->Insert(key(k), Val(g(1000))); else m->Upsert(key(k), Val(g(1000)));
  }
  void del(int k) { Ledger::E("op", {2, k}); m->Delete(key(k)); }
  void query(int k) {
    switch (g(8)) {
    case 0: Ledger::E("op", {3, k}); m->Update(key(k), Val(g(1000))); break;
    case 1: case 2: Ledger::E("op", {4, k}); m->Search(key(k)); break;
    case 3: Ledger::E("op", {5, 0}); if (g.p(30)) m = std::make_unique<Map>(std::move(*m)); break;
#if LCFG >= 1
    case 4: Ledger::E("op", {6, 0}); m->reclaim_all(); break;
#endif
#if LCFG >= 1 && LCFG <= 3
    case 5: Ledger::E("op", {7, 0}); m->reserve(g(2 * N)); break;
#endif
#if LCFG >= 4
    case 6: Ledger::E("op", {8, 0}); for (auto it = m->begin(); it != m->end(); ++it) (void)*it; break;
    case 7: Ledger::E("op", {8, 1}); for (auto it = m->rbegin(); it != m->rend(); ++it) (void)*it; break;
#endif
    }
  }
};
static void history(Run &x, int nops) {
  int N = x.N, ops = 0;
  Rng &g = x.g;
  while (ops < nops) {
    int ph = g(8), len = N / 3 + g(N);
    for (int s = 0; s < len && ops < nops; s++, ops++) {
      int k = ph < 2 ? s % N : ph == 2 ? N - 1 - s % N : (int)g(N);
      bool ins = ph == 0 || ph == 2 ? true : ph == 1 || ph == 3 ? false : g.p(ph == 4 ? 75 : ph == 5 ? 30 : 50);
      if (ins) x.put(k); else x.del(k);
      if (g.p(20)) x.query(g(N));
    }
  }
  if (g.p(30)) for (int k = 0; k < N; k++) x.del(k);
}
template <class F> static void trace(Recorder &r, const std::string &id, F f) {
  Ledger led;
  L = &led;
  r.begin("life-" + std::to_string(LCFG) + "#" + id, "\"n\":1");
  f();
  Ledger::E("end", {0});
  r.end();
}
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[2], 0, 10);
  int nops = atoi(argv[4]);
  Recorder r(size_t(1) << 30);
  R = &r;
  if (argc > 5) { // the transitions of spec/Radix.tla
    std::ifstream f(argv[5]);
    std::string line;
    std::vector<std::pair<std::vector<uint64_t>, int>> sets;
    std::vector<std::pair<int, std::vector<int>>> walks;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      if (line[0] == 'K') {
        char c; int n, m; is >> c >> n >> m;
        sets.push_back({std::vector<uint64_t>(n), m});
        for (auto &k : sets.back().first) is >> k;
      } else { std::vector<int> w; int x; while (is >> x) w.push_back(x); walks.push_back({(int)sets.size() - 1, w}); }
    }
    run_jobs(r, walks.size(), 30, [&](int i) {
      auto &[keys, moving] = sets[walks[i].first];
      trace(r, "walk" + std::to_string(i), [&] {
        Run x(seed * 7919 + i, keys);
        for (size_t k = moving; k < keys.size(); k++) x.put(k);
        for (int op : walks[i].second) { if (op > 0) x.put(op - 1); else x.del(-op - 1); if (x.g.p(10)) x.query(x.g(x.N)); }
        Ledger::E("op", {9, 0});
      });
    });
  } else
    run_jobs(r, atoi(argv[3]), 30, [&](int i) {
      trace(r, std::to_string(seed) + "." + std::to_string(i), [&] {
        Run x(seed * 7919 + i, {});
        history(x, nops);
        Ledger::E("op", {9, 0});
      });
    });
  dump(r, argv[1]);
}
