// The concurrent B+tree under the explorer.  Nodes are as small as the map
// allows, so that a handful of keys splits, trims and merges them.
#ifdef CONC_SHAPE // the shape of the tree is what matters
#define BTREE_DUMP_ENABLED
#include <deque>
#include <iostream>
#include "tree_dump.h"
#endif
#include "conc.h"
#include "val.h"
#include <optional>
#include "indexes/btree/concurrent_map.h"
#ifndef NSIZE
#define NSIZE 208
#endif
#ifndef MERGE
#define MERGE 50
#endif
#ifndef FILL
#define FILL 0     // keys inserted beforehand, beside those of the scenario
#endif
#ifndef GAP
#define GAP 0      // where they go: 0 above, 1 below, 2 between the scenario's keys
#endif
#ifndef NK
#define NK 8
#endif
namespace bt = indexes::btree;
struct Traits : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NSIZE;
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
  static constexpr bool STAT = true;
};
#include "cbt_keys.h"

struct A {
  static constexpr int N = NK;
  static constexpr bool DTOR = true;
  using M = bt::concurrent_map<int, Val, Traits>;
  M *m;
  void ctor() {
    m = new M();
    for (int j = 0; j < FILL; j++) m->Insert(filler(j), mk(1));
  }
  void dtor() { delete m; }
  static long opt(const std::optional<Val> &o) { return o ? out(*o) : -1; }
  long ins(int k, int v) { return m->Insert(key(k), mk(v)); }
  long ups(int k, int v) { return opt(m->Upsert(key(k), mk(v))); }
  long upd(int k, int v) { return opt(m->Update(key(k), mk(v))); }
  long sea(int k) { return opt(m->Search(key(k))); }
  long del(int k) { return opt(m->Delete(key(k))); }
  void reclaim() { m->reclaim_all(); }
  void reserve(int n) { m->reserve(n); }
  long size() { return (long)m->size() - FILL; }
  // is k a key of the scenario (and not a filler)?
  static bool mine(int k) { return k % S == 0 && k >= 0 && k < NK * S; }
  template <typename It, typename F> static bool walk(It it, const It &e, F f) {
    for (int guard = 2 * (NK + FILL) + 20; it != e && guard--; ++it) {
      int k = it->first;
      if (mine(k)) f(k / S, out(it->second));
    }
    return true;
  }
  // to and fro
  template <typename It, typename F, typename G> static bool zigzag(It it, const It &e, F f, G turn) {
    static const int legs[] = {2, 1, 3, 2, 1, 2, 4, 1};
    int leg = 0, left = legs[0];
    bool on = true;
    for (int guard = 4 * (NK + FILL) + 200; it != e && guard--;) {
      int k = it->first;
      if (mine(k)) {
        f(k / S, out(it->second));
        if (leg < 8 && !--left) {
          turn();
          on = !on;
          left = ++leg < 8 ? legs[leg] : 0;
        }
      }
      if (on) ++it; else --it;
    }
    return true;
  }
  template <typename It, typename F> static bool ranged(It it, F f) {
    for (int guard = 2 * (NK + FILL) + 20; it && guard--;) {
      int k = it->first;
      if (mine(k)) f(k / S, out(it->second));
      if (!++it) break;
    }
    return true;
  }
  template <bt::range_kind L, bt::range_kind R, typename F> bool range(bool fwd, int a, int b, F f) {
    return fwd ? ranged(m->range_iter<L, R>(key(a), key(b)), f) : ranged(m->rrange_iter<L, R>(key(a), key(b)), f);
  }
  template <typename F, typename G> bool scan(char kind, int k, F f, G turn) {
    switch (kind) {
    case 'F': return walk(m->begin(), m->end(), f);
    case 'B': return walk(m->rbegin(), m->rend(), f);
    case 'L': {
      // an entry is looked at after the iterator has gone on: a copy keeps it
      auto it = m->lower_bound(key(k));
      auto e = m->end();
      for (int guard = 2 * (NK + FILL) + 20; it != e && guard--;) {
        auto c = it++;
        int x = c.key();
        if (mine(x)) f(x / S, out(c.data()));
      }
      return true;
    }
    case 'U': return walk(m->upper_bound(key(k)), m->end(), f);
    case 'Y': return zigzag(m->lower_bound(key(k)), m->end(), f, turn);
    case 'Z': return zigzag(m->rbegin(), m->rend(), f, turn);
    default: break;
    }
    int a = k / 100, b = k / 10 % 10;
    bool fwd = !(k & 4);
    switch (k & 3) {
    case 0: return range<bt::EXCLUSIVE, bt::EXCLUSIVE>(fwd, a, b, f);
    case 1: return range<bt::INCLUSIVE, bt::EXCLUSIVE>(fwd, a, b, f);
    case 2: return range<bt::EXCLUSIVE, bt::INCLUSIVE>(fwd, a, b, f);
    default: return range<bt::INCLUSIVE, bt::INCLUSIVE>(fwd, a, b, f);
    }
  }
  template <typename F> void final(F f) {
    for (bool fwd : {true, false}) {
      std::vector<int> ks, vs;
      scan(fwd ? 'F' : 'B', 0, [&](int k, long v) { ks.push_back(k); vs.push_back(v); }, [] {});
      f(fwd, ks, vs);
    }
  }
#ifdef CONC_SHAPE
  // Keys are told by their rank among all there may be.
  static int rank(int x) {
    static std::vector<int> all = [] {
      std::vector<int> v;
      for (int k = 0; k < NK; k++) v.push_back(key(k));
      for (int j = 0; j < FILL; j++) v.push_back(filler(j));
      std::sort(v.begin(), v.end());
      return v;
    }();
    auto it = std::lower_bound(all.begin(), all.end(), x);
    return it == all.end() || *it != x ? -7 : int(it - all.begin());
  }
  template <typename F> void shape(const std::vector<int> &left, F ev) {
    std::vector<int> live;
    for (int k : left) live.push_back(rank(key(k)));
    for (int j = 0; j < FILL; j++) live.push_back(rank(filler(j)));
    ev("[\"live\"," + vt::js(live) + "]");
    std::ostringstream os;
    m->dump(os);
    std::string lv;
    long n = 0;
    if (!parse_dump(os.str(), lv, n, [](const std::string &t) { return rank(atoi(t.c_str())); })) lv = "[]";
    if (n) ev("[\"tree\"," + std::to_string(m->height()) + "," + lv + ",[],-1,-1,0]");
  }
#endif
};
CONC_MAIN(A)
