// Instances of the sequential B+tree the checks drive: node sizes, merge
// thresholds, key and value types.  key(i) is strictly increasing in i;
// probe p=2i+1 is key i, probe p=2i falls strictly between keys i-1 and i.
#pragma once
#include "indexes/btree/key.h"
#include "indexes/btree/map.h"
#include <string>
namespace bt = indexes::btree;

template <int NS, int MT, bool DBG> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NS;
  static constexpr int NODE_MERGE_THRESHOLD = MT;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = DBG;
};

struct IntKeys {
  using Key = int;
  static Key key(int i) { return 10 * i - 300; }
  static int idx(const Key &k) { return (k + 300) % 10 ? -7 : (k + 300) / 10; }
  template <class M, class F> static auto probe(M &m, int p, F f) {
    if (p & 1) return f(m, key(p / 2));
    return f(m, key(p / 2) - 0.5); // a key of another type, between two keys
  }
};
struct LongKeys {
  using Key = int64_t;
  static Key key(int i) { return (int64_t(i) - 20) * 1000003ll * 4096; }
  static int idx(const Key &k) { return int(k / (1000003ll * 4096) + 20); }
  template <class M, class F> static auto probe(M &m, int p, F f) {
    return f(m, (p & 1) ? key(p / 2) : key(p / 2) - 1);
  }
};
struct StrKeys {
  using Key = std::string;
  static Key key(int i) {
    char b[64];
    snprintf(b, sizeof b, i % 3 ? "k%05d" : "k%05d-a-key-too-long-for-the-small-buffer", i);
    return b;
  }
  static int idx(const Key &k) { return k.size() < 6 || k[0] != 'k' ? -7 : atoi(k.substr(1, 5).c_str()); }
  template <class M, class F> static auto probe(M &m, int p, F f) {
    if (p & 1) return f(m, key(p / 2));
    char b[64];
    snprintf(b, sizeof b, "k%05d", p / 2);
    if (p / 2 % 3 == 0) return f(m, (const char *)b); // shorter string: just below key p/2
    std::string s(b);
    s.pop_back();
    s += char(b[5] - 1);
    s += "~";
    return f(m, s);
  }
};
struct CompKeys {
  using Key = bt::compound_key<int, int>;
  using Part = bt::compound_key<int>;
  using Longer = bt::compound_key<int, int, int>;
  static Key key(int i) { return Key{i / 4 - 3, i % 4}; }
  static int idx(const Key &k) { return (std::get<0>(k) + 3) * 4 + std::get<1>(k); }
  template <class M, class F> static auto probe(M &m, int p, F f) {
    if (p & 1) return f(m, key(p / 2));
    int i = p / 2;
    if (i % 4 == 0) return f(m, Part{i / 4 - 3});
    return f(m, Longer{(i - 1) / 4 - 3, (i - 1) % 4, 5});
  }
};
struct CompStrKeys {
  using Key = bt::compound_key<std::string, int>;
  using Part = bt::compound_key<std::string>;
  static std::string s(int a) { char b[16]; snprintf(b, sizeof b, "s%03d", a); return b; }
  static Key key(int i) { return Key{s(i / 4), i % 4 * 2}; }
  static int idx(const Key &k) { return atoi(std::get<0>(k).c_str() + 1) * 4 + std::get<1>(k) / 2; }
  template <class M, class F> static auto probe(M &m, int p, F f) {
    if (p & 1) return f(m, key(p / 2));
    int i = p / 2;
    if (i % 4 == 0) return f(m, Part{s(i / 4)});
    return f(m, Key{s(i / 4), i % 4 * 2 - 1});
  }
};

struct IntVals {
  using Val = int;
  static Val val(int v) { return v; }
  static int num(const Val &v) { return v; }
};
struct StrVals {
  using Val = std::string;
  static Val val(int v) { return v == 0 ? std::string() : "value-that-is-kept-on-the-heap-" + std::to_string(v); }
  static int num(const Val &v) { return v.empty() ? 0 : v.size() < 31 ? -7 : atoi(v.c_str() + 31); }
};
struct Mid { int a = 0, b[2] = {0, 0}; };
struct MidVals { // the layout of spec/BTree_a.cfg: 16-byte leaf entries
  using Val = Mid;
  static Val val(int v) { Mid f; f.a = v; if (v) f.b[0] = f.b[1] = ~v; return f; }
  static int num(const Val &v) { for (int x : v.b) if (x != (v.a ? ~v.a : 0)) return -7; return v.a; }
};
struct Fat { long a = 0, b[4] = {0, 0, 0, 0}; };
struct FatVals {
  using Val = Fat;
  static Val val(int v) { Fat f; f.a = v; for (long &x : f.b) x = ~long(v); if (!v) for (long &x : f.b) x = 0; return f; }
  static int num(const Val &v) {
    for (long x : v.b) if (x != (v.a ? ~v.a : 0)) return -7;
    return (int)v.a;
  }
};

template <class K, class V, int NS, int MT_, bool DBG, int NK> struct Cfg : K, V {
  static constexpr int N = NK;
  static constexpr bool DBGSTAT = DBG;
  static constexpr int NODESIZE = NS;
  static constexpr int MT = MT_;
  static constexpr bool MERGES = MT_ > 0;
  using Map = bt::map<typename K::Key, typename V::Val, Tr<NS, MT_, DBG>>;
};

#ifndef CFG
#define CFG 0
#endif
#if CFG == 0
using C = Cfg<IntKeys, IntVals, 160, 50, true, 48>;
#define CFGNAME "int160"
#elif CFG == 1
using C = Cfg<IntKeys, IntVals, 128, 100, true, 40>;
#define CFGNAME "int128-merge100"
#elif CFG == 2
using C = Cfg<LongKeys, IntVals, 192, 20, false, 40>;
#define CFGNAME "long192-merge20"
#elif CFG == 3
using C = Cfg<StrKeys, StrVals, 512, 60, true, 40>;
#define CFGNAME "str-str512"
#elif CFG == 4
using C = Cfg<CompKeys, IntVals, 160, 80, true, 48>;
#define CFGNAME "comp160"
#elif CFG == 5
using C = Cfg<CompStrKeys, FatVals, 1024, 40, true, 64>;
#define CFGNAME "compstr-fat1024"
#elif CFG == 6
using C = Cfg<IntKeys, FatVals, 320, 0, false, 40>;
#define CFGNAME "int-fat320-nomerge"
#elif CFG == 7
using C = Cfg<LongKeys, IntVals, 8192, 20, true, 1500>;
#define CFGNAME "long8192-default"
#elif CFG == 8
using C = Cfg<IntKeys, IntVals, 176, 35, true, 400>;
#define CFGNAME "int176-deep"
#elif CFG == 9
#ifndef WALKN
#define WALKN 6
#endif
using C = Cfg<IntKeys, MidVals, 128, 50, true, WALKN>;
#define CFGNAME "walk128"
#elif CFG == 10
using C = Cfg<IntKeys, IntVals, 8192, 90, true, 2500>;
#define CFGNAME "int8192-merge90"
#elif CFG == 11
using C = Cfg<IntKeys, IntVals, 8192, 20, false, 2500>;
#define CFGNAME "int8192-default"
#elif CFG == 12
using C = Cfg<IntKeys, FatVals, 512, 5, true, 200>;
#define CFGNAME "int-fat512-merge5"
#endif
