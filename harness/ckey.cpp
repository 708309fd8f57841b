// Compares pairs of real compound keys with all six operators and records the
// answers.   usage: ckey OUT SEED FULL
#include "trace.h"
#include "indexes/btree/key.h"
#include <climits>
#include <string>
#include <string_view>
#include <array>
namespace bt = indexes::btree;
using namespace vt;

static Recorder *R;
static Rng *G;
static int FULL = 1;

// Fields: rank r of type T, increasing.
template <class T> struct F;
template <> struct F<int> { static int at(int r) { static const int v[] = {INT_MIN, -1, 0, INT_MAX}; return v[r]; } };
template <> struct F<int64_t> { static int64_t at(int r) { static const int64_t v[] = {INT64_MIN, -1, 0, INT64_MAX}; return v[r]; } };
template <> struct F<uint64_t> { static uint64_t at(int r) { static const uint64_t v[] = {0, 1, 1ull << 63, UINT64_MAX}; return v[r]; } };
template <> struct F<uint8_t> { static uint8_t at(int r) { static const uint8_t v[] = {0, 1, 128, 255}; return v[r]; } };
template <> struct F<int8_t> { static int8_t at(int r) { static const int8_t v[] = {-128, -1, 0, 127}; return v[r]; } };
template <> struct F<double> { static double at(int r) { static const double v[] = {-1e300, -0.25, 0.25, 1e300}; return v[r]; } };
template <> struct F<std::string> { static std::string at(int r) { static const std::string v[] = {"", "a", std::string("a\0b", 3), "\xff"}; return v[r]; } };
template <> struct F<long long> { static long long at(int r) { return F<int>::at(r); } };
template <> struct F<short> { static short at(int r) { static const short v[] = {-3, 0, 7, 99}; return v[r]; } };
template <> struct F<float> { static float at(int r) { return F<short>::at(r); } };
template <> struct F<std::string_view> { static std::string_view at(int r) { static const std::string v[] = {F<std::string>::at(0), F<std::string>::at(1), F<std::string>::at(2), F<std::string>::at(3)}; return v[r]; } };
struct OnlyLess { // ordered by < alone; == for the tuple
  int v;
  bool operator<(const OnlyLess &o) const { return v > o.v; } // rank order is the reverse of v
  bool operator==(const OnlyLess &o) const { return v == o.v; }
};
template <> struct F<OnlyLess> { static OnlyLess at(int r) { return {-r}; } };
template <> struct F<std::pair<int, int>> { static std::pair<int, int> at(int r) { static const std::pair<int, int> v[] = {{-5, 9}, {-5, 10}, {0, -10}, {3, 0}}; return v[r]; } };

template <class... T> struct Fam {};
template <class K, class... T, size_t... I> K mk(const int *r, std::index_sequence<I...>) { return K{F<T>::at(r[I])...}; }

template <class... A, class... B> void pairs(Fam<A...>, Fam<B...>, int ranks) {
  using KA = bt::compound_key<A...>;
  using KB = bt::compound_key<B...>;
  constexpr int n = sizeof...(A), m = sizeof...(B);
  int na = 1, nb = 1;
  for (int i = 0; i < n; i++) na *= ranks;
  for (int i = 0; i < m; i++) nb *= ranks;
  long total = (long)na * nb;
  for (long p = 0; p < total; p++) {
    if (total > 3000 && !FULL && (*G)(total) > 3000) continue;
    int ra[8], rb[8];
    long x = p % na, y = p / na;
    for (int i = n - 1; i >= 0; i--) { ra[i] = x % ranks; x /= ranks; }
    for (int i = m - 1; i >= 0; i--) { rb[i] = y % ranks; y /= ranks; }
    const KA a = mk<KA, A...>(ra, std::index_sequence_for<A...>());
    const KB b = mk<KB, B...>(rb, std::index_sequence_for<B...>());
    std::vector<int> va(ra, ra + n), vb(rb, rb + m);
    std::vector<int> res{a < b, a > b, a <= b, a >= b, a == b, a != b};
    R->ev("[\"cmp\"," + js(va) + "," + js(vb) + "," + js(res) + "]");
  }
}
// a key copied or assigned stands for the same fields
template <class... A> void same(Fam<A...>, int ranks) {
  using K = bt::compound_key<A...>;
  constexpr int n = sizeof...(A);
  for (int c = 0; c < 20; c++) {
    int ra[8], rb[8];
    for (int i = 0; i < n; i++) { ra[i] = (*G)(ranks); rb[i] = (*G)(ranks); }
    K a = mk<K, A...>(ra, std::index_sequence_for<A...>()), b = mk<K, A...>(rb, std::index_sequence_for<A...>());
    if (c & 1) b = a; else { K d(a); std::swap(b, d); }
    std::vector<int> va(ra, ra + n), res{a < b, a > b, a <= b, a >= b, a == b, a != b};
    R->ev("[\"same\"," + js(va) + "," + js(res) + "]");
  }
}
template <class... Fs> void family(const char *name, uint64_t seed, int ranks, Fs... fs) {
  R->begin(std::string(name) + "#" + std::to_string(seed), "\"n\":1");
  auto row = [&](auto f) { (pairs(f, fs, ranks), ...); };
  (row(fs), ...);
  (same(fs, ranks), ...);
  R->end();
}
template <class FA, class FB> void cross(const char *name, uint64_t seed, int ranks, FA fa, FB fb) {
  R->begin(std::string(name) + "#" + std::to_string(seed), "\"n\":1");
  pairs(fa, fb, ranks);
  pairs(fb, fa, ranks);
  R->end();
}

int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[2], 0, 10);
  FULL = atoi(argv[3]);
  Recorder r;
  Rng g(seed);
  R = &r;
  G = &g;
  using s = std::string;
  using P = std::pair<int, int>;
  std::vector<std::function<void()>> js{
      [&] { family("int", seed, 3, Fam<int>(), Fam<int, int>(), Fam<int, int, int>(), Fam<int, int, int, int>()); },
      [&] { family("int5", seed, 2, Fam<int>(), Fam<int, int, int, int, int>(), Fam<int, int, int, int, int, int>()); },
      [&] { family("int4", seed, 4, Fam<int>(), Fam<int, int>(), Fam<int, int, int>()); },
      [&] { family("u64", seed, 4, Fam<uint64_t>(), Fam<uint64_t, uint64_t>()); },
      [&] { family("i8u8", seed, 4, Fam<int8_t>(), Fam<int8_t, uint8_t>(), Fam<int8_t, uint8_t, int8_t>()); },
      [&] { family("str", seed, 4, Fam<s>(), Fam<s, s>(), Fam<s, s, s>()); },
      [&] { family("str-int-double", seed, 4, Fam<s>(), Fam<s, int>(), Fam<s, int, double>()); },
      [&] { family("double-u64", seed, 4, Fam<double>(), Fam<double, uint64_t>()); },
      [&] { family("onlyless", seed, 4, Fam<OnlyLess>(), Fam<OnlyLess, int>(), Fam<OnlyLess, int, OnlyLess>()); },
      [&] { family("pair", seed, 4, Fam<P>(), Fam<P, s>(), Fam<P, s, P>()); },
      [&] { cross("int-longlong", seed, 4, Fam<int, int>(), Fam<long long, int>()); },
      [&] { cross("int-longlong3", seed, 3, Fam<int, long long>(), Fam<long long, int, int>()); },
      [&] { cross("short-float", seed, 4, Fam<short, float>(), Fam<float, short>()); },
      [&] { cross("str-view", seed, 4, Fam<s, int>(), Fam<std::string_view, int>()); },
      [&] { cross("str-view1", seed, 4, Fam<s, int>(), Fam<std::string_view>()); },
  };
  run_jobs(r, (int)js.size(), 60, [&](int i) { js[i](); });
  dump(r, argv[1]);
}
