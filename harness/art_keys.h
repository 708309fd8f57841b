// Sets of 64-bit keys that exercise the radix trees: byte b of a key decides
// level b, lowest byte first.
#pragma once
#include "trace.h"
#include <algorithm>
#include <set>
namespace artk {
using vt::Rng;
inline uint64_t byte_at(int level, int v) { return (uint64_t)(uint8_t)v << (8 * level); }

inline std::vector<uint64_t> universe(Rng &g) {
  std::vector<uint64_t> u;
  auto fill = [&](size_t n, auto f) { std::set<uint64_t> s; for (int t = 0; s.size() < n && t < 40 * (int)n; t++) s.insert(f()); u.assign(s.begin(), s.end()); };
  uint64_t any = g.g();
  switch (g(10)) {
  case 0: { int n = 20 + g(60); for (int i = 0; i < n; i++) u.push_back(i); break; }
  case 1: fill(60, [&] { return g.g(); }); break;
  case 2: { // few values per byte: deep, shared prefixes
    int lv = 2 + g(2);
    fill(70, [&] { uint64_t k = 0; for (int b = 0; b < 8; b++) k |= byte_at(b, g(lv) ? 0 : 1 + g(2)); return k; });
    break; }
  case 3: { // one node that grows and shrinks through all sizes, at some level
    static const int ns[] = {5, 6, 16, 17, 18, 20, 48, 49, 50, 60};
    int n = ns[g(10)], lv = g(8), st = g(256);
    for (int i = 0; i < n; i++) {
      uint64_t k = any & ~byte_at(lv, 255);
      if (g.p(30)) for (int b = lv + 1; b < 8; b++) k ^= byte_at(b, g(2));
      u.push_back(k | byte_at(lv, st + i * 3));
    }
    break; }
  case 4: { // nested nodes on two levels
    int l1 = g(7), l2 = l1 + 1 + g(7 - l1), n1 = 3 + g(6), n2 = 3 + g(18);
    uint64_t base = any & ~byte_at(l1, 255) & ~byte_at(l2, 255);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) u.push_back(base | byte_at(l1, i) | byte_at(l2, j));
    break; }
  case 5: { // extremes and single bits
    u = {0, ~0ull, ~0ull - 1, 1ull << 63, ~(1ull << 63)};
    for (int b = 0; b < 64; b += 1 + g(3)) { u.push_back(1ull << b); u.push_back(~0ull ^ (1ull << b)); }
    break; }
  case 6: { // every child of a node, high bytes included
    int lv = g(8);
    for (int i = 0; i < 256; i++) u.push_back((any & ~byte_at(lv, 255)) | byte_at(lv, i));
    break; }
  case 7: { // a chain of prefixes: keys that part from one key at every level
    u.push_back(any);
    for (int b = 0; b < 8; b++) { int n = 1 + g(7); for (int j = 1; j <= n; j++) { uint64_t k = any ^ byte_at(b, j * 37); if (g.p(50) && b < 7) k ^= (g.g() << (8 * b + 8)); u.push_back(k); } }
    break; }
  case 8: { // groups with a common prefix of every length, branching below
    for (int p = 0; p < 7; p++) { uint64_t pre = g.g() & ((1ull << (8 * p)) - 1); int n = 2 + g(9); for (int j = 0; j < n; j++) u.push_back(pre | byte_at(p, 200 + j) | (p < 6 ? byte_at(p + 1, g(3)) : 0)); }
    break; }
  case 9: { // three levels of small nodes
    int a = g(6), b = a + 1, c = b + 1 + g(7 - b);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) for (int k = 0; k < 3; k++) u.push_back(byte_at(a, i * 9) | byte_at(b, j) | byte_at(c, 255 - k));
    break; }
  }
  std::sort(u.begin(), u.end());
  u.erase(std::unique(u.begin(), u.end()), u.end());
  for (size_t i = u.size(); i > 1; i--) std::swap(u[i - 1], u[g(i)]);
  return u;
}
} // namespace artk
