// The keys of the scenarios on the concurrent B+tree, and the fillers among them.
#pragma once
static constexpr int S = 1000;
static int key(int k) { return k * S; }
static int filler(int j) {
#if GAP == 0
  return NK * S + j;
#elif GAP == 1
  return -1 - j;
#else
  return (j % NK) * S + 1 + j / NK;
#endif
}
