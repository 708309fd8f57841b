// A cooperative scheduler for exploring interleavings of real code.
//
// The code under test is compiled with clang -fsanitize=thread (compile step
// only); vsched.cpp provides the __tsan_* callbacks, so every memory access and
// atomic operation of that code reaches the scheduler, which may switch to
// another fiber there.  Heap blocks allocated by the code under test live in an
// arena that never reuses memory within an execution: an access to a freed or
// foreign block is detected at once.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace vs {
constexpr long INF = 1L << 40;

struct Plan {
  enum Mode { SEGS, RANDOM, PCT } mode = SEGS;
  std::vector<std::pair<int, long>> segs; // thread, number of points
  uint64_t seed = 1;
  int inv_prob = 20;     // RANDOM: switch with probability 1/inv_prob
  int depth = 3;         // PCT: number of change points
  long expect = 500;     // PCT: length estimate
  bool tso = false;      // delay relaxed/release atomic stores in store buffers
};

struct Outcome {
  std::vector<char> hit; // per segment: was it cut short by its count?
  long points = 0;
  long switches = 0;
};

// Called (on whatever stack) when the execution must end: "uaf", "oob",
// "deadlock", "hang", ...  Must not return.
extern std::function<void(const std::string &)> on_report;

void exec_begin();                       // reset the arena
void main_on();                          // main runs code under test (no switching)
void main_off();
Outcome run(const Plan &, const std::vector<std::function<void()>> &threads);
void op_begin();                         // a fiber starts running code under test
void op_end();
void drain();                            // empty the store buffer
void point();                            // explicit scheduling point
int self();                              // 0: main
long live_blocks();                      // blocks allocated and not freed
long live_bytes();
long allocs();                           // blocks allocated so far in this execution
void set_threads(int n);                 // thread ids in use are 0..n
bool is_freed(const void *p);
bool in_arena_live(const void *p);
void set_quota(long maxbytes);
} // namespace vs
