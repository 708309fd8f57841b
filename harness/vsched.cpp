#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace vs {
std::function<void(const std::string &)> on_report;

// ------------------------------------------------------------------- arena
namespace {
constexpr size_t ARENA = size_t(64) << 20, GRAN = 16, RED = 16;
char *arena = nullptr;
uint32_t *blk_of = nullptr; // per granule: block number + 1, 0: none
size_t bump = 0;
long quota = 0;
struct Block {
  char *start;
  size_t size;
  bool freed, shared;
  int owner;
};
Block *blocks = nullptr;
constexpr size_t MAXBLOCKS = size_t(1) << 20;
size_t nblocks = 0;
long nlive = 0, blive = 0;

bool active = false;    // code under test is running
int cur = 0;            // 0: main

void init_arena() {
  if (arena) return;
  auto map = [](size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
  };
  arena = (char *)map(ARENA);
  blk_of = (uint32_t *)map(ARENA / GRAN * sizeof(uint32_t));
  blocks = (Block *)map(MAXBLOCKS * sizeof(Block));
}
inline bool in_arena(const void *p) { return (size_t)((char *)p - arena) < ARENA && arena; }

[[noreturn]] void report(const std::string &s) {
  active = false;
  if (getenv("VS_ABORT")) { fprintf(stderr, "REPORT %s\n", s.c_str()); abort(); }
  on_report(s);
  abort();
}

void *arena_alloc(size_t n, size_t align) {
  init_arena();
  if (align < GRAN) align = GRAN;
  size_t at = (bump + align - 1) / align * align;
  size_t sz = (n + GRAN - 1) / GRAN * GRAN;
  if (!sz) sz = GRAN;
  if (at + sz + RED > ARENA || nblocks + 1 >= MAXBLOCKS || (quota && blive + (long)n > quota)) report("memory");
  bump = at + sz + RED;
  Block &b = blocks[nblocks++];
  b = {arena + at, n, false, false, cur};
  for (size_t g = at / GRAN; g < (at + sz) / GRAN; g++) blk_of[g] = nblocks;
  memset(arena + at, 0xCD, sz);
  nlive++;
  blive += n;
  return arena + at;
}
void arena_free(void *p) {
  uint32_t id = blk_of[((char *)p - arena) / GRAN];
  if (!id) report("free of a foreign address");
  Block &b = blocks[id - 1];
  if (b.start != p) report("free inside a block");
  if (b.freed) report("double free");
  b.freed = true;
  memset(b.start, 0xDD, b.size);
  nlive--;
  blive -= b.size;
}

// ------------------------------------------------------------------- fibers
struct EhGlobals { void *caught; unsigned uncaught; };
extern "C" EhGlobals *__cxa_get_globals();

struct StoreBuf { char *a; uint64_t v; int n; };
struct StoreQueue { // no allocation: it would land in the arena
  static constexpr int CAP = 8;
  StoreBuf q[CAP];
  int n = 0;
  bool empty() const { return !n; }
  int size() const { return n; }
  StoreBuf &front() { return q[0]; }
  void pop() { for (int i = 1; i < n; i++) q[i - 1] = q[i]; n--; }
  void push_back(const StoreBuf &s) { q[n++] = s; }
  void clear() { n = 0; }
  StoreBuf *begin() { return q; }
  StoreBuf *end() { return q + n; }
};
struct Range { char *a; size_t n; };
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  const std::function<void()> *fn = nullptr;
  enum { READY, BLOCKED, DONE } st = DONE;
  long *waiting = nullptr;
  bool active = false;
  bool after_write = false;
  EhGlobals eh{nullptr, 0};
  long streak = 0;      // points since it was switched to
  long prio = 0;
  StoreQueue sb;
  Range by[32];         // plain writes that took effect while older stores were buffered
  int nby = 0;
};
constexpr int MAXF = 8;
constexpr size_t STACK = 256 * 1024;
Fiber fib[MAXF + 1];
int nfib = 0;
int top_thread = 0;
void *main_sp;
EhGlobals main_eh;

Plan plan;
Outcome out;
size_t seg;
long seg_used;
uint64_t rng_s;
long low_prio;
std::vector<long> change;
constexpr long SPIN = 1500, L1 = 60000, L2 = 400000;

uint64_t rnd() {
  rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17;
  return rng_s;
}

extern "C" void vs_switch(void **save, void *to);
asm(".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size vs_switch,.-vs_switch\n");

void flush_one(Fiber &f) {
  StoreBuf s = f.sb.front();
  f.sb.pop();
  memcpy(s.a, &s.v, s.n);
  if (f.sb.empty()) f.nby = 0;
}
void flush(Fiber &f) { while (!f.sb.empty()) flush_one(f); }
inline void flush_self() { if (!fib[cur].sb.empty()) flush(fib[cur]); }

void jump(int to) { // to == 0: main
  if (to == cur) return;
  int from = cur;
  Fiber &f = fib[from];
  EhGlobals *g = __cxa_get_globals();
  f.active = active;
  f.eh = *g;
  *g = fib[to].eh;
  cur = to;
  active = fib[to].active;
  fib[to].streak = 0;
  out.switches++;
  vs_switch(&f.sp, fib[to].sp);
}

bool runnable(int t) { return t >= 1 && t <= nfib && fib[t].st == Fiber::READY; }
int lowest() {
  for (int t = 1; t <= nfib; t++) if (runnable(t)) return t;
  return 0;
}
int others() {
  int n = 0;
  for (int t = 1; t <= nfib; t++) if (t != cur && runnable(t)) n++;
  return n;
}
int next_rr() {
  for (int d = 1; d <= nfib; d++) {
    int t = (cur - 1 + d) % nfib + 1;
    if (runnable(t)) return t;
  }
  return 0;
}
int best_prio() {
  int b = 0;
  for (int t = 1; t <= nfib; t++)
    if (runnable(t) && (!b || fib[t].prio > fib[b].prio)) b = t;
  return b;
}
int random_other() {
  int n = others();
  if (!n) return runnable(cur) ? cur : 0;
  int k = rnd() % n;
  for (int t = 1; t <= nfib; t++)
    if (t != cur && runnable(t) && k-- == 0) return t;
  return cur;
}

// the current fiber cannot go on (finished, blocked or yielding): who is next?
int pick_next() {
  switch (plan.mode) {
  case Plan::SEGS:
    while (++seg < plan.segs.size()) {
      seg_used = 0;
      if (runnable(plan.segs[seg].first) && plan.segs[seg].first != cur) return plan.segs[seg].first;
    }
    return next_rr();
  case Plan::RANDOM: {
    int t = random_other();
    return t ? t : lowest();
  }
  case Plan::PCT: return best_prio();
  }
  return lowest();
}

void blocked_or_done() {
  int t = pick_next();
  if (!t) {
    bool all = true;
    for (int i = 1; i <= nfib; i++) if (fib[i].st != Fiber::DONE) all = false;
    if (!all) report("deadlock");
    jump(0);
    return;
  }
  jump(t);
}

void do_point(bool yield = false) {
  if (cur == 0) return;
  Fiber &me = fib[cur];
  out.points++;
  me.streak++;
  if (out.points > L2) report("hang");
  if (plan.tso) {
    for (int t = 1; t <= nfib; t++)
      if (!fib[t].sb.empty() && plan.mode != Plan::SEGS && rnd() % 8 == 0) flush_one(fib[t]);
  }
  if (yield || me.streak > SPIN || (out.points > L1 && me.streak > 60)) {
    flush(me);
    if (out.points > L1) { int t = next_rr(); if (t) jump(t); return; }
    if (plan.mode == Plan::PCT) me.prio = --low_prio;
    me.streak = 0;
    if (!others()) return;
    int t = pick_next();
    if (t && t != cur) jump(t);
    return;
  }
  switch (plan.mode) {
  case Plan::SEGS:
    if (seg < plan.segs.size() && plan.segs[seg].first == cur) {
      if (seg_used++ < plan.segs[seg].second) return;
      out.hit[seg] = 1;
      while (++seg < plan.segs.size()) {
        seg_used = 0;
        if (runnable(plan.segs[seg].first)) {
          jump(plan.segs[seg].first);
          return;
        }
      }
      int t = next_rr();
      if (t) jump(t);
    }
    return;
  case Plan::RANDOM:
    if (rnd() % plan.inv_prob == 0) { int t = random_other(); if (t) jump(t); }
    return;
  case Plan::PCT:
    for (long c : change) if (c == out.points) me.prio = --low_prio;
    { int t = best_prio(); if (t) jump(t); }
    return;
  }
}

extern "C" void vs_fiber_main() {
  (*fib[cur].fn)();
  Fiber &f = fib[cur];
  active = false;
  flush(f);
  f.st = Fiber::DONE;
  blocked_or_done();
  abort();
}
asm(".text\n.globl vs_tramp\nvs_tramp:\n  subq $8,%rsp\n  call vs_fiber_main\n");
extern "C" void vs_tramp();

// ------------------------------------------------------------------- accesses
inline Block *locate(char *a, size_t n) {
  uint32_t id = blk_of[(a - arena) / GRAN];
  if (!id) report("access outside any block");
  Block &b = blocks[id - 1];
  if (a < b.start || a + n > b.start + b.size) report("access beyond a block");
  return &b;
}
inline void check(Block *b) {
  if (b->freed) report("uaf");
}
// A plain write made behind buffered stores is in memory already, which no other
// thread may see before those stores: whoever looks at it drains them first.
inline void settle(void *p, size_t n) {
  for (int t = 1; t <= nfib; t++)
    if (t != cur)
      for (int i = 0; i < fib[t].nby; i++)
        if (fib[t].by[i].a < (char *)p + n && (char *)p < fib[t].by[i].a + fib[t].by[i].n) { flush(fib[t]); break; }
}
bool buffered(int t, void *p, size_t n) {
  for (auto &s : fib[t].sb)
    if (s.a < (char *)p + n && (char *)p < s.a + s.n) return true;
  return false;
}
inline void access(void *p, size_t n, bool w) {
  if (!active || !in_arena(p) || !n) return;
  Block *b = locate((char *)p, n);
  check(b);
  if (cur == 0) return;
  Fiber &f = fib[cur];
  if (b->owner != cur) b->shared = true;
  if (b->shared || f.after_write) {
    f.after_write = false;
    do_point();
    check(b);
  }
  if (w && b->shared) fib[cur].after_write = true;
  if (!plan.tso) return;
  settle(p, n);
  Fiber &me = fib[cur];
  if (me.sb.empty()) return;
  if (buffered(cur, p, n)) { flush_self(); return; }
  if (!w) return;
  for (int t = 1; t <= nfib; t++)
    if (t != cur && buffered(t, p, n)) { flush_self(); return; }
  for (int i = 0; i < me.nby; i++)
    if (me.by[i].a <= (char *)p && (char *)p + n <= me.by[i].a + me.by[i].n) return;
  if (me.nby == 32) { flush_self(); return; }
  me.by[me.nby++] = {(char *)p, n};
}
// an atomic access; returns true if a store may be buffered
inline void atomic_access(void *p, size_t n, bool w) {
  if (!active) return;
  Block *b = in_arena(p) ? locate((char *)p, n) : nullptr;
  if (b) check(b);
  if (cur == 0) return;
  Fiber &f = fib[cur];
  if (b && b->owner != cur) b->shared = true;
  if (!b || b->shared || f.after_write) {
    f.after_write = false;
    do_point();
    if (b) check(b);
  }
  if (w && (!b || b->shared)) fib[cur].after_write = true;
  if (plan.tso) settle(p, n);
}
} // namespace

void exec_begin() {
  init_arena();
  memset(blk_of, 0, (bump / GRAN + 2) * sizeof(uint32_t));
  bump = 0;
  nblocks = 0;
  nlive = blive = 0;
  cur = 0;
  active = false;
}
void main_on() { active = true; }
void main_off() { active = false; }
void op_begin() { do_point(); active = true; }
void op_end() { active = false; fib[cur].after_write = false; }
void point() { do_point(); }
void drain() { if (cur) flush_self(); }
int self() { return cur; }
long live_blocks() { return nlive; }
long live_bytes() { return blive; }
long allocs() { return nblocks; }
void set_threads(int n) { top_thread = n; }
void set_quota(long q) { quota = q; }
bool is_freed(const void *p) {
  if (!in_arena(p)) return false;
  uint32_t id = blk_of[((char *)p - arena) / GRAN];
  return !id || blocks[id - 1].freed;
}
bool in_arena_live(const void *p) { return in_arena(p) && !is_freed(p); }

// Live blocks not reachable (conservatively) from root: lost memory.
long unreachable(const void *root) {
  if (!in_arena(root)) return nlive;
  std::vector<uint32_t> todo;
  std::vector<char> mark(nblocks + 1, 0);
  auto visit = [&](uint64_t w) {
    char *q = (char *)w;
    if (!in_arena(q)) return;
    uint32_t id = blk_of[(q - arena) / GRAN];
    if (!id || blocks[id - 1].freed || mark[id]) return;
    mark[id] = 1;
    todo.push_back(id);
  };
  visit((uint64_t)root);
  while (!todo.empty()) {
    Block b = blocks[todo.back() - 1];
    todo.pop_back();
    for (size_t i = 0; i + 8 <= (b.size + 7) / 8 * 8; i += 8) {
      uint64_t w;
      memcpy(&w, b.start + i, 8);
      visit(w);
    }
  }
  long n = 0;
  for (size_t i = 1; i <= nblocks; i++) if (!blocks[i - 1].freed && !mark[i]) n++;
  if (n && getenv("VS_ABORT"))
    for (size_t i = 1; i <= nblocks; i++) if (!blocks[i - 1].freed && !mark[i])
      fprintf(stderr, "lost block %zu of %zu bytes, owner %d\n", i, blocks[i - 1].size, blocks[i - 1].owner);
  return n;
}

Outcome run(const Plan &p, const std::vector<std::function<void()>> &threads) {
  plan = p;
  out = Outcome();
  out.hit.assign(p.segs.size(), 0);
  nfib = threads.size();
  top_thread = nfib;
  rng_s = p.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  for (int i = 0; i < 4; i++) rnd();
  low_prio = 0;
  change.clear();
  for (int t = 1; t <= nfib; t++) {
    Fiber &f = fib[t];
    if (!f.stack) {
      f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      mprotect(f.stack, 4096, PROT_NONE);
    }
    f.fn = &threads[t - 1];
    f.st = Fiber::READY;
    f.waiting = nullptr;
    f.active = false;
    f.after_write = false;
    f.eh = {nullptr, 0};
    f.streak = 0;
    f.sb.clear();
    f.nby = 0;
    uint64_t *sp = (uint64_t *)(f.stack + STACK - 64);
    *--sp = 0;
    *--sp = (uint64_t)(void *)vs_tramp; // return address
    for (int i = 0; i < 6; i++) *--sp = 0;
    f.sp = sp;
    f.prio = 1000000 + (long)(rnd() % 100000);
  }
  if (plan.mode == Plan::PCT)
    for (int i = 0; i < plan.depth; i++) change.push_back(1 + rnd() % (plan.expect > 0 ? plan.expect : 1));
  seg = 0;
  seg_used = 0;
  int first;
  if (plan.mode == Plan::SEGS && !plan.segs.empty()) first = plan.segs[0].first;
  else if (plan.mode == Plan::PCT) first = best_prio();
  else first = 1 + rnd() % nfib;
  jump(first);
  active = false;
  return out;
}
} // namespace vs

using namespace vs;

// ------------------------------------------------------------------- mutexes etc.
extern "C" {
static void touch(void *w) {
  if (active && in_arena(w)) check(locate((char *)w, 1));
}
void vs_mutex_lock(long *w) {
  touch(w);
  if (cur) {
    flush_self();
    do_point();
    touch(w);
  }
  while (*w) {
    if (!cur) report("deadlock");
    if (*w == cur) { /* self-deadlock: nobody else can release it */ }
    fib[cur].st = Fiber::BLOCKED;
    fib[cur].waiting = w;
    blocked_or_done();
    touch(w);
  }
  *w = cur + 1;
  if (cur) fib[cur].after_write = true;
}
bool vs_mutex_try_lock(long *w) {
  touch(w);
  if (cur) { flush_self(); do_point(); touch(w); }
  if (*w) return false;
  *w = cur + 1;
  if (cur) fib[cur].after_write = true;
  return true;
}
void vs_mutex_unlock(long *w) {
  touch(w);
  if (cur) { flush_self(); do_point(); touch(w); }
  if (!*w) report("unlock of an unlocked mutex");
  *w = 0;
  for (int t = 1; t <= nfib; t++)
    if (fib[t].st == Fiber::BLOCKED && fib[t].waiting == w) { fib[t].st = Fiber::READY; fib[t].waiting = nullptr; }
  if (cur) fib[cur].after_write = true;
}
bool vs_mutex_is_locked(long *w) {
  touch(w);
  if (cur) do_point();
  return *w;
}
int vs_thread_id() { return cur; }
int vs_max_thread_id() { return top_thread; }

int pthread_mutex_lock(pthread_mutex_t *m) { vs_mutex_lock((long *)m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { return vs_mutex_try_lock((long *)m) ? 0 : 16; }
int pthread_mutex_unlock(pthread_mutex_t *m) { vs_mutex_unlock((long *)m); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { if (cur && active) do_point(true); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (cur && active) do_point(true); return 0; }
int usleep(useconds_t) { if (cur && active) do_point(true); return 0; }
int sched_yield() noexcept { if (cur && active) do_point(true); return 0; }

// ------------------------------------------------------------------- __tsan_*
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n)                                                                  \
  void __tsan_read##n(void *p) { access(p, n, false); }                         \
  void __tsan_write##n(void *p) { access(p, n, true); }                         \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }               \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); }               \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }                \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); }                \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }      \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }      \
  void __tsan_read_write##n(void *p) { access(p, n, true); }                    \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  access((void *)s, n, false); access(d, n, true);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  access((void *)s, n, false); access(d, n, true);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }

static inline bool relaxed_store(int mo) { return mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE; }
#define ATOMIC(bits, T)                                                                        \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                                     \
    T *p = (T *)a;                                                                             \
    atomic_access(p, sizeof(T), false);                                                        \
    if (cur && plan.tso)                                                                       \
      for (StoreBuf *i = fib[cur].sb.end(); i-- != fib[cur].sb.begin();) {                     \
        if (i->a == (char *)p && i->n == sizeof(T)) { T v; memcpy(&v, &i->v, sizeof v); return v; } \
        if (i->a < (char *)p + sizeof(T) && (char *)p < i->a + i->n) { flush_self(); break; }  \
      }                                                                                        \
    return *p;                                                                                 \
  }                                                                                            \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                               \
    T *p = (T *)a;                                                                             \
    atomic_access(p, sizeof(T), true);                                                         \
    if (active && cur && plan.tso && relaxed_store(mo) && sizeof(T) <= 8) {                    \
      if (fib[cur].sb.size() >= StoreQueue::CAP) flush_one(fib[cur]);                                        \
      StoreBuf s{(char *)p, 0, (int)sizeof(T)};                                                \
      memcpy(&s.v, &v, sizeof(T));                                                             \
      fib[cur].sb.push_back(s);                                                                \
      return;                                                                                  \
    }                                                                                          \
    flush_self();                                                                              \
    *p = v;                                                                                    \
  }                                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                  \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = v; return o;                                                                \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                 \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = o + v; return o;                                                            \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                 \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = o - v; return o;                                                            \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                 \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = o & v; return o;                                                            \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                  \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = o | v; return o;                                                            \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                 \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = o ^ v; return o;                                                            \
  }                                                                                            \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) {                                \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; *p = ~(o & v); return o;                                                         \
  }                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {      \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    if (*p == *c) { *p = v; return 1; }                                                        \
    *c = *p; return 0;                                                                         \
  }                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) {    \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                       \
  }                                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {            \
    T *p = (T *)a; atomic_access(p, sizeof(T), true); flush_self();                            \
    T o = *p; if (o == c) *p = v; return o;                                                    \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
ATOMIC(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo) {
  if (active && cur && mo == __ATOMIC_SEQ_CST) { do_point(); flush_self(); }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------------------- new/delete
static void *do_new(size_t n, size_t al) {
  if (active) return arena_alloc(n, al);
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void do_delete(void *p) {
  if (!p) return;
  if (in_arena(p)) {
    if (cur && active) {
      uint32_t id = blk_of[((char *)p - arena) / GRAN];
      if (id && (blocks[id - 1].shared || blocks[id - 1].owner != cur)) do_point();
    }
    arena_free(p);
  } else free(p);
}
void *operator new(size_t n) { return do_new(n, 16); }
void *operator new[](size_t n) { return do_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
