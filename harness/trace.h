// Recording of executions as NDJSON traces, crash- and hang-proof: traces are
// produced by forked children into shared memory, so that what happened before
// a crash (or an assertion, sanitizer abort, or endless loop) is kept and ends
// with a "crash" / "hang" event, which no specification admits.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <vector>

namespace vt {

struct Shared {
  size_t len;        // bytes of finished traces
  size_t cur;        // bytes of the current trace (incl. finished ones)
  int next;          // index of the trace being produced
  int open;          // a trace is open
  int nev;           // events in the open trace
  long counters[16];
  char buf[1];
};

class Recorder {
public:
  Shared *sh;
  size_t cap;
  explicit Recorder(size_t cap_ = size_t(256) << 20) : cap(cap_) {
    sh = (Shared *)mmap(nullptr, cap, PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); exit(2); }
    memset(sh, 0, sizeof(Shared));
  }
  bool room(size_t n) const { return sizeof(Shared) + sh->cur + n + 64 < cap; }
  // no trace of a well-behaved implementation is anywhere near this long
  static constexpr size_t MAXTRACE = size_t(48) << 20;
  void raw(const char *s, size_t n) {
    if (!room(n)) { fprintf(stderr, "trace buffer full\n"); _exit(90); }
    if (sh->cur - sh->len + n > MAXTRACE) _exit(92);
    memcpy(sh->buf + sh->cur, s, n);
    sh->cur += n;
  }
  void raw(const std::string &s) { raw(s.data(), s.size()); }
  // header: extra JSON members, e.g. "\"n\":16"
  void begin(const std::string &id, const std::string &header) {
    sh->cur = sh->len;
    sh->nev = 0;
    raw("{\"id\":\"" + id + "\"," + header + ",\"ev\":[");
    sh->open = 1;
  }
  void ev(const std::string &json) {
    if (sh->nev) raw(",", 1);
    raw(json);
    sh->nev++;
  }
  void end() {
    raw("]}\n", 3);
    sh->len = sh->cur;
    sh->open = 0;
    sh->nev = 0;
  }
};

inline std::string js(long v) { return std::to_string(v); }
inline std::string js(const std::vector<int> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
  return s + "]";
}
inline std::string evj(const char *op, std::initializer_list<long> a) {
  std::string s = std::string("[\"") + op + "\"";
  for (long x : a) s += "," + std::to_string(x);
  return s + "]";
}

// Runs job(i) for i in [0,n) in forked children; a child does as many as it can.
// cpu_s: CPU seconds allowed per trace.
inline int run_jobs(Recorder &r, int n, double cpu_s,
                    const std::function<void(int)> &job, int max_crashes = 6) {
  int crashes = 0;
  r.sh->next = 0;
  while (r.sh->next < n) {
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      // keep the real code's stderr (assertions, sanitizer reports) short
      while (r.sh->next < n) {
        struct itimerval tv;
        memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = (long)cpu_s;
        tv.it_value.tv_usec = (long)((cpu_s - (long)cpu_s) * 1e6);
        setitimer(ITIMER_PROF, &tv, nullptr);
        job(r.sh->next);
        r.sh->next++;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 91) { // the job reported its own end
      r.sh->next++;
      if (++crashes >= max_crashes) break;
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 90) { r.sh->cur = r.sh->len; fprintf(stderr,"buffer full\n"); exit(2); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 92) { // runs away: keep its beginning
      size_t q = r.sh->len + 20000;
      while (memcmp(r.sh->buf + q, "],[\"", 4)) q++;
      r.sh->cur = q + 1;
    }
    bool hang = WIFEXITED(st) ? WEXITSTATUS(st) == 92 : WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
    char b[64];
    snprintf(b, sizeof b, "[\"%s\",%d]", hang ? "hang" : "crash",
             WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
    if (!r.sh->open) r.begin("outside-trace-" + std::to_string(r.sh->next), "\"n\":1");
    // drop a half-written event: cut back to the last complete one
    while (r.sh->cur > r.sh->len && r.sh->buf[r.sh->cur - 1] != ']' &&
           r.sh->buf[r.sh->cur - 1] != '[' )
      r.sh->cur--;
    r.ev(b);
    r.end();
    r.sh->next++;
    if (++crashes >= max_crashes) break;
  }
  return crashes;
}

inline void dump(Recorder &r, const char *path) {
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); exit(2); }
  fwrite(r.sh->buf, 1, r.sh->len, f);
  fclose(f);
}

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ULL + 12345) {}
  uint64_t operator()(uint64_t n) { return n ? g() % n : 0; }
  bool p(int pct) { return (int)(g() % 100) < pct; }
};

} // namespace vt
