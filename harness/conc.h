// Exploration of the interleavings of a scenario on a concurrent dictionary.
// A scenario is a line of text:
//   name | strategy | setup operations | thread 1 | thread 2 ...
// with operations i<k> (Insert), u<k> (Upsert), p<k> (Update), s<k> (Search),
// d<k> (Delete), F/B (forward/backward scan), L/U<k> (scan from a lower/upper bound),
// R<abq> (range from a to b; q: 1 with a, 2 with b, 4 backward), Y<k>/Z (scans to and fro), g (reclaim), r<n> (reserve),
// n (no operation); a value is made up for each insertion, upsert and update.
// Strategies: s<b> all schedules with at most b preemptions (b = 0..2)
//             x<n> n schedules with 2 preemptions at random points
//             r<n> n random schedules, c<n> n PCT schedules; suffix t: store buffers
#pragma once
#include "trace.h"
#include "vsched.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

namespace conc {
struct Op { char kind; int k; int v; };
struct Scenario {
  std::string name, strategy;
  std::vector<Op> setup;
  std::vector<std::vector<Op>> th;
};
inline std::vector<Op> parse_ops(const std::string &s, int &val) {
  std::istringstream in(s);
  std::string w;
  std::vector<Op> r;
  while (in >> w) {
    Op o{w[0], w.size() > 1 ? atoi(w.c_str() + 1) : 0, 0};
    if (strchr("iup", o.kind)) o.v = ++val;
    r.push_back(o);
  }
  return r;
}
inline std::string strip(std::string s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::vector<Scenario> load(const char *file) {
  std::ifstream f(file);
  std::string line;
  std::vector<Scenario> r;
  while (std::getline(f, line)) {
    if (strip(line).empty() || line[0] == '#') continue;
    std::vector<std::string> part;
    std::istringstream in(line);
    std::string p;
    while (std::getline(in, p, '|')) part.push_back(strip(p));
    Scenario s;
    int val = 0;
    s.name = part[0];
    s.strategy = part[1];
    s.setup = parse_ops(part[2], val);
    for (size_t i = 3; i < part.size(); i++) s.th.push_back(parse_ops(part[i], val));
    r.push_back(s);
  }
  return r;
}

inline std::string segs_id(const vs::Plan &p) {
    std::string s;
    for (auto &x : p.segs) s += (s.empty() ? "" : ".") + std::to_string(x.first) + "x" + (x.second >= vs::INF ? "inf" : std::to_string(x.second));
    return s;
  }
// Runs exec under every schedule the scenario's strategy asks for.
inline void drive(const Scenario &sc, uint64_t seed,
                  const std::function<vs::Outcome(const vs::Plan &, const std::string &)> &exec) {
  bool tso = sc.strategy.back() == 't';
  char kind = sc.strategy[0];
  long num = atol(sc.strategy.c_str() + 1);
  int T = sc.th.size();
  vs::Plan p;
  p.tso = tso;
  std::string ts = tso ? "t" : "";
  if (kind == 's') {
    p.mode = vs::Plan::SEGS;
    // every order of the threads, run one after the other
    std::vector<int> perm;
    for (int t = 1; t <= T; t++) perm.push_back(t);
    do {
      p.segs.clear();
      for (int t : perm) p.segs.push_back({t, vs::INF});
      exec(p, "s0:" + segs_id(p) + ts);
    } while (std::next_permutation(perm.begin(), perm.end()));
    for (int x = 1; num >= 1 && x <= T; x++)
      for (int y = 1; y <= T; y++) {
        if (x == y) continue;
        // the threads not mentioned run afterwards
        for (long i = 0;; i++) {
          p.segs = {{x, i}, {y, vs::INF}, {x, vs::INF}};
          auto o = exec(p, "s1:" + segs_id(p) + ts);
          if (!o.hit[0]) break;
          if (T > 2) { // a third thread between
            for (int z = 1; z <= T; z++)
              if (z != x && z != y) {
                p.segs = {{x, i}, {y, vs::INF}, {z, vs::INF}, {x, vs::INF}};
                exec(p, "s1:" + segs_id(p) + ts);
              }
          }
          if (num >= 2)
            for (long j = 1;; j++) {
              p.segs = {{x, i}, {y, j}, {x, vs::INF}, {y, vs::INF}};
              auto o2 = exec(p, "s2:" + segs_id(p) + ts);
              if (o2.hit.size() < 2 || !o2.hit[1]) break;
              if (T > 2)
                for (int z = 1; z <= T; z++)
                  if (z != x && z != y) {
                    p.segs = {{x, i}, {y, j}, {z, vs::INF}, {x, vs::INF}, {y, vs::INF}};
                    exec(p, "s2:" + segs_id(p) + ts);
                    p.segs = {{x, i}, {y, j}, {z, vs::INF}, {y, vs::INF}, {x, vs::INF}};
                    exec(p, "s2:" + segs_id(p) + ts);
                  }
            }
        }
      }
  } else if (kind == 'x') {
    vt::Rng g(seed);
    // lengths of the threads when run alone, in both orders
    long len = 400;
    for (long n = 0; n < num; n++) {
      p.mode = vs::Plan::SEGS;
      p.segs.clear();
      int np = 2 + g(2);
      int t = 1 + g(T);
      for (int i = 0; i < np; i++) {
        p.segs.push_back({t, (long)g(len)});
        int u = 1 + g(T - 1 ? T - 1 : 1);
        if (u >= t) u++;
        t = u > T ? 1 : u;
      }
      p.segs.push_back({t, vs::INF});
      auto o = exec(p, "x:" + segs_id(p) + ts);
      len = std::max(20L, (len * 7 + o.points / T) / 8 + 1);
    }
  } else {
    vt::Rng g(seed);
    long len = 300;
    for (long n = 0; n < num; n++) {
      p.mode = kind == 'c' ? vs::Plan::PCT : vs::Plan::RANDOM;
      p.seed = seed * 1000003 + n;
      p.inv_prob = 3 + g(60);
      p.depth = 1 + g(4);
      p.expect = len;
      auto o = exec(p, std::string(1, kind) + std::to_string(n) + ts);
      len = (len * 7 + o.points) / 8 + 1;
    }
  }
}

// A is the adapter of a map: A(), ins, ups, upd, sea, del (k, v), each returning
// what the specification calls the result; reclaim(); N keys; scan(kind, k, yield, turn);
// final(): contents as seen by one thread; see conc_*.cpp.
template <typename A> class Explorer {
public:
  vt::Recorder &r;
  const Scenario &sc;
  uint64_t seed;
  std::unordered_set<std::string> seen, names;
  std::string hist;
  long execs = 0, points = 0, maxpoints = 0;
  A *a = nullptr;
  std::string prefix;

  Explorer(vt::Recorder &rr, const Scenario &s, uint64_t sd) : r(rr), sc(s), seed(sd) {}

  bool quiet = false; // only what is left in the end is wanted
  void ev(const std::string &e) {
    if (quiet) return;
    hist += e;
    r.ev(e);
  }

  void call(int t, const Op &o) {
    if (o.kind == 'n') return;
    vs::op_begin();
    switch (o.kind) {
    case 'i': case 'u': case 'p': case 's': case 'd': {
      const char *nm = o.kind == 'i' ? "ins" : o.kind == 'u' ? "ups" : o.kind == 'p' ? "upd" : o.kind == 's' ? "sea" : "del";
      record([&] { ev(std::string("[\"c\",") + vt::js(t) + ",\"" + nm + "\"," + vt::js(o.k) + "," + vt::js(o.v) + "]"); });
      long res = o.kind == 'i' ? a->ins(o.k, o.v) : o.kind == 'u' ? a->ups(o.k, o.v)
               : o.kind == 'p' ? a->upd(o.k, o.v) : o.kind == 's' ? a->sea(o.k) : a->del(o.k);
      vs::op_end();
      ev(std::string("[\"r\",") + vt::js(t) + "," + vt::js(res) + "]");
      return;
    }
    case 'F': case 'B': case 'L': case 'U': case 'R': case 'Y': case 'Z': {
      // which keys the scan is to visit
      bool fwd = o.kind == 'R' ? !(o.k & 4) : o.kind != 'B' && o.kind != 'Z';
      int lo = 0, hi = A::N - 1;
      if (o.kind == 'L' || o.kind == 'Y') lo = o.k;
      if (o.kind == 'U') lo = o.k + 1;
      if (o.kind == 'R') lo = o.k / 100 + !(o.k & 1), hi = o.k / 10 % 10 - !(o.k & 2);
      record([&] { ev(std::string("[\"sb\",") + vt::js(t) + ",\"" + (fwd ? "f" : "b") + "\"," + vt::js(lo) + "," + vt::js(hi) + "]"); });
      auto yield = [&](long k, long v) {
        record([&] { ev(std::string("[\"sy\",") + vt::js(t) + "," + vt::js(k) + "," + vt::js(v) + "]"); });
      };
      auto turn = [&] { record([&] { ev(std::string("[\"st\",") + vt::js(t) + "]"); }); };
      a->scan(o.kind, o.k, yield, turn);
      vs::op_end();
      ev(std::string("[\"se\",") + vt::js(t) + "]");
      return;
    }
    case 'g': a->reclaim(); break;
    case 'r': a->reserve(o.k); break;
    }
    vs::op_end();
  }
  template <typename F> void record(F f) {
    vs::main_off();   // the harness's own work is not part of the execution
    f();
    vs::main_on();
  }

  vs::Outcome exec(const vs::Plan &p, const std::string &id) {
    hist.clear();
    std::map<int, int> ref;
    vs::exec_begin();
    vs::set_threads(sc.th.size());
    vs::main_on();
    a = new A();
    a->ctor();
    std::string init = "[";
    bool ok = true;
    for (auto &o : sc.setup) {
      long res = -9, want = -9;
      bool have;
      int old = -1;
      record([&] { have = ref.count(o.k); if (have) old = ref[o.k]; });
      switch (o.kind) {
      case 'i': res = a->ins(o.k, o.v); want = !have; if (!have) record([&] { ref[o.k] = o.v; }); break;
      case 'u': res = a->ups(o.k, o.v); want = old; record([&] { ref[o.k] = o.v; }); break;
      case 'p': res = a->upd(o.k, o.v); want = old; if (have) record([&] { ref[o.k] = o.v; }); break;
      case 'd': res = a->del(o.k); want = old; record([&] { ref.erase(o.k); }); break;
      case 'r': a->reserve(o.k); break;
      case 'g': a->reclaim(); break;
      }
      if (res != want) ok = false;
    }
    vs::main_off();
    for (int k = 0; k < A::N; k++) init += (k ? "," : "") + vt::js(ref.count(k) ? ref[k] : -1);
    r.begin(prefix + id + (names.insert(id).second ? "" : "#" + std::to_string(execs)), "\"n\":" + vt::js(A::N) + ",\"th\":" + vt::js((long)sc.th.size()) + ",\"init\":" + init + "]");
    if (!ok) ev("[\"setup\"]");
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < sc.th.size(); t++)
      fs.push_back([this, t] {
        for (auto &o : sc.th[t]) call((int)t + 1, o);
      });
#ifdef CONC_SHAPE
    quiet = true;
#endif
    vs::Outcome o = vs::run(p, fs);
    execs++;
    points += o.points;
    if (o.points > maxpoints) maxpoints = o.points;
    // what is left, seen by one thread
    vs::set_threads(sc.th.size());
    std::string fin = "[\"fin\",[";
    vs::main_on();
    std::vector<int> left;
    for (int k = 0; k < A::N; k++) {
      long v = a->sea(k);
      record([&] { fin += (k ? "," : "") + vt::js(v); if (v != -1) left.push_back(k); });
    }
    long n = a->size();
    vs::main_off();
    ev(fin + "]," + vt::js(n) + "]");
    vs::main_on();
    a->final([&](bool fwd, const std::vector<int> &ks, const std::vector<int> &vs) {
      record([&] { ev(std::string("[\"scan\",\"") + (fwd ? "f" : "r") + "\"," + vt::js(ks) + "," + vt::js(vs) + "]"); });
    });
#ifdef CONC_SHAPE
    quiet = false;
    record([&] { a->shape(left, [&](const std::string &e) { ev(e); }); });
#endif
    if (execs % 2) {  // destroyed with objects still retired, otherwise
      a->reclaim();
      vs::main_off();
      long lk = leaked();
      if (lk) ev("[\"leak\"," + vt::js(lk) + "]");
    }
    vs::main_off();
    if (A::DTOR) {
      vs::main_on();
      a->dtor();
      delete a;
      vs::main_off();
      if (vs::live_blocks()) ev("[\"leak\"," + vt::js(vs::live_blocks()) + "]");
    }
    if (seen.insert(hist).second) r.end();
    else { r.sh->cur = r.sh->len; r.sh->open = 0; r.sh->nev = 0; }
    return o;
  }
  long leaked();

  void explore() {
    vs::on_report = [this](const std::string &what) {
      if (!r.sh->open) r.begin(prefix + "setup", "\"n\":1,\"th\":1,\"init\":[-1]");
      std::string e = "[\"" + what + "\"]";
      r.ev(e);
      r.end();
      fflush(nullptr);
      _exit(91);
    };
    prefix = sc.name + "/";
    drive(sc, seed, [this](const vs::Plan &p, const std::string &id) { return exec(p, id); });
    r.sh->counters[0] += execs;
    r.sh->counters[1] += points;
    if (maxpoints > r.sh->counters[2]) r.sh->counters[2] = maxpoints;
  }
};
} // namespace conc

namespace vs { long unreachable(const void *root); }
template <typename A> long conc::Explorer<A>::leaked() { return vs::unreachable(a); }

// usage: prog OUT SCENARIOS SEED PART NPARTS
#define CONC_MAIN(A)                                                                         \
  int main(int argc, char **argv) {                                                          \
    auto scs = conc::load(argv[2]);                                                          \
    uint64_t seed = strtoull(argv[3], nullptr, 10);                                          \
    int part = atoi(argv[4]), np = atoi(argv[5]);                                            \
    std::vector<conc::Scenario> mine;                                                        \
    for (size_t i = 0; i < scs.size(); i++) if ((int)(i % np) == part) mine.push_back(scs[i]); \
    vt::Recorder r;                                                                          \
    vt::run_jobs(r, mine.size(), 600, [&](int i) {                                           \
      conc::Explorer<A> e(r, mine[i], seed * 7919 + i * np + part);                          \
      e.explore();                                                                           \
    });                                                                                      \
    vt::dump(r, argv[1]);                                                                    \
    printf("execs %ld points %ld max %ld\n", r.sh->counters[0], r.sh->counters[1], r.sh->counters[2]); \
  }
