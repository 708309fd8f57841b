// The epoch manager under the explorer.  Scenario operations:
//   e enter_epoch, x exit_epoch, a<s> acquire the object of slot s, t touch what
//   was acquired in this section, w<s> replace slot s and retire the old object
//   in a new epoch, c<s> the same in the current epoch, b<n> retire a batch of n
//   fresh objects in a new epoch, v<n> the same in the current epoch,
//   g do_reclaim, G reclaim_all
// setup: h<n> reclamation threshold; other operations run by main.
#include "conc.h"
#include "indexes/utils/EpochManager.h"

struct Obj { long id; long pad; };
using EM = indexes::utils::EpochManager<uint64_t, Obj>;
constexpr int NS = 3, NT = 5;

struct World {
  EM *em;
  std::atomic<Obj *> *slot; // NS
  int nobj = 0;
  std::vector<Obj *> held[NT];
  std::set<Obj *> dead;
};
static World W;
static vt::Recorder *R;
static std::string H;
static void ev(const std::string &e) { H += e; R->ev(e); }
template <typename F> static void rec(F f) { vs::main_off(); f(); vs::main_on(); }
static std::string at(const char *n, long t) { return std::string("[\"") + n + "\"," + std::to_string(t); }

static Obj *fresh() {
  Obj *o = new Obj;
  o->id = ++W.nobj;
  return o;
}
// the reclaimer is made for the objects ids lo..hi and knows it
static std::function<void(Obj *)> reclaimer(long lo, long hi) {
  return [lo, hi](Obj *o) {
    long id = -1;
    rec([&] {
      if (!vs::is_freed(o)) id = o->id;
      ev(at("rc", vs::self()) + "," + vt::js(id) + "," + vt::js(id >= lo && id <= hi ? 1 : 0) + "]");
      if (id == -1) { R->end(); _exit(91); }
    });
    delete o;
  };
}
static void retire(bool fresh_epoch, std::vector<Obj *> &objs) {
  long t = vs::self();
  std::string ids;
  rec([&] {
    ids = "[";
    for (size_t i = 0; i < objs.size(); i++) ids += (i ? "," : "") + vt::js(objs[i]->id);
    ids += "]";
    ev(at("re", t) + "," + (fresh_epoch ? "1" : "0") + "," + ids + "]");
  });
  long lo = objs.front()->id, hi = objs.back()->id;
  if (objs.size() == 1) {
    if (fresh_epoch) W.em->retire_in_new_epoch(reclaimer(lo, hi), objs[0]);
    else W.em->retire_in_current_epoch(reclaimer(lo, hi), objs[0]);
  } else {
    if (fresh_epoch) W.em->retire_in_new_epoch(reclaimer(lo, hi), gsl::span<Obj *>(objs.data(), objs.size()));
    else W.em->retire_in_current_epoch(reclaimer(lo, hi), gsl::span<Obj *>(objs.data(), objs.size()));
  }
  rec([&] { ev(at("rr", t) + "]"); });
}
static void op(const conc::Op &o) {
  long t = vs::self();
  switch (o.kind) {
  case 'e':
    rec([&] { ev(at("en", t) + "]"); });
    W.em->enter_epoch();
    rec([&] { ev(at("in", t) + "]"); });
    break;
  case 'x':
    rec([&] { W.held[t].clear(); ev(at("ex", t) + "]"); });
    W.em->exit_epoch();
    vs::drain(); // a store buffer empties some time; here, before the return
    rec([&] { ev(at("ou", t) + "]"); });
    break;
  case 'a': {
    Obj *p = W.slot[o.k].load(std::memory_order_acquire);
    rec([&] { W.held[t].push_back(p); });
    break;
  }
  case 't':
    for (Obj *p : W.held[t]) {
      volatile long id = p->id; // "uaf" if it was reclaimed
      (void)id;
    }
    break;
  case 'w': case 'c': {
    Obj *n = fresh();
    std::vector<Obj *> old{W.slot[o.k].exchange(n)};
    retire(o.kind == 'w', old);
    break;
  }
  case 'b': case 'v': {
    std::vector<Obj *> objs;
    for (int i = 0; i < o.k; i++) objs.push_back(fresh());
    retire(o.kind == 'b', objs);
    break;
  }
  case 'g': {
    rec([&] { ev(at("dc", t) + "]"); });
    long n = W.em->do_reclaim();
    rec([&] { ev(at("dr", t) + "," + vt::js(n) + "]"); });
    break;
  }
  case 'G':
    rec([&] { ev(at("ac", t) + "]"); });
    W.em->reclaim_all();
    rec([&] { ev(at("ar", t) + "]"); });
    break;
  }
}

struct EpochExplorer {
  vt::Recorder &r;
  const conc::Scenario &sc;
  std::unordered_set<std::string> seen;
  long execs = 0, points = 0;
  vs::Outcome exec(const vs::Plan &p, const std::string &id) {
    H.clear();
    for (auto &h : W.held) h.clear();
    W.nobj = 0;
    vs::exec_begin();
    vs::set_threads(sc.th.size());
    long thr = 1000;
    for (auto &o : sc.setup) if (o.kind == 'h') thr = o.k;
    r.begin(sc.name + "/" + id, "\"th\":" + vt::js((long)sc.th.size()) + ",\"thr\":" + vt::js(thr));
    vs::main_on();
    W.em = new EM();
    W.slot = new std::atomic<Obj *>[NS];
    for (int i = 0; i < NS; i++) W.slot[i] = fresh();
    if (thr != 1000) W.em->set_reclamation_threshold(thr);
    for (auto &o : sc.setup) if (o.kind != 'h') op(o);
    vs::main_off();
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < sc.th.size(); t++)
      fs.push_back([this, t] {
        for (auto &o : sc.th[t]) {
          vs::op_begin();
          op(o);
          vs::op_end();
        }
      });
    vs::Outcome o = vs::run(p, fs);
    execs++;
    points += o.points;
    vs::main_on();
    op({'G', 0, 0});
    vs::main_off();
    ev("[\"fin\"]");
    if (seen.insert(H).second) r.end();
    else { r.sh->cur = r.sh->len; r.sh->open = 0; r.sh->nev = 0; }
    return o;
  }
};

int main(int argc, char **argv) {
  auto scs = conc::load(argv[2]);
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  int part = atoi(argv[4]), np = atoi(argv[5]);
  std::vector<conc::Scenario> mine;
  for (size_t i = 0; i < scs.size(); i++) if ((int)(i % np) == part) mine.push_back(scs[i]);
  vt::Recorder r;
  R = &r;
  vt::run_jobs(r, mine.size(), 600, [&](int i) {
    EpochExplorer e{r, mine[i]};
    vs::on_report = [&](const std::string &what) {
      r.ev("[\"" + what + "\"]");
      r.end();
      _exit(91);
    };
    conc::drive(mine[i], seed * 7919 + i * np + part, [&](const vs::Plan &p, const std::string &id) { return e.exec(p, id); });
    r.sh->counters[0] += e.execs;
    r.sh->counters[1] += e.points;
  });
  vt::dump(r, argv[1]);
  printf("execs %ld points %ld\n", r.sh->counters[0], r.sh->counters[1]);
}
