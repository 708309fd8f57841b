// The benchmark's database adapters under the explorer.  Scenarios as in conc.h
// with operations i<k> (Insert), p<k>/q<k> (Update of the first / second field),
// s<k> (Read), t<k> (Read of the second field), d<k> (Delete), F<k> (Scan of two
// records).  DBNAME is what the factory is asked for.
#include "conc.h"
#include <sys/single_threaded.h>
#include "db/db_factory.cpp"
#ifndef DBNAME
#define DBNAME "stl_map"
#endif
using namespace conc;
static constexpr int NK = 4, F = 2;
static const char *FIELD[F] = {"f0", "f1"};

struct Ex {
  vt::Recorder &r;
  const Scenario &sc;
  uint64_t seed;
  std::unordered_set<std::string> seen, names;
  std::string hist, prefix;
  long execs = 0, points = 0;
  int val = 0;
  DB *db = nullptr;

  void ev(const std::string &e) { hist += e; r.ev(e); }
  template <typename G> void record(G f) {
    vs::main_off();
    f();
    vs::main_on();
  }
  static std::string key(int k) { return "k" + std::to_string(k); }
  std::string vec(const std::vector<DB::KVPair> &kv) {
    std::vector<int> v(F, -1);
    for (auto &p : kv)
      for (int j = 0; j < F; j++)
        if (p.first == FIELD[j]) v[j] = v[j] == -1 ? atoi(p.second.c_str()) : -9;
    return vt::js(v);
  }
  void call(int t, const Op &o) {
    std::string pre, res;
    int a = 0, b = 0;
    auto begin = [&](const char *op, const std::string &arg) {
      record([&] { ev("[\"c\"," + vt::js(t) + ",\"" + op + "\"," + vt::js(o.k) + "," + arg + "]"); });
    };
    vs::op_begin();
    switch (o.kind) {
    case 'i': {
      std::vector<DB::KVPair> v;
      record([&] {
        a = ++val; b = ++val;
        v = {{FIELD[0], std::to_string(a)}, {FIELD[1], std::to_string(b)}};
        ev("[\"c\"," + vt::js(t) + ",\"ins\"," + vt::js(o.k) + "," + vt::js(std::vector<int>{a, b}) + "]");
      });
      int st = db->Insert("t", key(o.k), v);
      record([&] { res = "[" + vt::js(st) + "]"; std::vector<DB::KVPair>().swap(v); });
      break;
    }
    case 'p': case 'q': {
      std::unique_ptr<DB::FieldMap> m;
      record([&] {
        a = ++val;
        m.reset(new DB::FieldMap);
        (*m)[FIELD[o.kind == 'q']] = std::to_string(a);
        ev("[\"c\"," + vt::js(t) + ",\"upd\"," + vt::js(o.k) + "," + (o.kind == 'p' ? vt::js(std::vector<int>{a, -1}) : vt::js(std::vector<int>{-1, a})) + "]");
      });
      int st = db->Update("t", key(o.k), F, *m);
      record([&] { res = "[" + vt::js(st) + "]"; m.reset(); });
      break;
    }
    case 's': case 't': {
      std::unique_ptr<DB::FieldSet> fs;
      std::vector<DB::KVPair> out;
      record([&] {
        fs.reset(new DB::FieldSet);
        fs->insert(FIELD[1]);
        ev("[\"c\"," + vt::js(t) + ",\"rd\"," + vt::js(o.k) + (o.kind == 's' ? ",[1,1]]" : ",[0,1]]"));
      });
      int st = db->Read("t", key(o.k), o.kind == 's' ? nullptr : fs.get(), F, out);
      record([&] { res = "[" + vt::js(st) + (st == DB::kOK ? "," + vec(out) : "") + "]"; fs.reset(); });
      break;
    }
    case 'd': {
      begin("del", "[]");
      int st = db->Delete("t", key(o.k));
      record([&] { res = "[" + vt::js(st) + "]"; });
      break;
    }
    case 'F': {
      std::vector<std::vector<DB::KVPair>> out;
      begin("scan", "[2,[1,1]]");
      int st = db->Scan("t", key(o.k), 2, nullptr, F, out);
      record([&] {
        std::string s;
        for (auto &x : out) s += (s.empty() ? "" : ",") + vec(x);
        res = "[" + vt::js(st) + ",[" + s + "]]";
      });
      break;
    }
    }
    vs::op_end();
    record([&] { ev("[\"r\"," + vt::js(t) + "," + res + "]"); });
  }
  vs::Outcome exec(const vs::Plan &p, const std::string &id) {
    hist.clear();
    val = 0;
    vs::exec_begin();
    vs::set_threads(sc.th.size());
    utils::Properties props;
    props.SetProperty("dbname", DBNAME);
    r.begin(prefix + id + (names.insert(id).second ? "" : "#" + std::to_string(execs)),
            "\"n\":" + vt::js(NK) + ",\"nk\":" + vt::js(NK) + ",\"th\":" + vt::js((long)sc.th.size()));
    vs::main_on();
    db = DBFactory::CreateDB(props);
    for (auto &o : sc.setup) call(1, o);
    vs::main_off();
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < sc.th.size(); t++)
      fs.push_back([this, t] {
        for (auto &o : sc.th[t]) call((int)t + 1, o);
      });
    vs::Outcome o = vs::run(p, fs);
    execs++;
    points += o.points;
    vs::set_threads(sc.th.size());
    vs::main_on();
    for (int k = 0; k < NK; k++) call(1, {'s', k, 0});
    delete db;
    vs::main_off();
    ev("[\"gone\"," + vt::js(vs::live_blocks()) + "]");
    if (seen.insert(hist).second) r.end();
    else { r.sh->cur = r.sh->len; r.sh->open = 0; r.sh->nev = 0; }
    return o;
  }
  void explore() {
    vs::on_report = [this](const std::string &what) {
      if (!r.sh->open) r.begin(prefix + "setup", "\"n\":1,\"nk\":1,\"th\":1");
      r.ev("[\"" + what + "\"]");
      r.end();
      fflush(nullptr);
      _exit(91);
    };
    prefix = sc.name + "/";
    drive(sc, seed, [this](const vs::Plan &p, const std::string &id) { return exec(p, id); });
    r.sh->counters[0] += execs;
    r.sh->counters[1] += points;
  }
};

int main(int argc, char **argv) {
  __libc_single_threaded = 0;   // reference counts are to be counted atomically
  auto scs = conc::load(argv[2]);
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  int part = atoi(argv[4]), np = atoi(argv[5]);
  std::vector<conc::Scenario> mine;
  for (size_t i = 0; i < scs.size(); i++) if ((int)(i % np) == part) mine.push_back(scs[i]);
  vt::Recorder r;
  vt::run_jobs(r, mine.size(), 600, [&](int i) {
    Ex e{r, mine[i], seed * 7919 + i * np + part};
    e.explore();
  });
  vt::dump(r, argv[1]);
  printf("execs %ld points %ld max %ld\n", r.sh->counters[0], r.sh->counters[1], 0L);
}
