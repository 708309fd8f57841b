// The benchmark's workload and clients under the explorer (C20).  A scenario is
//   name | strategy | k<seed of the settings> | L0 or R0 (twice)
// L: two clients load, concurrently, and run one after the other; R: the reverse.
#include "conc.h"
#include "ycsb_rec.h"
#include "core/core_workload.cpp"
#include "core/client.h"
#include "stubs/vsched_hooks.h"
#include <memory>
using namespace conc;

struct FiberDB : yr::RecDB {
  int Init_(bool open) { vs::main_off(); if (open) RecDB::Init(); else RecDB::Close(); vs::main_on(); return 0; }
  void Init() override { Init_(true); }
  void Close() override { Init_(false); }
#define QUIET(call) { vs::main_off(); int r = RecDB::call; vs::main_on(); return r; }
  int Read(const std::string &t, const std::string &k, const FieldSet *f, int n, std::vector<KVPair> &x) override QUIET(Read(t, k, f, n, x))
  int Scan(const std::string &t, const std::string &k, int c, const FieldSet *f, int n, std::vector<std::vector<KVPair>> &x) override QUIET(Scan(t, k, c, f, n, x))
  int Update(const std::string &t, const std::string &k, int n, FieldMap &v) override QUIET(Update(t, k, n, v))
  int Insert(const std::string &t, const std::string &k, std::vector<KVPair> &v) override QUIET(Insert(t, k, v))
  int Delete(const std::string &t, const std::string &k) override QUIET(Delete(t, k))
};

struct Ex {
  vt::Recorder &r;
  const Scenario &sc;
  uint64_t seed;
  std::unordered_set<std::string> seen, names;
  std::string hist, prefix;
  long execs = 0, points = 0;
  yr::Conf conf;
  int who = 0;
  FiberDB *db = nullptr;
  ycsbc::CoreWorkload *wl = nullptr;

  void ev(const std::string &e) { hist += e; r.ev(e); }
  void client(int t, bool load) {
    int total = load ? conf.rc : conf.ops, n = total / 2 + (t < total % 2 ? 1 : 0);
    db->Init();
    ycsbc::Client c(*db, *wl);
    for (int i = 0; i < n; i++) load ? c.DoInsert() : c.DoTransaction();
    db->Close();
  }
  vs::Outcome exec(const vs::Plan &p, const std::string &id) {
    hist.clear();
    vs::exec_begin();
    vs::set_threads(2);
    yr::Conf k;
    conf = k;
    vt::Rng g(sc.setup[0].k);
    conf.make(g, true);
    conf.ops = sc.setup[0].k % 3 ? 4 : 6;
    utils::Properties props;
    for (auto &x : conf.props) props.SetProperty(x.first, x.second);
    props.SetProperty("operationcount", std::to_string(conf.ops));
    for (auto n : {"readproportion", "updateproportion", "insertproportion", "scanproportion", "readmodifywriteproportion"}) props.SetProperty(n, "0");
    const char *pn[5] = {"readproportion", "updateproportion", "insertproportion", "scanproportion", "readmodifywriteproportion"};
    for (int i = 0; i < 5; i++) props.SetProperty(pn[i], std::to_string(conf.prop[i] / 100.0));
    r.begin(prefix + id + (names.insert(id).second ? "" : "#" + std::to_string(execs)), conf.header());
    db = new FiberDB;
    int main_client = 1;
    bool inside = false;
    db->ev = [this](const std::string &e) { ev(e); };
    db->client = [&] { return inside ? vs_thread_id() : main_client; };
    vs::main_on();
    wl = new ycsbc::CoreWorkload;
    wl->Init(props);
    vs::Outcome o;
    for (bool load : {true, false}) {
      bool conc = (sc.th[0][0].kind == 'L') == load;
      if (!conc) {
        for (int t = 0; t < 2; t++) { main_client = t + 1; client(t, load); }
        continue;
      }
      vs::main_off();
      inside = true;
      std::vector<std::function<void()>> fs;
      for (int t = 0; t < 2; t++)
        fs.push_back([this, t, load] { client(t, load); });
      o = vs::run(p, fs);
      inside = false;
      vs::set_threads(2);
      vs::main_on();
    }
    delete wl;
    vs::main_off();
    delete db;
    ev("[\"exit\"," + vt::js(vs::live_blocks()) + "]");
    execs++;
    points += o.points;
    if (seen.insert(hist).second) r.end();
    else { r.sh->cur = r.sh->len; r.sh->open = 0; r.sh->nev = 0; }
    return o;
  }
  void explore() {
    vs::on_report = [this](const std::string &what) {
      if (!r.sh->open) r.begin(prefix + "setup", yr::Conf().header());
      r.ev("[\"" + what + "\"]");
      r.end();
      fflush(nullptr);
      _exit(91);
    };
    prefix = sc.name + "/";
    drive(sc, seed, [this](const vs::Plan &p, const std::string &id) { return exec(p, id); });
    r.sh->counters[0] += execs;
    r.sh->counters[1] += points;
  }
};

int main(int argc, char **argv) {
  auto scs = conc::load(argv[2]);
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  int part = atoi(argv[4]), np = atoi(argv[5]);
  std::vector<conc::Scenario> mine;
  for (size_t i = 0; i < scs.size(); i++) if ((int)(i % np) == part) mine.push_back(scs[i]);
  vt::Recorder r;
  vt::run_jobs(r, mine.size(), 60, [&](int i) {
    Ex e{r, mine[i], seed * 7919 + i * np + part};
    e.explore();
  });
  vt::dump(r, argv[1]);
  printf("execs %ld points %ld max %ld\n", r.sh->counters[0], r.sh->counters[1], 0L);
}
