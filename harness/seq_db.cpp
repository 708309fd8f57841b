// The benchmark's database adapters used by one thread (C19).  They are made by
// the factory of the working tree; only the interface of core/db.h is used.
#include "trace.h"
#include <atomic>
#include <memory>
#include <new>
#include <set>
#include "db/db_factory.h"
using namespace ycsbc;
using vt::Rng;

static long live = 0;
static bool counting = false;
struct Hdr { size_t counted; size_t pad; };
void *operator new(size_t n) {
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (!h) throw std::bad_alloc();
  h->counted = counting;
  live += counting;
  return h + 1;
}
void operator delete(void *p) noexcept {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  live -= (long)h->counted;
  free(h);
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// table and key names a careless adapter could mix up
static const std::vector<std::vector<std::string>> TABLES = {
  {"usertable"}, {"t", "ta", "tab"}, {"", "u", "us"}, {"usertable", "usertablf"}, {"b", "a"}};
static std::vector<std::string> names(Rng &g, int n) {
  std::set<std::string> s;
  int kind = g(4);
  while ((int)s.size() < n) {
    if (kind == 0) s.insert("user" + std::to_string(g(1000)));
    else if (kind == 1) s.insert("user" + std::to_string(g.g()));
    else if (kind == 2) { // short, over few letters: every concatenation is ambiguous
      std::string k;
      for (int l = g(5); l >= 0; l--) k += (char)('a' + g(2));
      s.insert(k);
    } else s.insert(std::string(g(40), 'x') + std::to_string(g(50)));
  }
  return {s.begin(), s.end()};
}
static bool scans(const std::string &db) { return db == "stl_map" || db == "btree" || db == "concurrent_btree"; }

struct Job {
  vt::Recorder &r;
  Rng g;
  std::string dbname;
  std::unique_ptr<DB> db;
  std::vector<std::string> tables, keys, fields;
  int F, NK, val = 0;

  std::string vec(const std::vector<DB::KVPair> &kv) {
    std::vector<int> v(F, -1);
    for (auto &p : kv) {
      int f = -1;
      for (int j = 0; j < F; j++) if (fields[j] == p.first) f = j;
      // twice, or a field nobody asked for
      if (f < 0 || v[f] != -1) { v.assign(F, -9); break; }
      v[f] = (int)num(p.second);
    }
    return vt::js(v);
  }
  std::string mk(int v) {
    std::string s = std::to_string(v);
    int pad = v % 5 == 0 ? 200 : v % 3 == 0 ? 20 : 0;
    return s + std::string(pad, '.');
  }
  long num(const std::string &s) {
    char *e;
    long v = strtol(s.c_str(), &e, 10);
    return s == mk((int)v) ? v : -8;
  }
  template <class T> struct Quiet {
    bool was = counting;
    Quiet() { counting = false; }
    ~Quiet() { counting = was; }
  };
  void one() {
    int tb = g(tables.size()), k = g(NK), q = tb * NK + k, op = g(100);
    const std::string &t = tables[tb], &key = keys[k];
    std::vector<int> mask(F);
    bool all = g.p(40);
    DB::FieldSet fs;
    for (int j = 0; j < F; j++)
      if (all || g.p(40)) { mask[j] = 1; fs.insert(fields[j]); }
    std::string pre = "[\"c\",1,\"", at = "\"," + vt::js(q) + ",";
    int st;
    if (op < 25) {
      std::vector<DB::KVPair> v;
      std::vector<int> a;
      for (int j = 0; j < F; j++) { v.push_back({fields[j], mk(++val)}); a.push_back(val); }
      r.ev(pre + "ins" + at + vt::js(a) + "]");
      counting = true;
      st = db->Insert(t, key, v);
      counting = false;
      r.ev("[\"r\",1,[" + vt::js(st) + "]]");
    } else if (op < 45) {
      DB::FieldMap m;
      std::vector<int> a(F, -1);
      for (int j = 0; j < F; j++) if (mask[j]) { m[fields[j]] = mk(++val); a[j] = val; }
      if (m.empty()) { m[fields[0]] = mk(++val); a[0] = val; }
      r.ev(pre + "upd" + at + vt::js(a) + "]");
      counting = true;
      st = db->Update(t, key, F, m);
      counting = false;
      r.ev("[\"r\",1,[" + vt::js(st) + "]]");
    } else if (op < 75) {
      std::vector<DB::KVPair> res;
      if (g.p(30)) res.push_back({"stale", "stale"});
      r.ev(pre + "rd" + at + vt::js(mask) + "]");
      st = db->Read(t, key, all ? nullptr : &fs, F, res);
      r.ev("[\"r\",1,[" + vt::js(st) + (st == DB::kOK ? "," + vec(res) : "") + "]]");
    } else if (op < 88) {
      r.ev(pre + "del" + at + "[]]");
      counting = true;
      st = db->Delete(t, key);
      counting = false;
      r.ev("[\"r\",1,[" + vt::js(st) + "]]");
    } else if (scans(dbname)) {
      int n = g.p(20) ? NK + 2 : g(NK / 2 + 2);
      std::vector<std::vector<DB::KVPair>> res;
      if (g.p(30)) res.push_back({{"stale", "stale"}});
      r.ev(pre + "scan" + at + "[" + vt::js(n) + "," + vt::js(mask) + "]]");
      st = db->Scan(t, key, n, all ? nullptr : &fs, F, res);
      std::string s;
      for (auto &x : res) s += (s.empty() ? "" : ",") + vec(x);
      r.ev("[\"r\",1,[" + vt::js(st) + ",[" + s + "]]]");
    }
  }
  Job(vt::Recorder &rr, uint64_t seed, const std::string &name, int idx, int ops) : r(rr), g(seed), dbname(name) {
    tables = TABLES[g(TABLES.size())];
    NK = g.p(30) ? 40 : 3 + g(10);
    keys = names(g, NK);
    // keys beyond the record's own fit in one
    F = g.p(20) ? 10 : 1 + g(4);
    for (int j = 0; j < F; j++) fields.push_back((g.p(50) ? "field" : "f") + std::to_string(j));
    r.begin(name + "-" + std::to_string(idx), "\"n\":" + vt::js((long)(NK * tables.size())) + ",\"nk\":" + vt::js(NK) + ",\"th\":1");
    utils::Properties p;
    p.SetProperty("dbname", name);
    counting = true;
    db.reset(DBFactory::CreateDB(p));
    if (!db) { r.ev("[\"nodb\"]"); r.end(); return; }
    db->Init();
    counting = false;
    for (int i = 0; i < ops; i++) one();
    db->Close();
    db.reset();
    r.ev("[\"gone\"," + vt::js(live) + "]");
    r.end();
  }
};

int main(int argc, char **argv) {
  // OUT SEED N OPS
  const char *dbs[] = {"stl_map", "stl_umap", "robinmap", "btree", "concurrent_btree"};
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int n = atoi(argv[3]), ops = atoi(argv[4]);
  vt::Recorder r;
  vt::run_jobs(r, n * 5, 60, [&](int i) {
    live = 0;
    Job j(r, seed * 1000 + i, dbs[i % 5], i, i % 7 == 0 ? ops * 10 : ops);
  });
  vt::dump(r, argv[1]);
}
