// A database that records the calls the benchmark makes, and random settings of
// the benchmark together with what they mean.
#pragma once
#include "trace.h"
#include "core/db.h"
#include "utils/properties.h"
#include <map>
#include <mutex>
#include <sstream>

namespace yr {
using namespace ycsbc;
using vt::Rng;

inline std::string q(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c < 32 || c > 126 ? '?' : c;
  }
  return o + "\"";
}

// the calls, each made by a client (a thread between Init and Close)
class RecDB : public DB {
public:
  std::function<void(const std::string &)> ev;
  std::function<int()> client;      // number of the calling client
  bool printable = true;

  template <class C> std::string vals(const C &c) {
    std::map<std::string, std::string> m;
    std::string s;
    // in the order of the names; a name given twice is kept apart
    std::vector<std::pair<std::string, std::string>> v;
    for (auto &p : c) v.push_back({p.first, p.second});
    std::sort(v.begin(), v.end());
    for (auto &p : v) {
      long len = p.second.size();
      for (char ch : p.second) if (ch < 33 || ch > 126) len = -1;
      s += (s.empty() ? "" : ",") + ("[" + q(p.first) + "," + vt::js(len) + "]");
    }
    return "[" + s + "]";
  }
  static std::string names(const FieldSet *f) {
    if (!f) return "1,[]";
    std::vector<std::string> v(f->begin(), f->end());
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ",") + q(x);
    return "0,[" + s + "]";
  }
  std::string head(const char *op, const std::string &t, const std::string &k) {
    return std::string("[\"") + op + "\"," + vt::js(client()) + "," + q(t) + "," + q(k) + ",";
  }
  void Init() override { ev("[\"init\"," + vt::js(client()) + "]"); }
  void Close() override { ev("[\"close\"," + vt::js(client()) + "]"); }
  int Read(const std::string &t, const std::string &k, const FieldSet *f, int n, std::vector<KVPair> &) override {
    ev(head("rd", t, k) + names(f) + "," + vt::js(n) + "]");
    return kOK;
  }
  int Scan(const std::string &t, const std::string &k, int rec, const FieldSet *f, int n, std::vector<std::vector<KVPair>> &) override {
    ev(head("scan", t, k) + names(f) + "," + vt::js(n) + "," + vt::js(rec) + "]");
    return kOK;
  }
  int Update(const std::string &t, const std::string &k, int n, FieldMap &v) override {
    ev(head("upd", t, k) + vals(v) + "," + vt::js(n) + "]");
    return kOK;
  }
  int Insert(const std::string &t, const std::string &k, std::vector<KVPair> &v) override {
    ev(head("ins", t, k) + vals(v) + "]");
    return kOK;
  }
  int Delete(const std::string &t, const std::string &k) override {
    ev(head("del", t, k) + "0]");
    return kOK;
  }
};

// random settings: the properties set, and what the specification is told
struct Conf {
  std::vector<std::pair<std::string, std::string>> props;
  std::string table = "usertable", dist = "uniform", fdist = "constant", sdist = "uniform";
  int rc = 10, ops = 50, threads = 1, fc = 10, fl = 100, maxscan = 1000, start = 0;
  bool readall = true, writeall = false, ordered = false;
  int prop[5] = {95, 5, 0, 0, 0};   // read, update, insert, scan, read-modify-write; hundredths

  template <class T> static T any(Rng &g, std::initializer_list<T> l) { return *(l.begin() + g(l.size())); }
  void set(const char *k, const std::string &v) { props.push_back({k, v}); }
  void make(Rng &g, bool small) {
    auto sometimes = [&](const char *k, const std::string &v) { set(k, v); };
    rc = small ? any(g, {1, 2, 3, 4}) : any(g, {1, 2, 3, 4, 7, 12, 20, 30});
    ops = small ? 6 : any(g, {0, 1, 7, 100, 333, 400});
    threads = small ? 2 : any(g, {1, 1, 1, 1, 2, 3, 4, 7});
    set("recordcount", std::to_string(rc));
    set("operationcount", std::to_string(ops));
    if (g.p(70)) { fc = any(g, {1, 2, 3, 5, 11}); set("fieldcount", std::to_string(fc)); }
    if (g.p(70)) { fl = any(g, {1, 2, 3, 8, 40}); set("fieldlength", std::to_string(fl)); }
    if (g.p(70)) { fdist = any<const char *>(g, {"constant", "uniform", "zipfian"}); set("field_len_dist", fdist); }
    if (g.p(60)) { readall = g.p(50); set("readallfields", readall ? any<const char *>(g, {"true", "1", "TRUE"}) : any<const char *>(g, {"false", "0", "False"})); }
    if (g.p(60)) { writeall = g.p(50); set("writeallfields", writeall ? "true" : "false"); }
    static const char *PN[5] = {"readproportion", "updateproportion", "insertproportion", "scanproportion", "readmodifywriteproportion"};
    do {
      for (int i = 0; i < 5; i++) prop[i] = g.p(55) ? 0 : any(g, {5, 10, 25, 50, 95, 100});
    } while (prop[0] + prop[1] + prop[2] + prop[3] + prop[4] == 0);
    if (small) { prop[2] = 50; prop[0] = 50; }
    for (int i = 0; i < 5; i++) {
      char b[20];
      snprintf(b, sizeof b, prop[i] % 100 ? "%.2f" : "%.0f", prop[i] / 100.0);
      set(PN[i], b);
    }
    if (g.p(80)) { dist = any<const char *>(g, {"uniform", "zipfian", "latest"}); set("requestdistribution", dist); }
    if (g.p(80)) { maxscan = any(g, {1, 2, 3, 10, 100}); set("maxscanlength", std::to_string(maxscan)); }
    if (g.p(60)) { sdist = any<const char *>(g, {"uniform", "zipfian"}); set("scanlengthdistribution", sdist); }
    if (g.p(70)) { ordered = g.p(60); set("insertorder", ordered ? "ordered" : "hashed"); }
    if (g.p(60)) { start = any(g, {0, 1, 5, 100, 100000}); set("insertstart", std::to_string(start)); }
    if (g.p(40)) { table = any<const char *>(g, {"t", "my table", "x=y"}); set("table", table); }
  }
  std::string header() const {
    auto b = [](bool x) { return std::string(x ? "1" : "0"); };
    return "\"conf\":{\"table\":" + q(table) + ",\"rc\":" + vt::js(rc) + ",\"ops\":" + vt::js(ops) + ",\"threads\":" + vt::js(threads) +
           ",\"fc\":" + vt::js(fc) + ",\"flmin\":" + vt::js(fdist == "constant" ? fl : 1) + ",\"flmax\":" + vt::js(fl) +
           ",\"readall\":" + b(readall) + ",\"writeall\":" + b(writeall) + ",\"maxscan\":" + vt::js(maxscan) +
           ",\"ordered\":" + b(ordered) + ",\"start\":" + vt::js(start) + ",\"dist\":" + q(dist) + ",\"prop\":" +
           vt::js(std::vector<int>(prop, prop + 5)) + "}";
  }
};
} // namespace yr
