// Runs the benchmark program of the working tree (C20), linked with a database
// that records what it is asked for (ycsb_factory.cpp), on generated property
// files; and tries the parsing of property files.
#include <algorithm>
#include "ycsb_rec.h"
#include <fcntl.h>
using vt::Rng;

// a property file that says this, written as people do
static std::string text(Rng &g, const std::vector<std::pair<std::string, std::string>> &p) {
  std::string s;
  auto sp = [&] { return std::string(g.p(20) ? 1 + g(2) : 0, g.p(70) ? ' ' : '\t'); };
  bool crlf = g.p(15);
  std::string nl = crlf ? "\r\n" : "\n";
  for (auto &x : p) {
    if (g.p(20)) s += "# comment " + x.first + "=1" + nl;
    if (g.p(20)) s += sp() + nl;
    if (g.p(5)) s += "no setting" + nl;
    if (g.p(10)) s += x.first + "=77" + nl;   // overridden below
    s += sp() + x.first + sp() + "=" + sp() + x.second + sp() + nl;
  }
  if (g.p(30)) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
  return s;
}
static void put(const std::string &path, const std::string &s) {
  FILE *f = fopen(path.c_str(), "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

static void bench(vt::Recorder &r, Rng &g, int i, const std::string &dir, const std::string &prog) {
  yr::Conf c;
  c.make(g, false);
  auto props = c.props;
  bool cmdline = g.p(50);
  if (!cmdline && (c.threads > 1 || g.p(50))) props.push_back({"threadcount", std::to_string(c.threads)});
  for (size_t k = props.size(); k > 1; k--) std::swap(props[k - 1], props[g(k)]);
  std::string base = dir + "/p" + std::to_string(i);
  std::vector<std::string> args{"ycsb", "-db", "recorder"};
  size_t cut = g.p(30) ? g(props.size()) : props.size();
  put(base + ".1", text(g, {props.begin(), props.begin() + cut}));
  args.insert(args.end(), {"-P", base + ".1"});
  if (cut < props.size()) {
    put(base + ".2", text(g, {props.begin() + cut, props.end()}));
    args.insert(args.end(), {"-P", base + ".2"});
  }
  if (cmdline) args.insert(args.begin() + 1, {"-threads", std::to_string(c.threads)});
  std::vector<const char *> av;
  for (auto &a : args) av.push_back(a.c_str());
  av.push_back(nullptr);
  std::string trace = base + ".t";
  r.begin("bench-" + std::to_string(i), c.header());
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl{60, 60};
    setrlimit(RLIMIT_CPU, &rl);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    setenv("YCSB_TRACE", trace.c_str(), 1);
    execv(prog.c_str(), (char **)av.data());
    _exit(127);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::ifstream in(trace);
  std::string line;
  while (std::getline(in, line)) r.ev(line);
  r.ev("[\"exit\"," + vt::js(WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) + "]");
  r.end();
  unlink((base + ".1").c_str());
  unlink((base + ".2").c_str());
  unlink(trace.c_str());
}

// parsing: lines and settings as sequences of character codes
static std::string codes(const std::string &s) {
  std::vector<int> v;
  for (char c : s) v.push_back((unsigned char)c);
  return vt::js(v);
}
static void parse(vt::Recorder &r, Rng &g, int i, const std::string &dir) {
  r.begin("props-" + std::to_string(i), "\"conf\":{}");
  utils::Properties p;
  int files = 1 + g(2);
  for (int f = 0; f < files; f++) {
    if (g.p(20)) {
      std::string k = std::string(1, "ab"[g(2)]), v = std::to_string(g(10));
      p.SetProperty(k, v);
      r.ev("[\"set\"," + codes(k) + "," + codes(v) + "]");
    }
    std::string s, alpha = "ab==# \t\r.Z\xc3\xa9";
    std::vector<std::string> lines;
    int n = g(8);
    for (int l = 0; l < n; l++) {
      std::string x;
      for (int c = g(10); c > 0; c--) x += alpha[g(alpha.size())];
      lines.push_back(x);
      s += x + (l + 1 < n || g.p(50) ? "\n" : "");
    }
    std::string path = dir + "/q" + std::to_string(i);
    put(path, s);
    std::ifstream in(path);
    p.Load(in);
    in.close();
    unlink(path.c_str());
    std::string js, out;
    for (auto &l : lines) js += (js.empty() ? "" : ",") + codes(l);
    for (auto &x : p.properties()) {
      out += (out.empty() ? "" : ",") + ("[" + codes(x.first) + "," + codes(x.second) + "]");
      if (p.GetProperty(x.first, "none") != x.second || p[x.first] != x.second) out += ",[[-1],[-1]]";
    }
    if (p.GetProperty("absent one", "dflt") != "dflt") out += ",[[-1],[-1]]";
    r.ev("[\"load\",[" + js + "],[" + out + "]]");
  }
  r.end();
}

int main(int argc, char **argv) {
  // OUT-BENCH OUT-PROPS SEED N DIR PROG
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  int n = atoi(argv[4]);
  {
    vt::Recorder r;
    vt::run_jobs(r, n, 120, [&](int i) {
      Rng g(seed * 100000 + i);
      bench(r, g, i, argv[5], argv[6]);
    });
    vt::dump(r, argv[1]);
  }
  vt::Recorder r;
  vt::run_jobs(r, n * 4, 60, [&](int i) {
    Rng g(seed * 100000 + 50000 + i);
    parse(r, g, i, argv[5]);
  });
  vt::dump(r, argv[2]);
}
