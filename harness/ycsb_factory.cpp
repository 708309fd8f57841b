// Linked with the benchmark program of the working tree instead of its database
// factory: every call the program makes is written to the file YCSB_TRACE names.
#include <algorithm>
#include <functional>
#include "ycsb_rec.h"
#include "db/db_factory.h"
#include <atomic>
#include <fcntl.h>

static std::mutex mtx;
static std::atomic<int> clients;
static thread_local int me = 0;

struct MainDB : yr::RecDB {
  int fd;
  MainDB() {
    fd = open(getenv("YCSB_TRACE"), O_WRONLY | O_APPEND | O_CREAT, 0600);
    ev = [this](const std::string &e) {
      std::lock_guard<std::mutex> l(mtx);
      std::string s = e + "\n";
      if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
    };
    client = [] { return me; };
  }
  void Init() override { me = ++clients; RecDB::Init(); }
};
ycsbc::DB *ycsbc::DBFactory::CreateDB(utils::Properties &props) {
  return props["dbname"] == "recorder" ? new MainDB : nullptr;
}
