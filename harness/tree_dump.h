// What a B+tree dumps, as the levels of nodes and their keys TraceTree takes.
#pragma once
#include <sstream>
#include <string>

template <class F> bool parse_dump(const std::string &s, std::string &out, long &nodes, F idx) {
  // "|k, k|, |k|, \n|...|, \n"  ->  [[[..],[..]],[..]]
  out = "[";
  nodes = 0;
  std::istringstream is(s);
  std::string line;
  bool firstl = true;
  while (std::getline(is, line)) {
    if (line.find('|') == std::string::npos) continue;
    if (!firstl) out += ",";
    firstl = false;
    out += "[";
    size_t p = 0;
    bool firstn = true;
    while ((p = line.find('|', p)) != std::string::npos) {
      size_t q = line.find('|', p + 1);
      if (q == std::string::npos) return false;
      if (!firstn) out += ",";
      firstn = false;
      nodes++;
      out += "[";
      std::istringstream ks(line.substr(p + 1, q - p - 1));
      std::string tok;
      bool firstk = true;
      while (std::getline(ks, tok, ',')) {
        if (tok.find_first_not_of(' ') == std::string::npos) continue;
        if (!firstk) out += ",";
        firstk = false;
        out += std::to_string(idx(tok));
      }
      out += "]";
      p = q + 1;
    }
    out += "]";
  }
  out += "]";
  return true;
}
