// Driver for C21: the status line parser.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

#include "recorder/stream_recorder/status_line_parser.h"
using namespace lightstep;

int main() {
  std::unique_ptr<StatusLineParser> p;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, hex;
    in >> op >> hex;
    if (op == "T") { p.reset(new StatusLineParser{}); printf("T\n"); continue; }
    int thrown = 0;
    if (op == "R") p->Reset();
    else {
      std::string s;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) s.push_back(static_cast<char>(strtol(hex.substr(i, 2).c_str(), nullptr, 16)));
      // exactly as large as the bytes read, so that reading past them shows
      std::unique_ptr<char[]> b{new char[s.size()]};
      std::copy(s.begin(), s.end(), b.get());
      try { p->Parse(opentracing::string_view{b.get(), s.size()}); } catch (const std::exception&) { thrown = 1; } catch (...) { thrown = 2; }
    }
    bool done = p->completed();
    printf("{\"e\":\"%s\",\"s\":[", op == "R" ? "reset" : "parse");
    for (size_t i = 0; i + 1 < hex.size(); i += 2) printf("%s%ld", i ? "," : "", strtol(hex.substr(i, 2).c_str(), nullptr, 16));
    printf("],\"thrown\":%d,\"done\":%d,\"code\":%d,\"reason\":[", thrown, done, done ? p->status_code() : -1);
    if (done) {
      auto r = p->reason();
      for (size_t i = 0; i < r.size(); ++i) printf("%s%d", i ? "," : "", static_cast<unsigned char>(r.data()[i]));
    }
    printf("]}\n");
  }
  printf("END\n");
  return 0;
}
