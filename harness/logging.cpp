// Driver for C40: the logger and what is logged of a collector's response.
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "common/logger.h"
#include "common/utility.h"
#include "sink.h"
using namespace lightstep;
using std::string;
static string Unhex(const string& h) {
  string s;
  if (h == "-") return s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return s;
}
static string Hex(const string& s) {
  string r;
  char b[3];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
static string Q(const string& s) { return "\"" + s + "\""; }
static const LogLevel levels[] = {LogLevel::debug, LogLevel::info, LogLevel::warn, LogLevel::error, LogLevel::off};
static int Number(LogLevel l) { for (int i = 0; i < 5; ++i) if (levels[i] == l) return i; return 9; }
struct Odd {};  // a value whose printing fails
static std::ostream& operator<<(std::ostream&, const Odd&) { throw std::runtime_error{"cannot be printed"}; }
static std::vector<std::pair<int, string>> got;
static string kind;
static int calls;
static std::unique_ptr<Logger> logger;
static std::function<void(LogLevel, opentracing::string_view)> Sink() {
  if (kind == "default") return nullptr;
  string k = kind;
  return [k](LogLevel l, opentracing::string_view m) {
    got.emplace_back(Number(l), string{m.data(), m.size()});
    ++calls;
    if (k == "throws" || (k == "sometimes" && calls % 2)) throw std::runtime_error{"the sink failed"};
  };
}
static string Drain() {
  string l;
  if (kind == "default") {   // lines on stderr, in a file of ours
    fflush(stderr);
    std::cerr.flush();
    std::cerr.clear();
    string s;
    char b[4096];
    lseek(2, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(2, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
    if (ftruncate(2, 0)) abort();
    lseek(2, 0, SEEK_SET);
    static const char* const prefix[] = {"Debug: ", "Info: ", "Warn: ", "Error: "};
    while (!s.empty()) {
      auto e = s.find('\n');
      string line = s.substr(0, e);
      s = e == string::npos ? "" : s.substr(e + 1);
      int lv = 9;
      for (int i = 0; i < 4; ++i) if (line.compare(0, strlen(prefix[i]), prefix[i]) == 0) { lv = i; line = line.substr(strlen(prefix[i])); break; }
      l += (l.empty() ? "[" : ",[") + S(lv) + "," + Q(Hex(line)) + "]";
    }
    return l;
  }
  for (auto& m : got) l += (l.empty() ? "[" : ",[") + S(m.first) + "," + Q(Hex(m.second)) + "]";
  got.clear();
  return l;
}


int main() {
  FILE* f = tmpfile();
  dup2(fileno(f), 2);
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    string op, x;
    in >> op;
    if (op == "T") {
      puts("T");
      logger.reset();
      got.clear();
      calls = 0;
    } else if (op == "new") {
      in >> kind;
      if (kind == "default" && line.size() % 2) logger.reset(new Logger);
      else logger.reset(new Logger{Sink()});
      Drain();
      Ev("\"e\":\"new\",\"kind\":" + Q(kind) + ",\"level\":" + S(Number(logger->level())));
    } else if (op == "level") {
      int n;
      in >> n;
      logger->set_level(levels[n]);
      Ev("\"e\":\"level\",\"n\":" + S(n) + ",\"is\":" + S(Number(logger->level())));
    } else if (op == "log") {  // log how level parts...
      int n;
      in >> x >> n;
      std::vector<string> p;
      string y, l;
      while (in >> y) p.push_back(y);
      for (auto& s : p) l += (l.empty() ? "" : ",") + Q(s == "-" ? "" : s);
      string a = p.empty() ? "" : Unhex(p[0]), b = p.size() > 1 ? Unhex(p[1]) : "", c = p.size() > 2 ? Unhex(p[2]) : "";
      int num = atoi(c.c_str());
      string before = "\"e\":\"log\",\"how\":" + Q(x) + ",\"n\":" + S(n) + ",\"l\":[" + l + "]";
      auto lv = levels[n];
      if (x == "view") logger->Log(lv, opentracing::string_view{a});
      else if (x == "text") logger->log(lv, a.c_str());
      else if (x == "parts") logger->Log(lv, a, b.c_str(), num);
      else if (x == "odd") logger->Log(lv, a, Odd{}, b);
      else if (x == "named") {
        if (n == 0) logger->Debug(a, b, num);
        if (n == 1) logger->Info(a, b, num);
        if (n == 2) logger->Warn(a, b, num);
        if (n == 3) logger->Error(a, b, num);
      }
      Ev(before + ",\"got\":[" + Drain() + "]");
    } else if (op == "resp") {  // resp verbose e|w|i:text ...
      int v;
      in >> v;
      collector::ReportResponse r;
      string l[3];
      while (in >> x) {
        string t = Unhex(x.substr(2));
        int i = x[0] == 'e' ? 0 : x[0] == 'w' ? 1 : 2;
        l[i] += (l[i].empty() ? "" : ",") + Q(Hex(t));
        if (i == 0) r.add_errors(t);
        else if (i == 1) r.add_warnings(t);
        else r.add_infos(t);
      }
      LogReportResponse(*logger, v != 0, r);
      Ev("\"e\":\"resp\",\"v\":" + S(v) + ",\"errors\":[" + l[0] + "],\"warnings\":[" + l[1] + "],\"infos\":[" + l[2] + "],\"got\":[" + Drain() + "]");
    }
  }
  logger.reset();
  puts("END");
  return 0;
}
