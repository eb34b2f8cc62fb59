// Driver for C29: generates identifiers in trees of processes and threads.
// A scenario is a list of lines "<process> <thread> <op> [arg]"; each process follows its own
// lines.  Ops: g n (n single identifiers), m (eight at once), r n (n random durations), f child (the
// thread forks; the child's line owner goes on as the child's first thread), x (the thread ends),
// b n k (n threads generate k identifiers at the same time).
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "common/random.h"
using namespace lightstep;

struct Line { std::string p, t, op; std::vector<std::string> args; };
static std::vector<Line> lines;

static void Out(const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(1, s.data() + o, s.size() - o);
    if (n <= 0) _exit(70);
    o += n;
  }
}
static std::string Limbs(uint64_t x) {
  char b[80];
  snprintf(b, sizeof b, "[%u,%u,%u,%u]", unsigned(x & 0xffff), unsigned((x >> 16) & 0xffff), unsigned((x >> 32) & 0xffff), unsigned(x >> 48));
  return b;
}
static std::string Gen(const std::string& p, const std::string& t, const std::vector<uint64_t>& v) {
  std::string s = "{\"e\":\"gen\",\"p\":\"" + p + "\",\"t\":\"" + t + "\",\"ids\":[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Limbs(v[i]);
  return s + "]}\n";
}
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool end{false};
  std::thread th;
  Worker() : th{[this] {
    std::unique_lock<std::mutex> l{m};
    while (true) {
      cv.wait(l, [this] { return job || end; });
      if (end) return;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }} {}
  void Run(std::function<void()> f) {
    std::unique_lock<std::mutex> l{m};
    job = std::move(f);
    cv.notify_all();
    cv.wait(l, [this] { return !job; });
  }
  ~Worker() {
    { std::lock_guard<std::mutex> l{m}; end = true; cv.notify_all(); }
    th.join();
  }
};

static void RunProcess(const std::string& p, const std::string& self, size_t from);
static void Do(const Line& l, size_t at) {
  std::vector<uint64_t> v;
  if (l.op == "g") {
    for (int i = std::stoi(l.args[0]); i > 0; --i) v.push_back(GenerateId());
    Out(Gen(l.p, l.t, v));
  } else if (l.op == "m") {
    auto a = GenerateIds<8>();
    v.assign(a.begin(), a.end());
    Out(Gen(l.p, l.t, v));
  } else if (l.op == "r") {
    for (int i = std::stoi(l.args[0]); i > 0; --i) {
      GenerateRandomDuration(std::chrono::nanoseconds{5}, std::chrono::nanoseconds{9});   // uses the same generator
    }
  } else if (l.op == "f") {
    Out("{\"e\":\"fork\",\"p\":\"" + l.p + "\",\"t\":\"" + l.t + "\",\"c\":\"" + l.args[0] + "\"}\n");
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      RunProcess(l.args[0], l.t, at + 1);
      _exit(0);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid || !WIFEXITED(st) || WEXITSTATUS(st) != 0) Out("{\"e\":\"childfailed\"}\n");
  } else if (l.op == "b") {
    int n = std::stoi(l.args[0]), k = std::stoi(l.args[1]);
    std::vector<std::vector<uint64_t>> out(n);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        std::vector<uint64_t> mine;
        mine.reserve(k);
        ++ready;
        while (ready < n) {}
        for (int j = 0; j < k; ++j) mine.push_back(GenerateId());
        out[i] = mine;
      });
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; ++i) Out(Gen(l.p, l.t + "b" + std::to_string(at) + "." + std::to_string(i), out[i]));
  }
}
static void RunProcess(const std::string& p, const std::string& self, size_t from) {
  auto* workers = new std::map<std::string, std::unique_ptr<Worker>>;  // a child never touches its parent's
  for (size_t i = from; i < lines.size(); ++i) {
    const auto& l = lines[i];
    if (l.p != p) continue;
    if (l.op == "x") { workers->erase(l.t); continue; }
    if (l.t == self) { Do(l, i); continue; }
    auto& w = (*workers)[l.t];
    if (!w) w.reset(new Worker);
    w->Run([&] { Do(l, i); });
  }
  for (auto& w : *workers) w.second.reset();
}
static void Scenario() {
  if (lines.empty()) return;
  // the whole scenario in a process of its own: nothing generated before
  pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    RunProcess(lines[0].p, lines[0].t, 0);
    _exit(0);
  }
  int st = 0;
  if (waitpid(pid, &st, 0) != pid || !WIFEXITED(st) || WEXITSTATUS(st) != 0) Out("{\"e\":\"childfailed\"}\n");
  lines.clear();
}
int main() {
  std::string s;
  while (std::getline(std::cin, s)) {
    if (s == "T") {
      Scenario();
      Out("T\n");
      continue;
    }
    std::istringstream in(s);
    Line l;
    in >> l.p >> l.t >> l.op;
    std::string a;
    while (in >> a) l.args.push_back(a);
    lines.push_back(l);
  }
  Scenario();
  Out("END\n");
  return 0;
}
