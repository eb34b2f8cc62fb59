// Driver for C35: the event wrappers over a stand-in for libevent on virtual time.
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <event2/event.h>
#include "fakeevent.h"
#include "network/event.h"
#include "network/event_base.h"
#include "network/timer_event.h"
using namespace lightstep;

static int64_t clock_us;
static std::map<int, int> level;
static std::map<std::string, std::unique_ptr<EventBase>> bases;
static std::map<std::string, std::unique_ptr<Event>> events;
static std::map<std::string, std::unique_ptr<TimerEvent>> timers;
struct Ctx { long id; std::vector<std::vector<std::string>> acts; };
static std::map<long, std::unique_ptr<Ctx>> ctxs;
static bool bad;
static void Run(const std::vector<std::string>& w, bool inner);

struct Target {
  // what the code under test calls: methods through the library's callback makers
  long id;
  void OnEvent(FileDescriptor fd, short what) {
    printf("{\"e\":\"fire\",\"id\":%ld,\"fd\":%d,\"what\":%d,\"now\":%ld}\n", id, static_cast<int>(fd), what, static_cast<long>(clock_us / 1000));
    auto c = ctxs.find(id);
    if (c == ctxs.end()) return;
    auto acts = c->second->acts;
    for (auto& a : acts) Run(a, true);
  }
  void OnTimer() { OnEvent(-1, EV_TIMEOUT); }
};
static std::map<long, std::unique_ptr<Target>> targets;
static void* T(long id) {
  auto& t = targets[id];
  if (!t) { t.reset(new Target{}); t->id = id; }
  return static_cast<void*>(t.get());
}
static void At(int64_t t) {
  static int64_t last = -1;
  if (t != last) {}
  last = t;
}
static void SetNow(int64_t t) {
  clock_us = t;
  printf("{\"e\":\"now\",\"t\":%ld}\n", static_cast<long>(t / 1000));
}
static std::chrono::microseconds Ms(const std::string& s) { return std::chrono::microseconds{atol(s.c_str()) * 1000}; }

static void Run(const std::vector<std::string>& w, bool inner) {
  auto arg = [&](size_t i) { return i < w.size() ? w[i] : std::string{}; };
  std::string op = w[0];
  std::string thrown = "0", extra;
  bool is_break = false;
  try {
    if (op == "base") bases[arg(1)].reset(new EventBase{});
    else if (op == "bmc") bases[arg(1)].reset(new EventBase{std::move(*bases.at(arg(2)))});
    else if (op == "bma") *bases.at(arg(1)) = std::move(*bases.at(arg(2)));
    else if (op == "bdel") bases.erase(arg(1));
    else if (op == "new") {  // new slot base fd options id
      events[arg(1)].reset(new Event{*bases.at(arg(2)), static_cast<FileDescriptor>(atoi(arg(3).c_str())), static_cast<short>(atoi(arg(4).c_str())),
                                     MakeEventCallback<Target, &Target::OnEvent>(), T(atol(arg(5).c_str()))});
    } else if (op == "null") events[arg(1)].reset(new Event{});
    else if (op == "mc") events[arg(1)].reset(new Event{std::move(*events.at(arg(2)))});
    else if (op == "ma") *events.at(arg(1)) = std::move(*events.at(arg(2)));
    else if (op == "sw") std::swap(*events.at(arg(1)), *events.at(arg(2)));
    else if (op == "del") events.erase(arg(1));
    else if (op == "add") {
      if (arg(2) == "null") events.at(arg(1))->Add(static_cast<timeval*>(nullptr));
      else events.at(arg(1))->Add(Ms(arg(2)));
    } else if (op == "rm") events.at(arg(1))->Remove();
    else if (op == "timer") {  // timer slot base interval id
      timers[arg(1)].reset(new TimerEvent{*bases.at(arg(2)), Ms(arg(3)), MakeTimerCallback<Target, &Target::OnTimer>(), T(atol(arg(4).c_str()))});
    } else if (op == "timer0") {
      timers[arg(1)].reset(new TimerEvent{*bases.at(arg(2)), MakeTimerCallback<Target, &Target::OnTimer>(), T(atol(arg(4).c_str()))});
    } else if (op == "tnull") timers[arg(1)].reset(new TimerEvent{});
    else if (op == "tmc") timers[arg(1)].reset(new TimerEvent{std::move(*timers.at(arg(2)))});
    else if (op == "tma") *timers.at(arg(1)) = std::move(*timers.at(arg(2)));
    else if (op == "tdel") timers.erase(arg(1));
    else if (op == "reset") timers.at(arg(1))->Reset();
    else if (op == "resettv") {
      if (arg(2) == "null") timers.at(arg(1))->Reset(nullptr);
      else { auto m = atol(arg(2).c_str()); timeval tv{m / 1000, (m % 1000) * 1000}; timers.at(arg(1))->Reset(&tv); }
    } else if (op == "once") {  // once base ms id
      bases.at(arg(1))->OnTimeout(Ms(arg(2)), MakeTimerCallback<Target, &Target::OnTimer>(), T(atol(arg(3).c_str())));
    } else if (op == "break") { is_break = true; bases.at(arg(1))->LoopBreak(); }
    else if (op == "fd") level[atoi(arg(1).c_str())] = atoi(arg(2).c_str());
    else if (op == "fault") fe::faults[arg(1)].push_back(true);
    else if (op == "unfault") fe::faults.clear();
    else if (op == "adv") {
      auto b = bases.at(arg(1))->libevent_handle();
      int64_t until = clock_us + atol(arg(2).c_str()) * 1000;
      fe::RunUntil(b, until, SetNow);
    } else if (op == "disp") {
      printf("{\"e\":\"dispc\",\"b\":\"%s\"}\n", arg(1).c_str());
      bases.at(arg(1))->Dispatch();
    }
  } catch (const std::exception&) { thrown = "1"; }
  catch (...) { thrown = "2"; }
  if (op == "unfault") return;
  printf("{\"e\":\"%s\"", op.c_str());
  static const std::map<std::string, std::vector<const char*>> names = {
      {"base", {"b"}}, {"bmc", {"b", "s"}}, {"bma", {"b", "s"}}, {"bdel", {"b"}}, {"new", {"d", "b", "#fd", "#opt", "#id"}}, {"null", {"d"}},
      {"mc", {"d", "s"}}, {"ma", {"d", "s"}}, {"sw", {"d", "s"}}, {"del", {"d"}}, {"add", {"d", "%ms"}}, {"rm", {"d"}},
      {"timer", {"d", "b", "%ms", "#id"}}, {"timer0", {"d", "b", "%ms", "#id"}}, {"tnull", {"d"}}, {"tmc", {"d", "s"}}, {"tma", {"d", "s"}},
      {"tdel", {"d"}}, {"reset", {"d"}}, {"resettv", {"d", "%ms"}}, {"once", {"b", "%ms", "#id"}}, {"break", {"b"}}, {"fd", {"#fd", "#lv"}},
      {"fault", {"f"}}, {"adv", {"b", "#by"}}, {"disp", {"b"}}};
  auto n = names.find(op);
  if (n != names.end())
    for (size_t i = 0; i < n->second.size(); ++i) {
      const char* k = n->second[i];
      std::string v = arg(i + 1);
      if (k[0] == '#') printf(",\"%s\":%ld", k + 1, atol(v.c_str()));
      else if (k[0] == '%') printf(",\"%s\":%ld", k + 1, v == "null" ? -1L : atol(v.c_str()));
      else printf(",\"%s\":\"%s\"", k, v.c_str());
    }
  printf(",\"thrown\":%s,\"live\":%d,\"once\":%d,\"bases\":%d,\"bad\":%d}\n", thrown.c_str(), fe::LiveEvents(), fe::LiveOnce(), fe::LiveBases(), bad ? 1 : 0);
}

int main() {
  fe::now = [] { return clock_us; };
  fe::ready = [](int fd, short) { auto i = level.find(fd); return static_cast<short>(i == level.end() ? 0 : i->second); };
  fe::misuse = [](const char* m) { bad = true; fprintf(stderr, "misuse: %s\n", m); };
  fe::wait = [](int64_t until) {
    if (until < 0) { printf("{\"e\":\"blocked\"}\n"); for (auto b : fe::Bases()) event_base_loopbreak(b); return; }
    if (until > clock_us) SetNow(until);
  };
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::vector<std::string> w;
    std::string s;
    while (in >> s) w.push_back(s);
    if (w.empty()) continue;
    if (w[0] == "T") {
      timers.clear();
      events.clear();
      bases.clear();
      ctxs.clear();
      level.clear();
      fe::ForgetAll();
      bad = false;
      clock_us = 0;
      printf("T\n");
      continue;
    }
    if (w[0] == "on") {  // on id op args... : done inside the callback (once per firing)
      auto& c = ctxs[atol(w[1].c_str())];
      if (!c) c.reset(new Ctx{});
      c->acts.push_back(std::vector<std::string>(w.begin() + 2, w.end()));
      continue;
    }
    if (w[0] == "off") { ctxs.erase(atol(w[1].c_str())); continue; }
    Run(w, false);
  }
  printf("END\n");
  return 0;
}
