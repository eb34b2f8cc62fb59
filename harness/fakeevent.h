// A stand-in for libevent on virtual time: the part of its interface a wrapper of
// events, timers and loops can use, with its semantics, recording what lives and
// reporting misuse that the real library would turn into undefined behaviour.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct event;
struct event_base;

namespace fe {
// supplied by the driver
extern std::function<int64_t()> now;                    // virtual microseconds
extern std::function<short(int fd, short want)> ready;  // level readiness of a descriptor
extern std::function<void(int64_t until)> wait;         // let time pass until `until` (-1: no timer) or until a descriptor may be ready; must make progress
extern std::function<void(const char*)> misuse;         // the code under test broke the library's contract
extern std::function<void(int64_t)> at;                 // called before callbacks run at a new instant (optional)

// faults: name of the call -> answers (true: fail), consumed one per call
extern std::map<std::string, std::vector<bool>> faults;

int LiveEvents();   // allocated by event_new and not freed
int LiveBases();
int LiveOnce();     // pending one-shot callbacks
int64_t NextDue(event_base* b);   // -1 if none
// one turn of the loop without waiting: runs what is due or ready now; number of callbacks run
int Turn(event_base* b);
// runs everything up to virtual time t, moving `set_now`
void RunUntil(event_base* b, int64_t t, const std::function<void(int64_t)>& set_now);
bool Broken(event_base* b);
struct Info { bool pending; short options; int fd; int64_t due; bool has_due; int64_t period; };
Info Look(event* e);
std::vector<event_base*> Bases();
std::vector<Info> All();                             // every event that lives
extern std::function<void(const char*)> faulted;      // a planned failure was returned (optional)
void ForgetAll();
}  // namespace fe
