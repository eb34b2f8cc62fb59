// Deterministic scheduler used by the concurrency checks.  The code under test
// is compiled with -fsanitize=thread but linked against this file instead of
// libtsan: every atomic operation and every pthread mutex / condition variable
// operation becomes a scheduling point, plain accesses feed a happens-before
// race detector that honours the memory orders the code asked for, and freed
// memory is quarantined so that a later access to it is seen.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace vrt {
struct Options {
  // "dfs": preemption bounded enumeration, "rand": random walks
  std::string strategy{"dfs"};
  int preemptions{2};
  long max_executions{100000};
  uint64_t seed{1};
  long step_limit{60000};
  double time_limit_s{30};
  bool spurious_cas{false};   // weak compare-exchange may fail spuriously (costs a preemption)
  bool early_timeouts{true};  // a timed wait may time out while others can run (costs a preemption)
  int stale_loads{0};         // how many atomic loads of an execution may read a value already overwritten, where
                              // the memory orders the code asked for permit it
  int spin{48};
  int shard{0}, shards{1};    // only random: seeds are split by shard
  bool fair_random{true};
};

// Runs `body` repeatedly under different schedules until the strategy is done.
// Each execution's history (the Event() records) is written, once per distinct
// history, as one line "H [...]".  Prints "STAT ..." at the end.
void Explore(const Options& o, const std::function<void()>& body);

// Starts / joins a controlled thread (std::thread works as well).
int Spawn(const std::function<void()>& f);
void Join(int id);
void JoinAll();
int Self();

// Appends a record to the execution's history. `json` is the inside of an object.
void Event(const std::string& json);
void Yield();            // a scheduling point
void Block(const std::function<bool()>& cond);  // scheduling point until cond holds
int Choose(int n);       // a nondeterministic choice owned by the harness
int64_t Now();           // virtual nanoseconds
void SleepUntil(int64_t t);
bool Active();
// Registered objects: allocation/destruction accounting is up to the harness.
void Fail(const std::string& what);  // ends the execution with an event no spec allows
}  // namespace vrt
