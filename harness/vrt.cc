#include "vrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <new>
#include <random>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vrt {
namespace {
const int kMaxThreads = 16;

// ---------------------------------------------------------------- allocation of the runtime itself
// The runtime's containers use operator new too; `in_rt` marks runtime code so that
// its own allocations are neither tracked nor quarantined.
__thread int in_rt = 0;
struct Rt {
  Rt() { ++in_rt; }
  ~Rt() { --in_rt; }
};

struct VC {
  uint32_t c[kMaxThreads];
  VC() { memset(c, 0, sizeof c); }
  void Merge(const VC& o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { RUNNABLE, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_PRED, W_GUARD };
struct Thread {
  State state{RUNNABLE};
  Why why{W_NONE};
  void* obj{nullptr};
  int64_t deadline{-1};
  bool timed_out{false};
  int join_target{-1};
  sem_t sem;
  VC vc;
  VC acq_pending;   // relaxed loads followed by an acquire fence
  VC rel_fence;     // release fence snapshot
  bool has_rel_fence{false};
  int since_switch{0};
  bool yielded{false};
  const std::function<bool()>* pred{nullptr};
  std::function<void()> fn;
  void* (*start)(void*){nullptr};
  void* arg{nullptr};
  void* ret{nullptr};
  pthread_t os{};
  bool joined{false};
};
Thread* th[kMaxThreads];
int nth = 0;
int cur = -1;
__thread int self = -1;
bool active = false;
Options opt;
int64_t now_ns = 0;
const int64_t kEpoch = 1000000000000LL;

// choices
struct Node {
  int chosen, n;
};
std::vector<Node> path;
size_t path_pos = 0;
int budget = 0;
std::mt19937_64 rng;
bool random_mode = false;
long steps = 0;
double rand_switch = 0.1;

std::vector<std::string>* hist = nullptr;
std::unordered_set<uint64_t>* seen = nullptr;
long executions = 0, distinct = 0, total_points = 0, max_depth = 0;
FILE* out;

struct MutexState {
  int owner{-1};
  VC vc;
};
std::unordered_map<void*, MutexState>* mutexes;
// A value an atomic location held.  Kept for the locations' older values, which a load may still read when nothing
// orders the newer stores before it.
struct Stored {
  uint64_t value;
  int tid;        // -1: initial
  uint32_t clk;
  VC rel;         // what reading it with acquire order synchronises with
};
struct Loc {
  VC rel;
  std::vector<Stored> hist;
  uint32_t base{0};                                    // index of hist.front()
  uint32_t sc_min{0};                                  // oldest index a sequentially consistent load may read
  std::vector<std::pair<uint32_t, uint32_t>> reads[kMaxThreads];  // (clock, index), index growing
  void Forget() {
    hist.clear();
    base = sc_min = 0;
    for (auto& r : reads) r.clear();
  }
};
std::unordered_map<uintptr_t, Loc>* atomics;
struct Cell {
  int8_t wt{-1};
  uint8_t wmask{0};
  uint32_t wclk{0};
  uint32_t rclk[kMaxThreads];
  uint8_t rmask[kMaxThreads];
  Cell() { memset(rclk, 0, sizeof rclk); memset(rmask, 0, sizeof rmask); }
};
std::unordered_map<uintptr_t, Cell>* cells;
std::map<uintptr_t, size_t>* freed;       // quarantined blocks of this execution
std::map<uintptr_t, size_t>* blocks;      // blocks allocated by the code under test in this execution
bool reported = false;

uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

void Flush(const char* end) {
  std::string s = "[";
  for (size_t i = 0; i < hist->size(); ++i) {
    if (i) s += ",";
    s += (*hist)[i];
  }
  s += "]";
  if (seen->insert(Hash(s)).second) {
    ++distinct;
    fprintf(out, "%s%s\n", end, s.c_str());
  }
}

[[noreturn]] void Die(const std::string& what) {
  Rt r;
  hist->push_back("{\"e\":\"" + what + "\",\"t\":" + std::to_string(self) + "}");
  Flush("H ");
  std::string c = "CHOICES";
  for (size_t i = 0; i < path_pos && i < path.size(); ++i) c += " " + std::to_string(path[i].chosen);
  fprintf(out, "%s\n", c.c_str());
  fprintf(out, "STAT executions=%ld distinct=%ld points=%ld aborted=1\n", executions, distinct, total_points);
  fflush(out);
  _exit(0);
}

void Report(const std::string& what) {
  if (reported) return;
  reported = true;
  Rt r;
  hist->push_back("{\"e\":\"" + what + "\",\"t\":" + std::to_string(self) + "}");
}

static int divergences = 0;
int Pick(int n, bool free_choice, int forced_random) {
  // returns a value in 0..n-1
  if (n <= 1) return 0;
  if (random_mode) return forced_random;
  if (path_pos < path.size()) {
    int r = path[path_pos].chosen;
    if (path[path_pos].n != n) {
      // One-time initialisation (a function-local static, say) makes the first execution longer than
      // later ones: carry on from here.  A program that keeps changing is not explorable.
      if (++divergences > 40) {
        fprintf(out, "NONDET %zu %d %d\n", path_pos, path[path_pos].n, n);
        fflush(out);
        _exit(5);
      }
      path.resize(path_pos);
      path.push_back({0, n});
      ++path_pos;
      return 0;
    }
    ++path_pos;
    return r;
  }
  path.push_back({0, n});
  ++path_pos;
  return 0;
}

bool Enabled(int i) {
  Thread* t = th[i];
  if (t->state == DONE) return false;
  if (t->state == RUNNABLE) return true;
  switch (t->why) {
    case W_MUTEX: {
      auto it = mutexes->find(t->obj);
      return it == mutexes->end() || it->second.owner < 0;
    }
    case W_JOIN: return th[t->join_target]->state == DONE;
    case W_PRED: return (*t->pred)();
    case W_GUARD: return (*static_cast<volatile uint8_t*>(t->obj) == 1) || (static_cast<volatile uint8_t*>(t->obj)[1] == 0);
    default: return false;
  }
}
bool TimedEnabled(int i) {
  Thread* t = th[i];
  return t->state == BLOCKED && (t->why == W_COND || t->why == W_SLEEP) && t->deadline >= 0;
}

void SwitchTo(int next) {
  int me = self;
  if (next == me) return;
  cur = next;
  sem_post(&th[next]->sem);
  if (th[me]->state == DONE) return;
  while (sem_wait(&th[me]->sem) != 0) {
  }
}

// Chooses who runs next; `me` may be blocked or done.  cost-free when me cannot run.
void Schedule(bool yield) {
  Rt r;
  int me = self;
  Thread* t = th[me];
  ++steps;
  ++total_points;
  if (steps > opt.step_limit) Die("stuck");
  std::vector<int> cand;      // thread ids
  bool me_ok = t->state == RUNNABLE;
  std::vector<int> others;
  for (int k = 1; k <= nth; ++k) {
    int i = (me + k) % nth;
    if (i != me && Enabled(i)) others.push_back(i);
  }
  if (!me_ok && t->state == BLOCKED && Enabled(me)) others.push_back(me);
  std::vector<int> timed;
  int64_t first = -1;
  for (int i = 0; i < nth; ++i)
    if (TimedEnabled(i) && (first < 0 || th[i]->deadline < first)) first = th[i]->deadline;
  for (int i = 0; i < nth; ++i)
    if (TimedEnabled(i) && th[i]->deadline == first) timed.push_back(i);

  bool force = false;
  if (me_ok) {
    if (yield) force = true;
    if (++t->since_switch > opt.spin) force = true;
  }
  int next = -1;
  bool by_time = false;
  if (me_ok && !(force && !others.empty())) {
    // running on costs nothing; others cost one preemption
    std::vector<std::pair<int, bool>> alt;
    alt.push_back({me, false});
    if (random_mode || budget > 0) {
      for (int o : others) alt.push_back({o, false});
      if (opt.early_timeouts)
        for (int o : timed) alt.push_back({o, true});
    }
    int k;
    if (random_mode) {
      k = 0;
      if (alt.size() > 1 && (rng() % 1000) < rand_switch * 1000) k = 1 + rng() % (alt.size() - 1);
      if (k > 0 && alt[k].second && rng() % 4) k = 0;  // early timeouts are rarer
    } else {
      k = Pick(static_cast<int>(alt.size()), false, 0);
      if (k > 0) --budget;
    }
    next = alt[k].first;
    by_time = alt[k].second;
  } else {
    // forced switch: any of the others
    std::vector<std::pair<int, bool>> alt;
    for (int o : others) alt.push_back({o, false});
    if (alt.empty() && !me_ok) {
      if (timed.empty()) {
        // nobody can run
        bool all_done = true;
        for (int i = 0; i < nth; ++i)
          if (th[i]->state != DONE) all_done = false;
        if (all_done) return;
        Die("deadlock");
      }
      for (int o : timed) alt.push_back({o, true});
    } else if (alt.empty()) {
      if (!timed.empty()) {
        for (int o : timed) alt.push_back({o, true});
      } else {
        alt.push_back({me, false});
      }
    } else if (opt.early_timeouts && (random_mode ? rng() % 8 == 0 : budget > 0)) {
      for (int o : timed) alt.push_back({o, true});
    }
    int k;
    if (random_mode) k = static_cast<int>(rng() % alt.size());
    else if (force) k = 0;  // fair round robin out of a spin: no choice
    else {
      k = Pick(static_cast<int>(alt.size()), true, 0);
      if (alt[k].second && !others.empty()) --budget;
    }
    next = alt[k].first;
    by_time = alt[k].second;
  }
  if (by_time) {
    Thread* n = th[next];
    if (n->deadline > now_ns) now_ns = n->deadline;
    n->timed_out = true;
    n->state = RUNNABLE;
    n->why = W_NONE;
  } else if (th[next]->state == BLOCKED) {
    th[next]->state = RUNNABLE;
    th[next]->why = W_NONE;
  }
  if (next != me) {
    t->since_switch = 0;
    th[next]->since_switch = 0;
  } else if (force) {
    t->since_switch = 0;
  }
  // leave runtime mode before parking: the flag is per thread
  SwitchTo(next);
}

inline bool On() { return active && self >= 0 && in_rt == 0; }

void Point() {
  if (!On()) return;
  Schedule(false);
}

// ---------------------------------------------------------------- memory model
inline bool IsAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool IsRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

int stale_left = 0;
void NoteRead(Loc& l, uint32_t index, int mo) {
  Thread* t = th[self];
  auto& r = l.reads[self];
  if (r.empty() || r.back().second < index) r.push_back({t->vc.c[self], index});
  if (mo == 5 && l.sc_min < index) l.sc_min = index;
}
// Reads the newest value.
void AtomicLoad(uintptr_t a, int mo) {
  Thread* t = th[self];
  auto it = atomics->find(a);
  if (it == atomics->end()) return;
  Loc& l = it->second;
  if (IsAcq(mo)) t->vc.Merge(l.rel);
  else t->acq_pending.Merge(l.rel);
  if (opt.stale_loads > 0 && !l.hist.empty()) NoteRead(l, l.base + static_cast<uint32_t>(l.hist.size()) - 1, mo);
}
// May choose an older value than `newest` that the memory model allows this load to read.
bool StaleLoad(uintptr_t a, int mo, uint64_t newest, uint64_t* value) {
  if (stale_left <= 0) return false;
  auto it = atomics->find(a);
  if (it == atomics->end()) return false;
  Loc& l = it->second;
  if (l.hist.empty()) return false;
  if (l.hist.back().value != newest) {  // written by other means
    l.Forget();
    return false;
  }
  Thread* t = th[self];
  uint32_t last = l.base + static_cast<uint32_t>(l.hist.size()) - 1;
  uint32_t lo = l.base;
  if (mo == 5 && l.sc_min > lo) lo = l.sc_min;
  for (uint32_t i = last; i > lo; --i) {
    const Stored& s = l.hist[i - l.base];
    if (s.tid < 0 || s.tid == self || s.clk <= t->vc.c[s.tid]) { lo = i; break; }
  }
  for (int u = 0; u < nth; ++u)
    for (auto& r : l.reads[u])
      if ((u == self || r.first <= t->vc.c[u]) && r.second > lo) lo = r.second;
  if (lo >= last) return false;
  int n = static_cast<int>(last - lo) + 1, k;
  if (random_mode) k = rng() % 6 ? 0 : static_cast<int>(rng() % n);
  else k = Pick(n, true, 0);
  if (k == 0) return false;
  --stale_left;
  uint32_t index = last - static_cast<uint32_t>(k);
  const Stored& s = l.hist[index - l.base];
  if (IsAcq(mo)) t->vc.Merge(s.rel);
  else t->acq_pending.Merge(s.rel);
  NoteRead(l, index, mo);
  *value = s.value;
  return true;
}
void AtomicStore(uintptr_t a, int mo, bool rmw, uint64_t before, uint64_t value, bool keep = true) {
  Thread* t = th[self];
  Loc& l = (*atomics)[a];
  keep = keep && opt.stale_loads > 0;
  if (keep) {
    if (!l.hist.empty() && l.hist.back().value != before) l.Forget();
    if (l.hist.empty()) l.hist.push_back({before, -1, 0, l.rel});
  }
  if (!rmw) l.rel = VC();  // a plain store starts a new release sequence
  if (IsRel(mo)) l.rel.Merge(t->vc);
  else if (t->has_rel_fence) l.rel.Merge(t->rel_fence);
  if (keep) {
    l.hist.push_back({value, self, t->vc.c[self], l.rel});
    NoteRead(l, l.base + static_cast<uint32_t>(l.hist.size()) - 1, mo);
    if (l.hist.size() > 6) {
      l.hist.erase(l.hist.begin());
      ++l.base;
    }
  }
  ++t->vc.c[self];
}

bool FreedAt(uintptr_t a, size_t n) {
  if (freed->empty()) return false;
  auto it = freed->upper_bound(a + n - 1);
  if (it == freed->begin()) return false;
  --it;
  return a < it->first + it->second && a + n > it->first;
}

void CellAccess(uintptr_t cell, uint8_t mask, bool write) {
  Thread* t = th[self];
  Cell& c = (*cells)[cell];
  if (c.wt >= 0 && c.wt != self && (c.wmask & mask) && c.wclk > t->vc.c[c.wt]) {
    Report("race");
  }
  if (write) {
    if (opt.stale_loads > 0) {
      for (uintptr_t at : {cell, cell + 4}) {
        auto it = atomics->find(at);
        if (it != atomics->end()) it->second.Forget();
      }
    }
    for (int i = 0; i < nth; ++i)
      if (i != self && (c.rmask[i] & mask) && c.rclk[i] > t->vc.c[i]) Report("race");
    bool same = c.wt == self && c.wclk == t->vc.c[self];
    c.wmask = same ? static_cast<uint8_t>(c.wmask | mask) : mask;
    c.wt = static_cast<int8_t>(self);
    c.wclk = t->vc.c[self];
  } else {
    if (c.rclk[self] != t->vc.c[self]) c.rmask[self] = 0;
    c.rclk[self] = t->vc.c[self];
    c.rmask[self] |= mask;
  }
}

void Access(const void* p, size_t n, bool write) {
  if (!On() || reported) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  // own stack: never shared in these harnesses unless captured by reference; keep it simple and check all
  Rt r;
  if (FreedAt(a, n)) {
    Report("use_after_free");
    return;
  }
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t cell = a & ~uintptr_t(7);
    uint8_t mask = 0;
    while (a < end && (a & ~uintptr_t(7)) == cell) {
      mask |= static_cast<uint8_t>(1u << (a & 7));
      ++a;
    }
    CellAccess(cell, mask, write);
  }
}
void ClearRange(uintptr_t a, size_t n) {
  for (uintptr_t c = a & ~uintptr_t(7); c < a + n; c += 8) {
    cells->erase(c);
    atomics->erase(c);
    atomics->erase(c + 4);
  }
}

// ---------------------------------------------------------------- threads
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
template <class F>
F Real(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

void* Trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  ++in_rt;
  int id = 0;
  for (int i = 0; i < nth; ++i)
    if (th[i] == t) id = i;
  self = id;
  while (sem_wait(&t->sem) != 0) {
  }
  --in_rt;
  if (t->start) t->ret = t->start(t->arg);
  else t->fn();
  ++in_rt;
  t->state = DONE;
  Schedule(false);
  self = -1;
  --in_rt;
  return t->ret;
}

int NewThread(const std::function<void()>* f, void* (*start)(void*), void* arg, const pthread_attr_t*) {
  Rt r;
  if (nth >= kMaxThreads) Die("too_many_threads");
  Thread* t = new Thread;
  sem_init(&t->sem, 0, 0);
  if (f) t->fn = *f;
  t->start = start;
  t->arg = arg;
  int id = nth;
  if (self >= 0) {
    t->vc = th[self]->vc;
    ++th[self]->vc.c[self];
  }
  t->vc.c[id] = 1;
  th[nth++] = t;
  static create_t real = Real<create_t>("pthread_create");
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 * 1024);
  int rc = real(&t->os, &at, Trampoline, t);
  pthread_attr_destroy(&at);
  if (rc != 0) {
    fprintf(stderr, "pthread_create failed\n");
    _exit(6);
  }
  return id;
}

void JoinImpl(int id) {
  Rt r;
  Thread* t = th[self];
  if (th[id]->state != DONE) {
    t->state = BLOCKED;
    t->why = W_JOIN;
    t->join_target = id;
    Schedule(false);
  }
  t->vc.Merge(th[id]->vc);
  if (!th[id]->joined) {
    th[id]->joined = true;
    static join_t real = Real<join_t>("pthread_join");
    real(th[id]->os, nullptr);
  }
}

void MutexLock(void* m) {
  Rt r;
  Thread* t = th[self];
  Schedule(false);
  while ((*mutexes)[m].owner >= 0) {
    if ((*mutexes)[m].owner == self) Die("self_deadlock");
    t->state = BLOCKED;
    t->why = W_MUTEX;
    t->obj = m;
    Schedule(false);
  }
  MutexState& s = (*mutexes)[m];
  s.owner = self;
  t->vc.Merge(s.vc);
}
void MutexUnlockNoPoint(void* m) {
  MutexState& s = (*mutexes)[m];
  Thread* t = th[self];
  if (s.owner != self) Report("unlock_not_owned");
  s.owner = -1;
  s.vc = t->vc;
  ++t->vc.c[self];
}
int CondWait(void* c, void* m, int64_t deadline) {
  Rt r;
  Thread* t = th[self];
  Schedule(false);
  MutexUnlockNoPoint(m);
  t->state = BLOCKED;
  t->why = W_COND;
  t->obj = c;
  t->deadline = deadline;
  t->timed_out = false;
  if (deadline >= 0 && deadline <= now_ns) {
    t->state = RUNNABLE;
    t->why = W_NONE;
    t->timed_out = true;
  }
  Schedule(false);
  bool to = t->timed_out;
  t->deadline = -1;
  t->timed_out = false;
  while ((*mutexes)[m].owner >= 0) {
    t->state = BLOCKED;
    t->why = W_MUTEX;
    t->obj = m;
    Schedule(false);
  }
  MutexState& s = (*mutexes)[m];
  s.owner = self;
  t->vc.Merge(s.vc);
  return to ? ETIMEDOUT : 0;
}
void CondSignal(void* c, bool all) {
  Rt r;
  std::vector<int> w;
  for (int i = 0; i < nth; ++i)
    if (th[i]->state == BLOCKED && th[i]->why == W_COND && th[i]->obj == c) w.push_back(i);
  if (!w.empty()) {
    if (all) {
      for (int i : w) { th[i]->state = RUNNABLE; th[i]->why = W_NONE; }
    } else {
      int k = random_mode ? static_cast<int>(rng() % w.size()) : Pick(static_cast<int>(w.size()), true, 0);
      th[w[k]]->state = RUNNABLE;
      th[w[k]]->why = W_NONE;
    }
  }
  Schedule(false);
}
int64_t TsNs(const timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }

void OnAbort(int sig) {
  if (active && hist) {
    in_rt = 1;
    char b[64];
    snprintf(b, sizeof b, "crash_signal_%d", sig);
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    Die(b);
  }
  _exit(128 + sig);
}
}  // namespace

bool Active() { return On(); }
int Self() { return self; }
int64_t Now() { return now_ns; }

void Event(const std::string& json) {
  if (!active || !hist) return;
  Rt r;
  hist->push_back("{" + json + "}");
}
void Fail(const std::string& what) { Report(what); }

void Yield() {
  if (!On()) return;
  Rt r;
  Schedule(true);
}
void Block(const std::function<bool()>& cond) {
  if (!On()) return;
  Rt r;
  if (cond()) return;
  Thread* t = th[self];
  t->state = BLOCKED;
  t->why = W_PRED;
  t->pred = &cond;
  Schedule(false);
  t->pred = nullptr;
}
int Choose(int n) {
  if (!On() || n <= 1) return 0;
  Rt r;
  return random_mode ? static_cast<int>(rng() % n) : Pick(n, true, 0);
}
void SleepUntil(int64_t when) {
  if (!On()) return;
  Rt r;
  Thread* t = th[self];
  if (when <= now_ns) { Schedule(true); return; }
  t->state = BLOCKED;
  t->why = W_SLEEP;
  t->deadline = when;
  Schedule(false);
  t->deadline = -1;
}
int Spawn(const std::function<void()>& f) {
  int id = NewThread(&f, nullptr, nullptr, nullptr);
  Point();
  return id;
}
void Join(int id) { JoinImpl(id); }
void JoinAll() {
  for (int i = 0; i < nth; ++i)
    if (i != self && !th[i]->joined) JoinImpl(i);
}

static void RunOnce(const std::function<void()>& body) {
  Rt r;
  nth = 0;
  steps = 0;
  now_ns = kEpoch;
  path_pos = 0;
  budget = opt.preemptions;
  stale_left = opt.stale_loads;
  reported = false;
  hist->clear();
  mutexes->clear();
  atomics->clear();
  cells->clear();
  Thread* t = new Thread;
  sem_init(&t->sem, 0, 0);
  t->vc.c[0] = 1;
  th[nth++] = t;
  self = 0;
  cur = 0;
  active = true;
  int depth = in_rt;
  in_rt = 0;
  body();
  in_rt = depth;
  for (int i = 1; i < nth; ++i)
    if (!th[i]->joined) JoinImpl(i);
  active = false;
  self = -1;
  for (int i = 0; i < nth; ++i) {
    sem_destroy(&th[i]->sem);
    delete th[i];
  }
  for (auto& b : *freed) free(reinterpret_cast<void*>(b.first));
  freed->clear();
  blocks->clear();
  ++executions;
  Flush("H ");
}

void Explore(const Options& o, const std::function<void()>& body) {
  Rt r;
  opt = o;
  if (auto stale = getenv("VRT_STALE")) opt.stale_loads = atoi(stale);
  out = stdout;
  cpu_set_t set;
  CPU_ZERO(&set);
  int ncpu = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  CPU_SET((opt.shard + static_cast<int>(getpid())) % (ncpu > 0 ? ncpu : 1), &set);
  sched_setaffinity(0, sizeof set, &set);
  if (!hist) {
    hist = new std::vector<std::string>;
    mutexes = new std::unordered_map<void*, MutexState>;
    atomics = new std::unordered_map<uintptr_t, Loc>;
    cells = new std::unordered_map<uintptr_t, Cell>;
    freed = new std::map<uintptr_t, size_t>;
    blocks = new std::map<uintptr_t, size_t>;
    seen = new std::unordered_set<uint64_t>;
    signal(SIGABRT, OnAbort);
    signal(SIGSEGV, OnAbort);
    signal(SIGBUS, OnAbort);
    signal(SIGFPE, OnAbort);
  }
  random_mode = opt.strategy != "dfs";
  timespec t0, t1;
  auto real_gettime = Real<int (*)(clockid_t, timespec*)>("clock_gettime");
  real_gettime(CLOCK_MONOTONIC, &t0);
  bool exhausted = false, timeup = false;
  long n0 = executions;
  path.clear();
  while (executions - n0 < opt.max_executions) {
    if (random_mode) {
      rng.seed(opt.seed * 7919 + (executions - n0) * opt.shards + opt.shard + 1);
      static const double kRates[] = {0.02, 0.05, 0.1, 0.2, 0.4, 0.7};
      rand_switch = kRates[rng() % 6];
    }
    RunOnce(body);
    if (!random_mode) {
      while (!path.empty() && path.back().chosen + 1 >= path.back().n) path.pop_back();
      if (path.empty()) { exhausted = true; break; }
      ++path.back().chosen;
    }
    if ((executions & 31) == 0) {
      real_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > opt.time_limit_s) { timeup = true; break; }
    }
  }
  fprintf(out, "STAT executions=%ld distinct=%ld points=%ld exhausted=%d timeup=%d aborted=0\n", executions, distinct, total_points,
          exhausted, timeup);
  fflush(out);
}
}  // namespace vrt

using namespace vrt;

// ---------------------------------------------------------------- libc interposition
extern "C" {
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!On()) {
    static create_t real = Real<create_t>("pthread_create");
    return real(p, a, f, arg);
  }
  int id = NewThread(nullptr, f, arg, a);
  *p = th[id]->os;
  Point();
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (On()) {
    for (int i = 0; i < nth; ++i)
      if (i != self && pthread_equal(th[i]->os, p) && !th[i]->joined) {
        JoinImpl(i);
        if (ret) *ret = th[i]->ret;
        return 0;
      }
  }
  static join_t real = Real<join_t>("pthread_join");
  return real(p, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return real(m);
  }
  MutexLock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return real(m);
  }
  Rt r;
  Schedule(false);
  if ((*mutexes)[m].owner >= 0) return EBUSY;
  (*mutexes)[m].owner = self;
  th[self]->vc.Merge((*mutexes)[m].vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return real(m);
  }
  Rt r;
  MutexUnlockNoPoint(m);
  Schedule(false);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    return real(m);
  }
  Rt r;
  auto it = mutexes->find(m);
  if (it != mutexes->end()) {
    if (it->second.owner >= 0) Report("mutex_destroyed_while_held");
    mutexes->erase(it);
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return real(c, m);
  }
  return CondWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
    return real(c, m, ts);
  }
  return CondWait(c, m, TsNs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
    return real(c, m, k, ts);
  }
  return CondWait(c, m, TsNs(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    return real(c);
  }
  CondSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    return real(c);
  }
  CondSignal(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!On()) {
    static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    return real(c);
  }
  Rt r;
  for (int i = 0; i < nth; ++i)
    if (th[i]->state == BLOCKED && th[i]->why == W_COND && th[i]->obj == c) Report("cond_destroyed_with_waiters");
  return 0;
}
int clock_gettime(clockid_t k, timespec* ts) {
  if (!On()) {
    static auto real = Real<int (*)(clockid_t, timespec*)>("clock_gettime");
    return real(k, ts);
  }
  ts->tv_sec = now_ns / 1000000000LL;
  ts->tv_nsec = now_ns % 1000000000LL;
  return 0;
}
int nanosleep(const timespec* d, timespec*) {
  if (!On()) {
    static auto real = Real<int (*)(const timespec*, timespec*)>("nanosleep");
    return real(d, nullptr);
  }
  SleepUntil(now_ns + TsNs(d));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const timespec* d, timespec* rem) {
  if (!On()) {
    static auto real = Real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
    return real(k, flags, d, rem);
  }
  SleepUntil((flags & TIMER_ABSTIME) ? TsNs(d) : now_ns + TsNs(d));
  return 0;
}
int sched_yield() {
  if (!On()) return 0;
  Yield();
  return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  if (b[0] == 1) {
    if (On()) { Rt r; AtomicLoad(reinterpret_cast<uintptr_t>(g), 2); }
    return 0;
  }
  if (On()) {
    Rt r;
    while (b[1]) {
      th[self]->state = BLOCKED;
      th[self]->why = W_GUARD;
      th[self]->obj = g;
      Schedule(false);
      if (b[0] == 1) { AtomicLoad(reinterpret_cast<uintptr_t>(g), 2); return 0; }
    }
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  if (On()) { Rt r; AtomicStore(reinterpret_cast<uintptr_t>(g), 3, false, 0, 0, false); }
  b[0] = 1;
  b[1] = 0;
}
void __cxa_guard_abort(long long* g) { reinterpret_cast<volatile uint8_t*>(g)[1] = 0; }
}

// ---------------------------------------------------------------- operator new/delete
static void* Alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (On()) {
    Rt r;
    memset(p, 0xbe, n);
    ClearRange(reinterpret_cast<uintptr_t>(p), n ? n : 1);
    (*blocks)[reinterpret_cast<uintptr_t>(p)] = n ? n : 1;
  }
  return p;
}
static void Dealloc(void* p) {
  if (!p) return;
  if (On()) {
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    size_t n = 0;
    bool dbl = false;
    {
      Rt r;
      auto it = blocks->find(a);
      if (it != blocks->end()) n = it->second;
      if (freed->count(a)) dbl = true;
    }
    if (dbl) {
      Report("double_free");
      return;
    }
    if (n == 0) {  // allocated outside of the execution
      free(p);
      return;
    }
    Access(p, n, true);
    Rt r;
    (*freed)[a] = n;
    blocks->erase(a);
    return;
  }
  if (active && freed) {
    // runtime code or unregistered thread
  }
  free(p);
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Dealloc(p); }
void operator delete[](void* p) noexcept { Dealloc(p); }
void operator delete(void* p, size_t) noexcept { Dealloc(p); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p); }

// ---------------------------------------------------------------- tsan interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                          \
  void __tsan_read##n(void* p) { Access(p, n, false); }                \
  void __tsan_write##n(void* p) { Access(p, n, true); }                \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false); }      \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true); }      \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false); }       \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) Access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) Access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, 8, true); }
void __tsan_vptr_read(void** p) { Access(p, 8, false); }

#define ATOMIC(bits, T)                                                                                      \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                                \
    if (!On()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
    Point();                                                                                                 \
    Rt r;                                                                                                    \
    if (!reported && FreedAt(reinterpret_cast<uintptr_t>(a), sizeof(T))) Report("use_after_free");           \
    T now = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                            \
    uint64_t old;                                                                                            \
    if (StaleLoad(reinterpret_cast<uintptr_t>(a), mo, now, &old)) return static_cast<T>(old);                \
    AtomicLoad(reinterpret_cast<uintptr_t>(a), mo);                                                          \
    return now;                                                                                              \
  }                                                                                                          \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                             \
    if (!On()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                                         \
    Point();                                                                                                 \
    Rt r;                                                                                                    \
    if (!reported && FreedAt(reinterpret_cast<uintptr_t>(a), sizeof(T))) Report("use_after_free");           \
    AtomicStore(reinterpret_cast<uintptr_t>(a), mo, false, __atomic_load_n(a, __ATOMIC_SEQ_CST), v);         \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                          \
  static inline void Rmw##bits(volatile T* a, int mo, T (*f)(T, T), T v) {                                   \
    Point();                                                                                                 \
    Rt r;                                                                                                    \
    if (!reported && FreedAt(reinterpret_cast<uintptr_t>(a), sizeof(T))) Report("use_after_free");           \
    AtomicLoad(reinterpret_cast<uintptr_t>(a), mo);                                                          \
    T was = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                            \
    AtomicStore(reinterpret_cast<uintptr_t>(a), mo, true, was, f(was, v));                                   \
  }                                                                                                          \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                             \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return y; }, v);                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                            \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return static_cast<T>(x + y); }, v);         \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                            \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return static_cast<T>(x - y); }, v);         \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                            \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return static_cast<T>(x & y); }, v);         \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                             \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return static_cast<T>(x | y); }, v);         \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                            \
    if (On()) Rmw##bits(a, mo, [](T x, T y) -> T { (void)x; return static_cast<T>(x ^ y); }, v);         \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  static inline int Cas##bits(volatile T* a, T* c, T v, int mo, int fmo, bool weak) {                        \
    if (!On()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
    Point();                                                                                                 \
    Rt r;                                                                                                    \
    if (!reported && FreedAt(reinterpret_cast<uintptr_t>(a), sizeof(T))) Report("use_after_free");           \
    T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                            \
    bool spur = false;                                                                                       \
    if (weak && opt.spurious_cas && old == *c) {                                                             \
      if (random_mode) spur = rng() % 12 == 0;                                                               \
      else if (budget > 0 && Pick(2, false, 0) == 1) { --budget; spur = true; }                              \
    }                                                                                                        \
    uint64_t stale;                                                                                          \
    if (StaleLoad(reinterpret_cast<uintptr_t>(a), fmo, old, &stale) && static_cast<T>(stale) != *c) {        \
      *c = static_cast<T>(stale);                                                                            \
      return 0;                                                                                              \
    }                                                                                                        \
    if (old == *c && !spur) {                                                                                \
      AtomicLoad(reinterpret_cast<uintptr_t>(a), mo);                                                        \
      AtomicStore(reinterpret_cast<uintptr_t>(a), mo, true, old, v);                                         \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                              \
      return 1;                                                                                              \
    }                                                                                                        \
    AtomicLoad(reinterpret_cast<uintptr_t>(a), fmo);                                                         \
    *c = old;                                                                                                \
    return 0;                                                                                                \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {             \
    return Cas##bits(a, c, v, mo, fmo, false);                                                               \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {               \
    return Cas##bits(a, c, v, mo, fmo, true);                                                                \
  }                                                                                                          \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                   \
    Cas##bits(a, &c, v, mo, fmo, false);                                                                     \
    return c;                                                                                                \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!On()) return;
  Point();
  Thread* t = th[self];
  if (IsAcq(mo)) t->vc.Merge(t->acq_pending);
  if (IsRel(mo)) {
    t->rel_fence = t->vc;
    t->has_rel_fence = true;
    ++t->vc.c[self];
  }
}
void __tsan_atomic_signal_fence(int) {}
}
