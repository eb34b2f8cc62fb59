#include "fakeevent.h"

#include <event2/event.h>
#include <sys/time.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <list>
#include <set>

struct event {
  uint32_t magic;
  event_base* base;
  int fd;
  short what;
  event_callback_fn cb;
  void* arg;
  bool pending, active, once;
  short res;
  bool has_due;
  int64_t due, period;
  uint64_t seq;
};
struct event_base {
  std::list<event*> pend;     // pending, in the order they were added
  std::list<event*> active;
  event* running{nullptr};
  bool brk{false}, ext{false};
  int loops{0};
};
static const uint32_t kMagic = 0x5ea51de5;
namespace fe {
std::function<int64_t()> now;
std::function<short(int, short)> ready;
std::function<void(int64_t)> wait;
std::function<void(const char*)> misuse;
std::function<void(int64_t)> at;
std::map<std::string, std::vector<bool>> faults;
std::function<void(const char*)> faulted;
static std::set<event*> all;
static std::set<event_base*> bases;
static uint64_t counter;

static bool Fault(const char* name) {
  auto i = faults.find(name);
  if (i == faults.end() || i->second.empty()) return false;
  bool r = i->second.front();
  i->second.erase(i->second.begin());
  if (r && faulted) faulted(name);
  return r;
}
static bool Good(event* e, const char* what) {
  if (e == nullptr || all.count(e) == 0) { misuse(what); return false; }
  if (e->base != nullptr && bases.count(e->base) == 0) { misuse("event outlived its base"); return false; }
  return true;
}
static void Unlink(event* e) {
  if (e->pending) { e->base->pend.remove(e); e->pending = false; e->has_due = false; }
  if (e->active) { e->base->active.remove(e); e->active = false; }
}
int LiveEvents() { int n = 0; for (auto e : all) n += !e->once; return n; }
int LiveOnce() { int n = 0; for (auto e : all) n += e->once; return n; }
int LiveBases() { return static_cast<int>(bases.size()); }
std::vector<event_base*> Bases() { return {bases.begin(), bases.end()}; }
int64_t NextDue(event_base* b) {
  int64_t r = -1;
  if (bases.count(b) == 0) return r;
  for (auto e : b->pend) if (e->has_due && (r < 0 || e->due < r)) r = e->due;
  return r;
}
bool Broken(event_base* b) { return b->brk || b->ext; }
Info Look(event* e) {
  Info i{};
  if (e == nullptr || all.count(e) == 0) return i;
  i.pending = e->pending || e->active;
  i.options = e->what;
  i.fd = e->fd;
  i.due = e->due;
  i.has_due = e->has_due;
  i.period = e->period;
  return i;
}
std::vector<Info> All() {
  std::vector<Info> r;
  for (auto e : all) r.push_back(Look(e));
  return r;
}
void ForgetAll() { all.clear(); bases.clear(); faults.clear(); }

static void Activate(event* e, short res) {
  if (e->active) { e->res = static_cast<short>(e->res | res); return; }
  e->res = res;
  e->active = true;
  e->base->active.push_back(e);
}
static int Collect(event_base* b) {
  int64_t t = now();
  int n = 0;
  std::vector<event*> fds, due;
  for (auto e : b->pend) {
    if (e->fd >= 0 && (e->what & (EV_READ | EV_WRITE)) != 0) fds.push_back(e);
    if (e->has_due && e->due <= t) due.push_back(e);
  }
  for (auto e : fds) {
    short r = static_cast<short>(ready ? ready(e->fd, e->what) & e->what & (EV_READ | EV_WRITE) : 0);
    if (r) { Activate(e, r); ++n; }
  }
  std::stable_sort(due.begin(), due.end(), [](event* x, event* y) { return x->due < y->due; });
  for (auto e : due) {
    Activate(e, EV_TIMEOUT);
    ++n;
    // the library takes a timed-out event off its list; a persistent one is put back when it runs
    if (!(e->what & EV_PERSIST)) { b->pend.remove(e); e->pending = false; e->has_due = false; }
  }
  return n;
}
static int RunActive(event_base* b) {
  int n = 0;
  // only what was active when the turn began
  size_t todo = b->active.size();
  while (todo-- > 0 && !b->active.empty() && !b->brk) {
    event* e = b->active.front();
    b->active.pop_front();
    e->active = false;
    short res = e->res;
    if (e->what & EV_PERSIST) {
      if (e->period > 0 && e->pending) {
        int64_t t = now();
        int64_t next = (res & EV_TIMEOUT) && e->has_due ? e->due + e->period : t + e->period;
        if (next < t) next = t + e->period;
        e->due = next;
        e->has_due = true;
        b->pend.remove(e);
        b->pend.push_back(e);
      } else if ((res & EV_TIMEOUT) && e->pending) {
        b->pend.remove(e);
        e->pending = false;
        e->has_due = false;
      }
    } else if (e->pending) {
      b->pend.remove(e);
      e->pending = false;
      e->has_due = false;
    }
    auto cb = e->cb;
    int fd = e->fd;
    void* arg = e->arg;
    if (e->once) {
      all.erase(e);
      delete e;
    }
    ++n;
    cb(fd, res, arg);
    if (bases.count(b) == 0) { misuse("base freed while it runs"); return n; }
  }
  return n;
}
int Turn(event_base* b) {
  if (bases.count(b) == 0) return 0;
  Collect(b);
  if (at && !b->active.empty()) at(now());
  return RunActive(b);
}
void RunUntil(event_base* b, int64_t t, const std::function<void(int64_t)>& set_now) {
  int turns = 0;
  while (true) {
    while (Turn(b) > 0) {
      if (++turns > 20000) { misuse("the loop never comes to rest"); return; }
    }
    int64_t d = NextDue(b);
    if (d < 0 || d > t) break;
    if (d > now()) set_now(d);
  }
  if (t > now()) set_now(t);
}
}  // namespace fe
using namespace fe;

static int64_t Us(const timeval* tv) { return static_cast<int64_t>(tv->tv_sec) * 1000000 + tv->tv_usec; }
static bool BaseOk(const event_base* b, const char* what) {
  if (b != nullptr && bases.count(const_cast<event_base*>(b))) return true;
  misuse(what);
  return false;
}
extern "C" {
struct event_base* event_base_new(void) {
  if (Fault("base")) return nullptr;
  auto b = new event_base{};
  bases.insert(b);
  return b;
}
struct event_base* event_base_new_with_config(const struct event_config*) { return event_base_new(); }
static void FreeBase(event_base* b) {
  if (!BaseOk(b, "event_base_free of no base")) return;
  for (auto i = all.begin(); i != all.end();) {
    auto e = *i;
    ++i;
    if (e->base != b) continue;
    Unlink(e);
    if (e->once) { all.erase(e); delete e; }
  }
  bases.erase(b);
  delete b;
}
void event_base_free(struct event_base* b) { FreeBase(b); }
void event_base_free_nofinalize(struct event_base* b) { FreeBase(b); }
int event_reinit(struct event_base*) { return 0; }
static event* Make(event_base* b, int fd, short what, event_callback_fn cb, void* arg) {
  auto e = new event{};
  e->magic = kMagic;
  e->base = b;
  e->fd = fd;
  e->what = what;
  e->cb = cb;
  e->arg = arg;
  e->seq = ++counter;
  all.insert(e);
  return e;
}
struct event* event_new(struct event_base* b, evutil_socket_t fd, short what, event_callback_fn cb, void* arg) {
  if (Fault("new")) return nullptr;
  if (!BaseOk(b, "event_new without a base")) return nullptr;
  return Make(b, fd, what, cb, arg);
}
static void Due(event* e, const timeval* tv) {
  e->has_due = true;
  e->due = now() + Us(tv);
  e->period = (e->what & EV_PERSIST) ? Us(tv) : 0;
}
int event_add(struct event* e, const struct timeval* tv) {
  if (!Good(e, "event_add of no event")) return -1;
  if (Fault("add")) return -1;
  if (tv != nullptr && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) misuse("event_add with a malformed time");
  if (!e->pending) {
    e->pending = true;
    e->base->pend.push_back(e);
  }
  if (tv != nullptr) {
    if (e->active && (e->res & EV_TIMEOUT)) { e->base->active.remove(e); e->active = false; }
    Due(e, tv);
  }
  return 0;
}
int event_del(struct event* e) {
  if (!Good(e, "event_del of no event")) return -1;
  if (Fault("del")) return -1;
  Unlink(e);
  return 0;
}
int event_del_block(struct event* e) { return event_del(e); }
int event_del_noblock(struct event* e) { return event_del(e); }
int event_remove_timer(struct event* e) {
  if (!Good(e, "event_remove_timer of no event")) return -1;
  e->has_due = false;
  e->period = 0;
  return 0;
}
void event_free(struct event* e) {
  if (!Good(e, "event_free of no event")) return;
  Unlink(e);
  all.erase(e);
  memset(static_cast<void*>(e), 0xdd, sizeof *e);
  delete e;
}
void event_active(struct event* e, int res, short) {
  if (!Good(e, "event_active of no event")) return;
  Activate(e, static_cast<short>(res));
}
int event_pending(const struct event* e, short what, struct timeval* tv) {
  if (!Good(const_cast<event*>(e), "event_pending of no event")) return 0;
  int r = 0;
  if (e->pending) r |= e->what & (EV_READ | EV_WRITE | EV_SIGNAL);
  if (e->active) r |= e->res;
  if (e->has_due) r |= EV_TIMEOUT;
  if (tv && e->has_due) { tv->tv_sec = e->due / 1000000; tv->tv_usec = e->due % 1000000; }
  return r & (what & (EV_TIMEOUT | EV_READ | EV_WRITE | EV_SIGNAL));
}
int event_initialized(const struct event* e) { return e != nullptr && all.count(const_cast<event*>(e)); }
evutil_socket_t event_get_fd(const struct event* e) { return e->fd; }
struct event_base* event_get_base(const struct event* e) { return e->base; }
short event_get_events(const struct event* e) { return e->what; }
event_callback_fn event_get_callback(const struct event* e) { return e->cb; }
void* event_get_callback_arg(const struct event* e) { return e->arg; }
int event_base_once(struct event_base* b, evutil_socket_t fd, short what, event_callback_fn cb, void* arg, const struct timeval* tv) {
  if (!BaseOk(b, "event_base_once without a base")) return -1;
  if (what & (EV_SIGNAL | EV_PERSIST)) return -1;
  if (Fault("once")) return -1;
  if (tv != nullptr && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) misuse("event_base_once with a malformed time");
  auto e = Make(b, fd, what, cb, arg);
  e->once = true;
  if (what == EV_TIMEOUT) {
    e->fd = -1;
    if (tv == nullptr || Us(tv) == 0) { Activate(e, EV_TIMEOUT); return 0; }
  }
  e->pending = true;
  b->pend.push_back(e);
  if (tv != nullptr) Due(e, tv);
  return 0;
}
int event_base_loop(struct event_base* b, int flags) {
  if (!BaseOk(b, "dispatch without a base")) return -1;
  if (Fault("dispatch")) return -1;
  if (b->loops) { misuse("dispatch inside dispatch"); return -1; }
  b->loops = 1;
  b->brk = b->ext = false;
  int r = 0;
  while (true) {
    if (b->ext || b->brk) break;
    if (b->pend.empty() && b->active.empty() && !(flags & EVLOOP_NO_EXIT_ON_EMPTY)) { r = 1; break; }
    int n = fe::Turn(b);
    if (b->brk) break;
    if (n && (flags & EVLOOP_ONCE)) break;
    if (n == 0) {
      if (flags & EVLOOP_NONBLOCK) break;
      if (b->active.empty()) fe::wait(fe::NextDue(b));
    }
  }
  b->loops = 0;
  b->brk = b->ext = false;
  return r;
}
int event_base_dispatch(struct event_base* b) { return event_base_loop(b, 0); }
int event_base_loopbreak(struct event_base* b) {
  if (b == nullptr) return -1;
  if (!BaseOk(b, "loopbreak without a base")) return -1;
  if (Fault("break")) return -1;
  b->brk = true;
  return 0;
}
int event_base_loopexit(struct event_base* b, const struct timeval* tv) {
  if (!BaseOk(b, "loopexit without a base")) return -1;
  if (tv == nullptr) { b->ext = true; return 0; }
  return event_base_once(b, -1, EV_TIMEOUT, [](int, short, void* p) { static_cast<event_base*>(p)->ext = true; }, b, tv);
}
int event_base_got_break(struct event_base* b) { return b->brk; }
int event_base_got_exit(struct event_base* b) { return b->ext; }
int event_base_gettimeofday_cached(struct event_base*, struct timeval* tv) {
  tv->tv_sec = now() / 1000000;
  tv->tv_usec = now() % 1000000;
  return 0;
}
int event_base_priority_init(struct event_base*, int) { return 0; }
int event_priority_set(struct event*, int) { return 0; }
}
