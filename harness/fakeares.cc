#include "fakeares.h"

#include <ares.h>
#include <arpa/inet.h>
#include <event2/event.h>
#include <netdb.h>
#include <sys/time.h>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>

#include "sink.h"

namespace fa {
struct Sock { ares_channeldata* ch; bool tcp, connected, unsent; std::deque<std::pair<int, char>> in; };
struct Query {
  int k;
  ares_host_callback cb;
  void* arg;
  Plan plan;
  int left;
  int64_t dl;
  int fd;
  bool over;
};
}  // namespace fa
struct ares_channeldata {
  int id;
  int64_t timeout;
  ares_sock_state_cb cb;
  void* data;
  std::list<std::shared_ptr<fa::Query>> q;
  bool dying;
};
namespace fa {
std::function<int64_t()> now;
std::function<void(const char*)> misuse;
std::deque<Plan> plans;
bool init_fails;
static std::set<ares_channeldata*> live;
static std::map<int, Sock> socks;
static int last_k, last_c;
static bool initialised;

static bool Good(ares_channeldata* c, const char* what) {
  if (live.count(c)) return true;
  misuse(what);
  return false;
}
int Channels() { return static_cast<int>(live.size()); }
static Query* Find(int k) {
  for (auto c : live) for (auto& q : c->q) if (q->k == k && !q->over) return q.get();
  return nullptr;
}
bool Pending(int k) { return Find(k) != nullptr; }
void Forget() { live.clear(); socks.clear(); plans.clear(); last_k = last_c = 0; init_fails = false; }
static void Tell(ares_channeldata* c, int fd, int r, int w) {
  Ev("\"e\":\"sock\",\"fd\":" + S(fd) + ",\"r\":" + S(r) + ",\"w\":" + S(w));
  if (c->cb) c->cb(c->data, fd, r, w);
}
static int Open(ares_channeldata* c, bool tcp) {
  if (!tcp) for (auto& s : socks) if (s.second.ch == c && !s.second.tcp) return s.first;
  int fd = 100;
  while (socks.count(fd)) ++fd;   // as the system does, the lowest number free
  socks[fd] = Sock{c, tcp, false, tcp, {}};
  Tell(c, fd, 1, tcp);
  return fd;
}
static void Close(ares_channeldata* c, int fd) {
  socks.erase(fd);
  Tell(c, fd, 0, 0);
}
static bool Used(ares_channeldata* c, int fd) {
  for (auto& q : c->q) if (!q->over && q->fd == fd) return true;
  return false;
}
static void Sweep(ares_channeldata* c) {
  for (bool again = true; again;) {
    again = false;
    for (auto& s : socks) if (s.second.ch == c && !Used(c, s.first)) { Close(c, s.first); again = true; break; }
  }
}
static void Send(ares_channeldata* c, Query& q, bool tcp) {
  q.fd = -1;
  int shift = q.plan.tries - q.left;   // each further try waits twice as long
  q.dl = now() + (c->timeout << (shift < 4 ? shift : 4));
  q.fd = Open(c, tcp);
  Ev("\"e\":\"send\",\"k\":" + S(q.k) + ",\"fd\":" + S(q.fd) + ",\"dl\":" + S(q.dl));
}
static void End(ares_channeldata*, std::shared_ptr<Query> q, int status) {
  q->over = true;
  q->fd = -1;
  auto& p = q->plan;
  std::string l;
  bool host = status == ARES_SUCCESS && !p.null;
  if (host) for (int a : p.addrs) l += (l.empty() ? "[" : ",[") + S(p.type) + "," + S(a) + "]";
  Ev("\"e\":\"end\",\"k\":" + S(q->k) + ",\"ok\":" + S(status == ARES_SUCCESS) + ",\"l\":[" + l + "]");
  if (!host) { q->cb(q->arg, status, q->plan.tries, nullptr); return; }
  // on the heap, and gone after the call, as the library's own
  size_t n = p.addrs.size(), sz = p.type == 4 ? 4 : 16;
  auto h = static_cast<hostent*>(calloc(1, sizeof(hostent)));
  h->h_name = strdup("a.name");
  h->h_aliases = static_cast<char**>(calloc(1, sizeof(char*)));
  h->h_addrtype = p.type == 4 ? AF_INET : p.type == 6 ? AF_INET6 : AF_UNIX;
  h->h_length = static_cast<int>(sz);
  h->h_addr_list = static_cast<char**>(calloc(n + 1, sizeof(char*)));
  for (size_t i = 0; i < n; ++i) {
    auto b = static_cast<unsigned char*>(calloc(1, sz));
    if (sz == 4) { b[0] = 10; b[3] = static_cast<unsigned char>(p.addrs[i]); }
    else { b[0] = 0xfd; b[15] = static_cast<unsigned char>(p.addrs[i]); }
    h->h_addr_list[i] = reinterpret_cast<char*>(b);
  }
  q->cb(q->arg, status, 0, h);
  for (size_t i = 0; i < n; ++i) free(h->h_addr_list[i]);
  free(h->h_addr_list);
  free(h->h_aliases);
  free(h->h_name);
  free(h);
}
static void Retry(ares_channeldata* c, std::shared_ptr<Query> q, bool tcp, int status) {
  if (--q->left > 0) Send(c, *q, tcp);
  else End(c, q, status);
}
void Arrive(int k, char kind) {
  auto q = Find(k);
  if (q == nullptr || q->fd < 0) return;
  auto& s = socks[q->fd];
  if (kind == 'c') {
    if (!s.tcp || s.connected) return;
    s.connected = true;
  } else {
    if (s.tcp && s.unsent) return;
    s.in.emplace_back(k, kind);
  }
  Ev("\"e\":\"" + std::string(kind == 'c' ? "conn" : "arr") + "\",\"fd\":" + S(q->fd));
}
short Ready(int fd, short want) {
  auto i = socks.find(fd);
  if (i == socks.end()) return 0;
  short r = 0;
  if (!i->second.in.empty()) r |= EV_READ;
  if (i->second.tcp ? i->second.connected : true) r |= EV_WRITE;
  return static_cast<short>(r & want);
}
static std::shared_ptr<Query> Shared(ares_channeldata* c, int k) {
  for (auto& q : c->q) if (q->k == k && !q->over) return q;
  return nullptr;
}
static void Process(ares_channeldata* c, int r, int w) {
  auto i = socks.find(w);
  if (w != ARES_SOCKET_BAD && i != socks.end() && i->second.ch == c && i->second.connected && i->second.unsent) {
    i->second.unsent = false;
    Ev("\"e\":\"sent\",\"fd\":" + S(w));
    Tell(c, w, 1, 0);
  }
  if (r != ARES_SOCKET_BAD && socks.count(r) && socks[r].ch == c) {
    Ev("\"e\":\"read\",\"fd\":" + S(r));
    while (socks.count(r) && !socks[r].in.empty()) {
      auto m = socks[r].in.front();
      socks[r].in.pop_front();
      bool tcp = socks[r].tcp;
      if (m.second == 'e') {   // the socket is given up, and all that waited on it ask again elsewhere
        std::vector<std::shared_ptr<Query>> l;
        for (auto& q : c->q) if (!q->over && q->fd == r) l.push_back(q);
        for (auto& q : l) q->fd = -1;
        Close(c, r);
        for (auto& q : l) if (!q->over) Retry(c, q, tcp, ARES_ECONNREFUSED);
        break;
      }
      auto q = Shared(c, m.first);
      if (!q || q->fd != r || m.second == 's') continue;   // nobody waits for this packet
      if (m.second == 'f') Retry(c, q, tcp, ARES_ESERVFAIL);
      else if (m.second == 't' && !tcp) Send(c, *q, true);
      else if (q->plan.hops > 0) { --q->plan.hops; q->left = q->plan.tries; Send(c, *q, tcp); }
      else End(c, q, q->plan.status);
      if (!live.count(c)) return;
    }
  }
  std::vector<std::shared_ptr<Query>> late;
  for (auto& q : c->q) if (!q->over && q->dl <= now()) late.push_back(q);
  for (auto& q : late) if (!q->over && q->dl <= now()) Retry(c, q, q->fd >= 0 && socks.count(q->fd) && socks[q->fd].tcp, ARES_ETIMEOUT);
  Sweep(c);
  c->q.remove_if([](const std::shared_ptr<Query>& q) { return q->over; });
}
}  // namespace fa
using namespace fa;

extern "C" {
int ares_library_init(int) {
  if (getenv("FAKE_ARES_INIT_FAILS")) return ARES_ENOTINITIALIZED;
  initialised = true;
  return ARES_SUCCESS;
}
int ares_library_init_mem(int f, void* (*)(size_t), void (*)(void*), void* (*)(void*, size_t)) { return ares_library_init(f); }
int ares_library_initialized(void) { return initialised ? ARES_SUCCESS : ARES_ENOTINITIALIZED; }
void ares_library_cleanup(void) { initialised = false; }
const char* ares_strerror(int code) {
  switch (code) {
    case ARES_SUCCESS: return "Successful completion";
    case ARES_ENODATA: return "DNS server returned answer with no data";
    case ARES_ENOTFOUND: return "Domain name not found";
    case ARES_ETIMEOUT: return "Timeout while contacting DNS servers";
    case ARES_EDESTRUCTION: return "Channel is being destroyed";
    default: return "some other error";
  }
}
int ares_init_options(ares_channel_t** out, const struct ares_options* o, int mask) {
  std::string l;
  if (mask & ARES_OPT_SERVERS) for (int i = 0; i < o->nservers; ++i) {
    auto b = reinterpret_cast<unsigned char*>(&o->servers[i]);
    l += (l.empty() ? "" : ",") + S(b[3]);
  }
  bool ok = initialised && !init_fails;
  init_fails = false;
  int to = mask & ARES_OPT_TIMEOUTMS ? o->timeout : mask & ARES_OPT_TIMEOUT ? o->timeout * 1000 : -1;
  Ev("\"e\":\"init\",\"ok\":" + S(ok) + ",\"udp\":" + S(mask & ARES_OPT_UDP_PORT ? o->udp_port : 53) + ",\"tcp\":" + S(mask & ARES_OPT_TCP_PORT ? o->tcp_port : 53) +
     ",\"to\":" + S(to) + ",\"srv\":[" + l + "],\"c\":" + S(ok ? ++last_c : 0));
  if (!ok) return ARES_ENOMEM;
  auto c = new ares_channeldata{};
  c->id = last_c;
  c->timeout = (to > 0 ? to : 5000) * int64_t{1000};
  if (mask & ARES_OPT_SOCK_STATE_CB) { c->cb = o->sock_state_cb; c->data = o->sock_state_cb_data; }
  live.insert(c);
  *out = c;
  return ARES_SUCCESS;
}
int ares_init(ares_channel_t** out) { return ares_init_options(out, nullptr, 0); }
static void AllEnd(ares_channeldata* c, int status) {
  auto l = c->q;
  for (auto& q : l) if (!q->over) End(c, q, status);
  c->q.remove_if([](const std::shared_ptr<Query>& q) { return q->over; });
}
void ares_cancel(ares_channel_t* c) { if (Good(c, "ares_cancel of no channel")) { AllEnd(c, ARES_ECANCELLED); Sweep(c); } }
void ares_destroy(ares_channel_t* c) {
  if (!Good(c, "ares_destroy of no channel")) return;
  c->dying = true;
  AllEnd(c, ARES_EDESTRUCTION);
  Sweep(c);
  live.erase(c);
  delete c;
}
void ares_gethostbyname(ares_channel_t* c, const char* name, int family, ares_host_callback cb, void* arg) {
  if (!Good(c, "ares_gethostbyname of no channel")) return;
  if (c->dying) misuse("a question asked while the channel is destroyed");
  Plan p;
  p.now = true;
  p.status = ARES_ENOTFOUND;
  if (!plans.empty()) { p = plans.front(); plans.pop_front(); }
  auto q = std::make_shared<Query>(Query{++last_k, cb, arg, p, p.tries, 0, -1, false});
  Ev("\"e\":\"asked\",\"k\":" + S(q->k) + ",\"c\":" + S(c->id) + ",\"name\":\"" + name + "\",\"f\":" + S(family == AF_INET ? 4 : family == AF_INET6 ? 6 : 0));
  if (p.now) { End(c, q, p.status); return; }
  c->q.push_back(q);
  Send(c, *q, false);
}
void ares_process_fd(ares_channel_t* c, ares_socket_t r, ares_socket_t w) {
  if (!Good(c, "ares_process_fd of no channel")) return;
  Process(c, r, w);
}
struct timeval* ares_timeout(ares_channel_t* c, struct timeval* maxtv, struct timeval* tv) {
  if (!Good(c, "ares_timeout of no channel")) return maxtv;
  int64_t d = -1;
  for (auto& q : c->q) if (!q->over && (d < 0 || q->dl < d)) d = q->dl;
  if (d < 0) return maxtv;
  int64_t left = d > now() ? d - now() : 0;
  if (maxtv && maxtv->tv_sec * int64_t{1000000} + maxtv->tv_usec <= left) return maxtv;
  tv->tv_sec = left / 1000000;
  tv->tv_usec = left % 1000000;
  return tv;
}
}
