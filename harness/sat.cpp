// Driver for C18 and the connection half of C10: a satellite streamer over a scripted network on
// virtual time.  Descriptors from 900000 on belong to the script; nothing reaches the real network.
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <event2/event.h>

#include "fakeevent.h"
#include "common/logger.h"
#include "recorder/stream_recorder/satellite_streamer.h"
#include "sink.h"
using namespace lightstep;

static int64_t clock_us;
static bool bad, active;
static long turns;

// ---- the network
struct Chunk { int kind; std::string data; };  // 0 data, 1 end, 2 error
struct Desc {
  long id{0};
  bool open{false}, nonblock{false}, connected{false};
  int family{0};
  long space{0};  // bytes it takes before it blocks, -1: any number
  int werr{0};
  std::deque<Chunk> in;
};
static std::map<int, Desc> table;
static long next_id;
static std::deque<int> conn_faults;  // for the next connections: 0 fine, 1 refused, 2 no socket, 3 not set up, 4 done at once
static int fault_now;
static std::vector<std::pair<std::string, int>> eps;
static const int kFirst = 900000;
static bool Mine(int fd) { return active && fd >= kFirst; }
static Desc* Get(int fd, const char* what) {
  auto i = table.find(fd);
  if (i == table.end() || !i->second.open) {
    Ev(std::string("\"e\":\"badfd\",\"what\":\"") + what + "\"");
    errno = EBADF;
    return nullptr;
  }
  return &i->second;
}
static std::string Hex(const char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; ++i) { r += d[(p[i] >> 4) & 15]; r += d[p[i] & 15]; }
  return r;
}
static bool Writable(const Desc& d) { return d.open && (d.space != 0 || d.werr != 0); }
extern "C" int socket(int family, int, int) {
  if (!active) { errno = ENOSYS; return -1; }
  fault_now = 0;
  if (!conn_faults.empty()) { fault_now = conn_faults.front(); conn_faults.pop_front(); }
  if (fault_now == 2) {
    Ev("\"e\":\"conn\",\"id\":0,\"h\":-1,\"port\":0,\"ok\":0");
    errno = EMFILE;
    return -1;
  }
  int fd = kFirst;
  while (table[fd].open) ++fd;
  table[fd] = Desc{};
  table[fd].open = true;
  table[fd].family = family;
  table[fd].id = ++next_id;
  return fd;
}
typedef int (*close_t)(int);
extern "C" int close(int fd) {
  static close_t real = reinterpret_cast<close_t>(dlsym(RTLD_NEXT, "close"));
  if (!Mine(fd)) return real(fd);
  auto d = Get(fd, "close");
  if (d == nullptr) return -1;
  d->open = false;
  Ev("\"e\":\"close\",\"id\":" + S(d->id));
  return 0;
}
static int Setup(int fd, const char* what) {
  auto d = Get(fd, what);
  if (d == nullptr) return -1;
  if (fault_now == 3 && !d->connected) {
    Ev("\"e\":\"conn\",\"id\":" + S(d->id) + ",\"h\":-1,\"port\":0,\"ok\":0");
    fault_now = 0;
    errno = ENOMEM;
    return -1;
  }
  return 0;
}
static int Fcntl(int fd, int cmd, long arg) {
  if (cmd == F_GETFL) return O_RDWR;
  if (cmd == F_SETFL) {
    if (Setup(fd, "fcntl") != 0) return -1;
    table[fd].nonblock = (arg & O_NONBLOCK) != 0;
  }
  return 0;
}
typedef int (*fcntl_t)(int, int, ...);
extern "C" int fcntl(int fd, int cmd, ...) {
  static fcntl_t real = reinterpret_cast<fcntl_t>(dlsym(RTLD_NEXT, "fcntl"));
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
extern "C" int fcntl64(int fd, int cmd, ...) {
  static fcntl_t real = reinterpret_cast<fcntl_t>(dlsym(RTLD_NEXT, "fcntl64"));
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
typedef int (*ioctl_t)(int, unsigned long, ...);
extern "C" int ioctl(int fd, unsigned long req, ...) {
  static ioctl_t real = reinterpret_cast<ioctl_t>(dlsym(RTLD_NEXT, "ioctl"));
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!Mine(fd)) return real(fd, req, arg);
  if (req == FIONBIO) return Fcntl(fd, F_SETFL, *static_cast<int*>(arg) ? O_NONBLOCK : 0);
  return 0;
}
extern "C" int setsockopt(int fd, int, int, const void*, socklen_t) { return Mine(fd) ? (Get(fd, "setsockopt") ? 0 : -1) : -1; }
extern "C" int connect(int fd, const sockaddr* addr, socklen_t) {
  if (!Mine(fd)) { errno = ENOSYS; return -1; }
  auto d = Get(fd, "connect");
  if (d == nullptr) return -1;
  int h = -1, port = 0;
  if (addr->sa_family == AF_INET) {
    auto a = reinterpret_cast<const sockaddr_in*>(addr);
    port = ntohs(a->sin_port);
    h = reinterpret_cast<const unsigned char*>(&a->sin_addr)[2];
  } else {
    auto a = reinterpret_cast<const sockaddr_in6*>(addr);
    port = ntohs(a->sin6_port);
    h = a->sin6_addr.s6_addr[13];
  }
  bool ok = fault_now != 1;
  d->connected = true;
  Ev("\"e\":\"conn\",\"id\":" + S(d->id) + ",\"h\":" + S(h) + ",\"port\":" + S(port) + ",\"ok\":" + S(ok) + ",\"nb\":" + S(d->nonblock));
  if (!ok) { errno = ECONNREFUSED; return -1; }
  if (fault_now == 4) { d->space = -1; return 0; }
  errno = EINPROGRESS;
  return -1;
}
static ssize_t Put(int fd, const iovec* iov, int cnt) {
  auto d = Get(fd, "write");
  if (d == nullptr) return -1;
  if (++turns > 200000) { printf("ENDLESS\n"); fflush(stdout); _exit(77); }
  bool wr = Writable(*d);
  long total = 0, got = 0;
  for (int i = 0; i < cnt; ++i) total += static_cast<long>(iov[i].iov_len);
  int err = cnt > 1024 ? EINVAL : d->werr;
  std::string s;
  if (!err && d->space == 0) err = EAGAIN;
  if (!err) {
    got = d->space < 0 ? total : std::min(total, d->space);
    long left = got;
    for (int i = 0; i < cnt && left > 0; ++i) {
      auto n = std::min<long>(left, static_cast<long>(iov[i].iov_len));
      s.append(static_cast<const char*>(iov[i].iov_base), n);
      left -= n;
    }
    if (d->space > 0) d->space -= got;
  }
  Ev("\"e\":\"write\",\"id\":" + S(d->id) + ",\"wr\":" + S(wr) + ",\"full\":" + S(!err && got == total) + ",\"err\":" + S(err && err != EAGAIN) + ",\"w\":\"" + Hex(s.data(), s.size()) + "\"");
  if (err) { errno = err; return -1; }
  return got;
}
typedef ssize_t (*writev_t)(int, const iovec*, int);
extern "C" ssize_t writev(int fd, const iovec* iov, int cnt) {
  static writev_t real = reinterpret_cast<writev_t>(dlsym(RTLD_NEXT, "writev"));
  return Mine(fd) ? Put(fd, iov, cnt) : real(fd, iov, cnt);
}
typedef ssize_t (*write_t)(int, const void*, size_t);
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  static write_t real = reinterpret_cast<write_t>(dlsym(RTLD_NEXT, "write"));
  if (!Mine(fd)) return real(fd, p, n);
  iovec v{const_cast<void*>(p), n};
  return Put(fd, &v, 1);
}
extern "C" ssize_t send(int fd, const void* p, size_t n, int) {
  iovec v{const_cast<void*>(p), n};
  return Put(fd, &v, 1);
}
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int) { return Put(fd, m->msg_iov, static_cast<int>(m->msg_iovlen)); }
static ssize_t Take(int fd, void* p, size_t n) {
  auto d = Get(fd, "read");
  if (d == nullptr) return -1;
  if (++turns > 200000) { printf("ENDLESS\n"); fflush(stdout); _exit(77); }
  auto ev = [&](long r, const std::string& s) { Ev("\"e\":\"read\",\"id\":" + S(d->id) + ",\"r\":" + S(r) + ",\"d\":\"" + Hex(s.data(), s.size()) + "\""); };
  if (d->in.empty()) { ev(-11, ""); errno = EAGAIN; return -1; }
  auto& c = d->in.front();
  if (c.kind == 1) { ev(0, ""); return 0; }
  if (c.kind == 2) { ev(-104, ""); errno = ECONNRESET; return -1; }
  auto k = std::min(n, c.data.size());
  auto s = c.data.substr(0, k);
  memcpy(p, s.data(), k);
  c.data.erase(0, k);
  if (c.data.empty()) d->in.pop_front();
  ev(static_cast<long>(k), s);
  return static_cast<ssize_t>(k);
}
typedef ssize_t (*read_t)(int, void*, size_t);
extern "C" ssize_t read(int fd, void* p, size_t n) {
  static read_t real = reinterpret_cast<read_t>(dlsym(RTLD_NEXT, "read"));
  return Mine(fd) ? Take(fd, p, n) : real(fd, p, n);
}
extern "C" ssize_t recv(int fd, void* p, size_t n, int) { return Take(fd, p, n); }
extern "C" int shutdown(int fd, int) { return Mine(fd) && Get(fd, "shutdown") ? 0 : -1; }

// ---- names
static int HostOf(const std::string& n) {
  int k = 0;
  for (auto& e : eps) { if (e.first == n) return k; ++k; }
  return -1;
}
struct Resolution : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
static std::vector<std::pair<std::string, DnsResolutionCallback*>> questions;
static void AnswerOne(const std::string& n, DnsResolutionCallback& cb) {
  char b[64];
  snprintf(b, sizeof b, "10.0.%d.1", HostOf(n));
  Resolution r;
  r.a.emplace_back(b);
  cb.OnDnsResolution(r, "");
}
struct Fake : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    if (family != AF_INET) return;
    questions.emplace_back(name, &cb);
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new Fake{}}; }
}  // namespace lightstep

// ---- the streamer
struct Obs : MetricsObserver {
  long sent{0}, dropped{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
struct World {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions to;
  StreamRecorderOptions ro;
  EventBase base;
  Obs obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buffer;
  std::unique_ptr<SatelliteStreamer> s;
  explicit World(size_t cap) : buffer{cap} {}
};
static std::unique_ptr<World> w;
static std::unique_ptr<ChainedStream> Span(const std::string& s) {
  std::unique_ptr<ChainedStream> r{new ChainedStream{}};
  size_t i = 0;
  void* d;
  int n;
  while (i < s.size()) {
    r->Next(&d, &n);
    size_t k = std::min<size_t>(n, s.size() - i);
    memcpy(d, s.data() + i, k);
    if (k < static_cast<size_t>(n)) r->BackUp(n - static_cast<int>(k));
    i += k;
  }
  r->CloseOutput();
  return r;
}
static std::string Sockets() {  // each open one with whether it can be written to or read from
  std::string k;
  for (auto& d : table) {
    if (!d.second.open) continue;
    k += (k.empty() ? "[" : ",[") + S(d.second.id) + "," + S(Writable(d.second)) + "," + S(!d.second.in.empty()) + "]";
  }
  return "\"k\":[" + k + "]";
}
static void Run(int64_t until) {
  fe::RunUntil(w->base.libevent_handle(), until, [](int64_t t) {
    Ev("\"e\":\"now\",\"t\":" + S(t) + "," + Sockets());
    clock_us = t;
  });
}
static void Rest() {
  Ev("\"e\":\"rest\",\"bad\":" + S(bad) + ",\"act\":" + S(w->s ? w->s->is_active() : -1) + ",\"n\":" + S(static_cast<long>(w->buffer.size())) + ",\"sent\":" +
     S(w->obs.sent) + ",\"dropped\":" + S(w->obs.dropped) + "," + Sockets());
}
static Desc* Open(int i) {  // the i-th open socket in order of creation
  std::map<long, Desc*> o;
  for (auto& d : table) if (d.second.open) o[d.second.id] = &d.second;
  for (auto& d : o) if (i-- == 0) return d.second;
  return nullptr;
}

int main() {
  fe::now = [] { return clock_us; };
  fe::misuse = [](const char* m) { bad = true; fprintf(stderr, "misuse: %s\n", m); };
  fe::wait = [](int64_t) {};
  fe::ready = [](int fd, short want) -> short {
    auto i = table.find(fd);
    if (i == table.end() || !i->second.open) return 0;
    return static_cast<short>((Writable(i->second) ? want & EV_WRITE : 0) | (!i->second.in.empty() ? want & EV_READ : 0));
  };
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, s;
    in >> op;
    if (op == "T") {
      active = false;
      w.reset();
      table.clear();
      conn_faults.clear();
      questions.clear();
      eps.clear();
      fe::ForgetAll();
      clock_us = 0;
      next_id = 0;
      turns = 0;
      bad = false;
      printf("T\n");
      continue;
    }
    if (op == "I") {  // I capacity connections write-timeout retry renew-min renew-max grace name port ...
      long cap, nc, wt, rt, mn, mx, gr;
      int port;
      in >> cap >> nc >> wt >> rt >> mn >> mx >> gr;
      w.reset(new World{static_cast<size_t>(cap)});
      using us = std::chrono::microseconds;
      auto& o = w->ro;
      o.num_satellite_connections = static_cast<int>(nc);
      o.satellite_write_timeout = us{wt};
      o.satellite_failure_retry_period = us{rt};
      o.min_satellite_reconnect_period = us{mn};
      o.max_satellite_reconnect_period = us{mx};
      o.satellite_graceful_stream_shutdown_timeout = us{gr};
      o.min_dns_resolution_refresh_period = us{1999000000};
      o.max_dns_resolution_refresh_period = us{2000000000};
      w->to.satellite_endpoints.clear();
      w->to.component_name = "component";
      w->to.access_token = "token";
      std::string l;
      while (in >> s >> port) {
        eps.emplace_back(s, port);
        w->to.satellite_endpoints.emplace_back(s, static_cast<uint16_t>(port));
        l += (l.empty() ? "[" : ",[") + S(HostOf(s)) + "," + S(port) + "]";
      }
      active = true;
      w->s.reset(new SatelliteStreamer{w->logger, w->base, w->to, w->ro, w->metrics, w->buffer});
      auto c = w->s->header_common_fragment();
      Ev("\"e\":\"new\",\"cap\":" + S(cap) + ",\"nc\":" + S(nc) + ",\"wt\":" + S(wt) + ",\"retry\":" + S(rt) + ",\"min\":" + S(mn) + ",\"max\":" + S(mx) + ",\"grace\":" +
         S(gr) + ",\"eps\":[" + l + "],\"common\":\"" + Hex(static_cast<char*>(c.first), c.second) + "\",\"names\":[" + [] {
           std::string r;
           for (auto& e : eps) r += (r.empty() ? "\"" : ",\"") + eps[HostOf(e.first)].first + "\"";
           return r;
         }() + "]");
      Rest();
      continue;
    }
    if (!w) continue;
    if (op == "dns") {
      if (!w->s) continue;
      size_t most = 100;
      in >> most;  // how many of the questions asked are answered
      while (!questions.empty() && most-- > 0) {
        auto x = questions.front();
        questions.erase(questions.begin());
        Ev("\"e\":\"go\",\"h\":" + S(HostOf(x.first)));
        AnswerOne(x.first, *x.second);
      }
      Run(clock_us);
      Ev("\"e\":\"went\"");
    } else if (op == "A") {
      int id;
      long len;
      in >> id >> len;
      std::string body;
      while (static_cast<long>(body.size()) < len) body += "<" + std::to_string(id) + ":" + std::to_string(body.size()) + ">";
      body.resize(len);
      char h[32];
      snprintf(h, sizeof h, "%lX\r\n", len);
      auto sp = Span(h + body + "\r\n");
      bool ok = w->buffer.Add(sp);
      Ev("\"e\":\"add\",\"id\":" + S(id) + ",\"len\":" + S(len) + ",\"ok\":" + S(ok));
      if (!ok) w->metrics.OnSpansDropped(1);
      Run(clock_us);
    } else if (op == "D") {
      int n;
      in >> n;
      Ev("\"e\":\"lost\",\"n0\":" + S(n));
      w->metrics.OnSpansDropped(n);
      Run(clock_us);
    } else if (op == "F") {
      if (!w->s) continue;
      Ev("\"e\":\"flush\"");
      w->s->Flush();
      Ev("\"e\":\"flushed\"");
      Run(clock_us);
    } else if (op == "cf") {
      int k;
      while (in >> k) conn_faults.push_back(k);
      continue;
    } else if (op == "g" || op == "r" || op == "e" || op == "x" || op == "we") {
      int i;
      in >> i;
      auto d = Open(i);
      if (d == nullptr) continue;
      if (op == "g") { in >> d->space; }
      else if (op == "r") {
        int hex;
        std::string data;
        while (in >> std::hex >> hex) data += static_cast<char>(hex);
        if (!data.empty()) d->in.push_back(Chunk{0, data});
      } else if (op == "e") d->in.push_back(Chunk{1, ""});
      else if (op == "x") d->in.push_back(Chunk{2, ""});
      else d->werr = ECONNRESET;
      if (line.back() == '+') continue;  // more happens at the same instant
      Run(clock_us);
    } else if (op == "adv") {
      long us;
      in >> us;
      Run(clock_us + us);
    } else if (op == "shut") {
      if (!w->s) continue;
      Ev("\"e\":\"shut\"");
      w->s->InitiateShutdown();
      Run(clock_us);
    } else if (op == "del") {
      if (!w->s) continue;
      Ev("\"e\":\"del\"");
      w->s.reset();
      Ev("\"e\":\"gone\",\"left\":" + S(w->metrics.ConsumeDroppedSpans()));
    }
    Rest();
  }
  active = false;
  w.reset();
  printf("END\n");
  return 0;
}
