#include "fakenet.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <event2/event.h>
#include "sink.h"

namespace fn {
struct Act { int64_t at; char what; long n; };
struct Chunk { int kind; std::string data; };
struct Desc {
  long id{0};
  bool open{false}, nonblock{false}, connected{false};
  char outcome{'c'};
  long space{0};
  int werr{0};
  std::deque<Chunk> in;
  std::deque<Act> plan;
  int64_t reply_after{-1};
  std::string tail;  // the last bytes written
};
std::function<int64_t()> ms;
static bool active;
static std::map<int, Desc> table;
static long next_id;
static std::vector<std::string> scripts;
static std::string fallback;
static const int kFirst = 900000;

static void Plan(Desc& d, const std::string& s, int64_t t) {
  d.outcome = s.empty() ? 'c' : s[0];
  size_t i = 1;
  while (i < s.size() && s[i] == '.') {
    char* e;
    long dt = strtol(s.c_str() + i + 1, &e, 10);
    char w = *e++;
    long n = 0;
    if (w == 'p') n = strtol(e, &e, 10);
    i = e - s.c_str();
    if (w == 'A') d.reply_after = dt;
    else d.plan.push_back(Act{t + dt, w, n});
  }
  std::stable_sort(d.plan.begin(), d.plan.end(), [](const Act& a, const Act& b) { return a.at < b.at; });
}
static void Update(Desc& d) {
  while (!d.plan.empty() && d.plan.front().at <= ms()) {
    Act a = d.plan.front();
    d.plan.pop_front();
    switch (a.what) {
      case 'w': d.space = -1; break;
      case 's': d.space = 0; break;
      case 'p': if (d.space >= 0) d.space += a.n; break;
      case 'b': d.werr = ECONNRESET; break;
      case 'y': d.in.push_back(Chunk{0, "HTTP/1.1 200 OK\r\nContent-Length:0\r\n\r\n"}); break;
      case 'm': d.in.push_back(Chunk{0, "garbage\r\n"}); break;
      case 'e': d.in.push_back(Chunk{1, ""}); break;
      case 'x': d.in.push_back(Chunk{2, ""}); break;
    }
  }
}
static void UpdateAll() { for (auto& d : table) if (d.second.open) Update(d.second); }
static bool Writable(const Desc& d) { return d.open && (d.space != 0 || d.werr != 0); }
void Begin(const std::vector<std::string>& s, const std::string& f) {
  table.clear();
  next_id = 0;
  scripts = s;
  fallback = f;
  active = true;
}
void End() { active = false; table.clear(); }
short Ready(int fd, short want) {
  auto i = table.find(fd);
  if (i == table.end() || !i->second.open) return 0;
  Update(i->second);
  return static_cast<short>((Writable(i->second) ? want & EV_WRITE : 0) | (!i->second.in.empty() ? want & EV_READ : 0));
}
int64_t NextChange() {
  int64_t r = -1;
  for (auto& d : table)
    if (d.second.open && !d.second.plan.empty() && (r < 0 || d.second.plan.front().at < r)) r = d.second.plan.front().at;
  return r;
}
std::string Sockets() {
  UpdateAll();
  std::string k;
  for (auto& d : table)
    if (d.second.open) k += (k.empty() ? "[" : ",[") + S(d.second.id) + "," + S(Writable(d.second)) + "," + S(!d.second.in.empty()) + "]";
  return "[" + k + "]";
}
int Open() { int n = 0; for (auto& d : table) n += d.second.open; return n; }
static std::string T() { return ",\"now\":" + S(ms()); }
static bool Mine(int fd) { return active && fd >= kFirst; }
static Desc* Get(int fd, const char* what) {
  auto i = table.find(fd);
  if (i == table.end() || !i->second.open) {
    Ev(std::string("\"e\":\"badfd\",\"what\":\"") + what + "\"" + T());
    errno = EBADF;
    return nullptr;
  }
  Update(i->second);
  return &i->second;
}
static std::string Hex(const std::string& p) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (char c : p) { r += d[(c >> 4) & 15]; r += d[c & 15]; }
  return r;
}
static int Setup(int fd, const char* what) {
  auto d = Get(fd, what);
  if (d == nullptr) return -1;
  if (d->outcome == 's' && !d->connected) {
    Ev("\"e\":\"conn\",\"id\":" + S(d->id) + ",\"h\":-1,\"port\":0,\"ok\":0" + T());
    d->outcome = 'r';
    errno = ENOMEM;
    return -1;
  }
  return 0;
}
static int Fcntl(int fd, int cmd, long arg) {
  if (cmd == F_GETFL) return O_RDWR;
  if (cmd == F_SETFL) {
    if (Setup(fd, "fcntl") != 0) return -1;
    table[fd].nonblock = (arg & O_NONBLOCK) != 0;
  }
  return 0;
}
static ssize_t Put(int fd, const iovec* iov, int cnt) {
  auto d = Get(fd, "write");
  if (d == nullptr) return -1;
  bool wr = Writable(*d);
  long total = 0, got = 0;
  for (int i = 0; i < cnt; ++i) total += static_cast<long>(iov[i].iov_len);
  int err = cnt > 1024 ? EINVAL : d->werr;
  std::string s;
  if (!err && d->space == 0) err = EAGAIN;
  if (!err) {
    got = d->space < 0 ? total : std::min(total, d->space);
    long left = got;
    for (int i = 0; i < cnt && left > 0; ++i) {
      auto n = std::min<long>(left, static_cast<long>(iov[i].iov_len));
      s.append(static_cast<const char*>(iov[i].iov_base), n);
      left -= n;
    }
    if (d->space > 0) d->space -= got;
    d->tail = (d->tail + s.substr(s.size() > 64 ? s.size() - 64 : 0));
    if (d->tail.size() > 5) d->tail.erase(0, d->tail.size() - 5);
    if (d->reply_after >= 0 && d->tail == "0\r\n\r\n" && got == total) {
      d->plan.push_back(Act{ms() + d->reply_after, 'y', 0});
      d->plan.push_back(Act{ms() + d->reply_after, 'e', 0});
      std::stable_sort(d->plan.begin(), d->plan.end(), [](const Act& a, const Act& b) { return a.at < b.at; });
      d->reply_after = -1;
    }
  }
  Ev("\"e\":\"write\",\"id\":" + S(d->id) + ",\"wr\":" + S(wr) + ",\"full\":" + S(!err && got == total) + ",\"err\":" + S(err && err != EAGAIN) + ",\"w\":\"" + Hex(s) + "\"" + T());
  if (err) { errno = err; return -1; }
  return got;
}
static ssize_t Take(int fd, void* p, size_t n) {
  auto d = Get(fd, "read");
  if (d == nullptr) return -1;
  auto ev = [&](long r, const std::string& s) { Ev("\"e\":\"read\",\"id\":" + S(d->id) + ",\"r\":" + S(r) + ",\"d\":\"" + Hex(s) + "\"" + T()); };
  if (d->in.empty()) { ev(-11, ""); errno = EAGAIN; return -1; }
  auto& c = d->in.front();
  if (c.kind == 1) { ev(0, ""); return 0; }
  if (c.kind == 2) { ev(-104, ""); errno = ECONNRESET; return -1; }
  auto k = std::min(n, c.data.size());
  auto s = c.data.substr(0, k);
  memcpy(p, s.data(), k);
  c.data.erase(0, k);
  if (c.data.empty()) d->in.pop_front();
  ev(static_cast<long>(k), s);
  return static_cast<ssize_t>(k);
}
template <class F> static F Real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}  // namespace fn
using namespace fn;

extern "C" {
int socket(int, int, int) {
  if (!active) { errno = ENOSYS; return -1; }
  auto k = static_cast<size_t>(next_id);
  auto& s = k < scripts.size() ? scripts[k] : fallback;
  ++next_id;
  if (s[0] == 'n') {
    Ev("\"e\":\"conn\",\"id\":0,\"h\":-1,\"port\":0,\"ok\":0" + T());
    errno = EMFILE;
    return -1;
  }
  int fd = kFirst;
  while (table[fd].open) ++fd;
  table[fd] = Desc{};
  table[fd].open = true;
  table[fd].id = next_id;
  Plan(table[fd], s, ms());
  return fd;
}
int close(int fd) {
  static auto real = Real<int (*)(int)>("close");
  if (!Mine(fd)) return real(fd);
  auto d = Get(fd, "close");
  if (d == nullptr) return -1;
  d->open = false;
  Ev("\"e\":\"close\",\"id\":" + S(d->id) + T());
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  static auto real = Real<int (*)(int, int, ...)>("fcntl");
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  static auto real = Real<int (*)(int, int, ...)>("fcntl64");
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  static auto real = Real<int (*)(int, unsigned long, ...)>("ioctl");
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!Mine(fd)) return real(fd, req, arg);
  if (req == FIONBIO) return Fcntl(fd, F_SETFL, *static_cast<int*>(arg) ? O_NONBLOCK : 0);
  return 0;
}
int setsockopt(int fd, int, int, const void*, socklen_t) { return Mine(fd) ? (Get(fd, "setsockopt") ? 0 : -1) : -1; }
int connect(int fd, const sockaddr* addr, socklen_t) {
  if (!Mine(fd)) { errno = ENOSYS; return -1; }
  auto d = Get(fd, "connect");
  if (d == nullptr) return -1;
  int h = -1, port = 0;
  if (addr->sa_family == AF_INET) {
    auto a = reinterpret_cast<const sockaddr_in*>(addr);
    port = ntohs(a->sin_port);
    h = reinterpret_cast<const unsigned char*>(&a->sin_addr)[2];
  }
  bool ok = d->outcome != 'r';
  d->connected = true;
  Ev("\"e\":\"conn\",\"id\":" + S(d->id) + ",\"h\":" + S(h) + ",\"port\":" + S(port) + ",\"ok\":" + S(ok) + ",\"nb\":" + S(d->nonblock) + T());
  if (!ok) { errno = ECONNREFUSED; return -1; }
  if (d->outcome == 'd') { d->space = -1; return 0; }
  errno = EINPROGRESS;
  return -1;
}
ssize_t writev(int fd, const iovec* iov, int cnt) {
  static auto real = Real<ssize_t (*)(int, const iovec*, int)>("writev");
  return Mine(fd) ? Put(fd, iov, cnt) : real(fd, iov, cnt);
}
ssize_t write(int fd, const void* p, size_t n) {
  static auto real = Real<ssize_t (*)(int, const void*, size_t)>("write");
  if (!Mine(fd)) return real(fd, p, n);
  iovec v{const_cast<void*>(p), n};
  return Put(fd, &v, 1);
}
ssize_t send(int fd, const void* p, size_t n, int) {
  iovec v{const_cast<void*>(p), n};
  return Put(fd, &v, 1);
}
ssize_t sendmsg(int fd, const msghdr* m, int) { return Put(fd, m->msg_iov, static_cast<int>(m->msg_iovlen)); }
ssize_t read(int fd, void* p, size_t n) {
  static auto real = Real<ssize_t (*)(int, void*, size_t)>("read");
  return Mine(fd) ? Take(fd, p, n) : real(fd, p, n);
}
ssize_t recv(int fd, void* p, size_t n, int) { return Take(fd, p, n); }
int shutdown(int fd, int) { return Mine(fd) && Get(fd, "shutdown") ? 0 : -1; }
}
