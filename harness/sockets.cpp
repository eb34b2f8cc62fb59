// Driver for C34: socket objects over a scripted kernel.  Descriptors 0 and 900000.. are the
// kernel's; nothing here reaches the real one.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "network/socket.h"
using namespace lightstep;

struct Desc { bool open{false}, nb{false}; int family{0}, type{0}; };
static std::map<int, Desc> table;
static bool active = false;
static std::string calls;
static std::map<std::string, std::vector<int>> script;  // call -> errors to answer with, 0: succeed
static const int kFirst = 900000;
static bool Mine(int fd) { return active && (fd == 0 || fd == -1 || fd >= kFirst || table.count(fd)); }
static void Call(const char* fmt, ...) {
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (!calls.empty()) calls += ",";
  calls += b;
  if (calls.size() > 100000) { printf("ENDLESS\n"); fflush(stdout); _exit(77); }
}
static int Answer(const char* what) {
  auto& v = script[what];
  if (v.empty()) return 0;
  int r = v.front();
  v.erase(v.begin());
  return r;
}
static int Fresh() {
  if (!table[0].open) return 0;
  int fd = kFirst;
  while (table[fd].open) ++fd;
  return fd;
}
extern "C" int socket(int family, int type, int protocol) {
  if (!active) { errno = ENOSYS; return -1; }
  int err = Answer("socket"), fd = -1;
  if (err == 0) {
    fd = Fresh();
    table[fd].open = true;
    table[fd].nb = (type & SOCK_NONBLOCK) != 0;
    table[fd].family = family;
    table[fd].type = type & 0xf;
  }
  Call("{\"k\":\"socket\",\"fam\":%d,\"type\":%d,\"p\":%d,\"r\":%d}", family == AF_INET ? 4 : family == AF_INET6 ? 6 : 0, type & 0xf, protocol, fd);
  if (fd < 0) errno = err;
  return fd;
}
typedef int (*close_t)(int);
extern "C" int close(int fd) {
  static close_t real = reinterpret_cast<close_t>(dlsym(RTLD_NEXT, "close"));
  if (!Mine(fd)) return real(fd);
  int err = Answer("close");
  bool was = table[fd].open;
  if (!was) err = EBADF;
  table[fd].open = false;
  table[fd].nb = false;
  Call("{\"k\":\"close\",\"fd\":%d,\"ok\":%d}", fd, was);
  errno = err ? err : ENOTTY;  // a destructor may leave errno changed
  return err ? -1 : 0;
}
static int Fcntl(int fd, int cmd, long arg) {
  if (!table[fd].open) { Call("{\"k\":\"bad\",\"fd\":%d}", fd); errno = EBADF; return -1; }
  if (cmd == F_GETFL) return O_RDWR | O_APPEND | (table[fd].nb ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) {
    int err = Answer("nb");
    if (!err) table[fd].nb = (arg & O_NONBLOCK) != 0;
    Call("{\"k\":\"nb\",\"fd\":%d,\"on\":%d,\"kept\":%d,\"ok\":%d}", fd, (arg & O_NONBLOCK) != 0, (arg & (O_RDWR | O_APPEND)) == (O_RDWR | O_APPEND), err == 0);
    if (err) { errno = err; return -1; }
    return 0;
  }
  return 0;  // close-on-exec and the like
}
typedef int (*fcntl_t)(int, int, ...);
extern "C" int fcntl(int fd, int cmd, ...) {
  static fcntl_t real = reinterpret_cast<fcntl_t>(dlsym(RTLD_NEXT, "fcntl"));
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
extern "C" int fcntl64(int fd, int cmd, ...) {
  static fcntl_t real = reinterpret_cast<fcntl_t>(dlsym(RTLD_NEXT, "fcntl64"));
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return Mine(fd) ? Fcntl(fd, cmd, arg) : real(fd, cmd, arg);
}
typedef int (*ioctl_t)(int, unsigned long, ...);
extern "C" int ioctl(int fd, unsigned long req, ...) {
  static ioctl_t real = reinterpret_cast<ioctl_t>(dlsym(RTLD_NEXT, "ioctl"));
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!Mine(fd)) return real(fd, req, arg);
  if (req == FIONBIO) return Fcntl(fd, F_SETFL, (*static_cast<int*>(arg) ? O_NONBLOCK : 0) | O_RDWR | O_APPEND);
  return 0;
}
extern "C" int setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
  if (!table[fd].open) { Call("{\"k\":\"bad\",\"fd\":%d}", fd); errno = EBADF; return -1; }
  int err = Answer("opt");
  int v = len == sizeof(int) ? *static_cast<const int*>(val) : -1;
  Call("{\"k\":\"opt\",\"fd\":%d,\"reuse\":%d,\"v\":%d,\"ok\":%d}", fd, level == SOL_SOCKET && name == SO_REUSEADDR, v, err == 0);
  if (err) { errno = err; return -1; }
  return 0;
}
extern "C" int connect(int fd, const sockaddr* addr, socklen_t len) {
  if (!table[fd].open) { Call("{\"k\":\"bad\",\"fd\":%d}", fd); errno = EBADF; return -1; }
  int err = Answer("conn");
  int fam = 0, port = 0, b = 0;
  if (len >= sizeof(sockaddr_in) && addr->sa_family == AF_INET) {
    auto a = reinterpret_cast<const sockaddr_in*>(addr);
    fam = len == sizeof(sockaddr_in) ? 4 : 0;
    port = ntohs(a->sin_port);
    b = reinterpret_cast<const unsigned char*>(&a->sin_addr)[3];
  } else if (len >= sizeof(sockaddr_in6) && addr->sa_family == AF_INET6) {
    auto a = reinterpret_cast<const sockaddr_in6*>(addr);
    fam = len == sizeof(sockaddr_in6) ? 6 : 0;
    port = ntohs(a->sin6_port);
    b = reinterpret_cast<const unsigned char*>(&a->sin6_addr)[15];
  }
  int sf = table[fd].family == AF_INET ? 4 : table[fd].family == AF_INET6 ? 6 : 0;
  Call("{\"k\":\"conn\",\"fd\":%d,\"sf\":%d,\"fam\":%d,\"port\":%d,\"b\":%d,\"nb\":%d,\"err\":%d}", fd, sf, fam, port, b, table[fd].nb, err);
  if (err) { errno = err; return -1; }
  return 0;
}

static std::map<std::string, std::unique_ptr<Socket>> objs;
static std::vector<Socket> vec;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, t, s;
    in >> op;
    if (op == "T") {
      active = false;
      for (auto& o : objs) o.second.release();   // not closed: the fake table is simply reset
      objs.clear();
      for (auto& o : vec) new (&o) Socket{InvalidSocket};
      vec.clear();
      table.clear();
      script.clear();
      printf("T\n");
      continue;
    }
    if (op == "S") {  // script: call, errors
      int e;
      in >> t;
      script[t].clear();
      while (in >> e) script[t].push_back(e);
      continue;
    }
    int fam = 4, type = SOCK_STREAM, port = 0, b = 1, thrown = 0, told = 1, rc = 0;
    calls.clear();
    active = true;
    int adopted = -1;
    std::string lasterr;
    try {
      if (op == "new") { in >> t; objs[t].reset(new Socket{}); }
      else if (op == "new2") { in >> t >> fam >> type; objs[t].reset(new Socket{fam == 4 ? AF_INET : AF_INET6, type}); }
      else if (op == "adopt") {
        int bad;
        in >> t >> bad;
        if (!bad) { adopted = Fresh(); table[adopted].open = true; table[adopted].family = AF_INET; }
        objs[t].reset(new Socket{FileDescriptor{adopted}});
      } else if (op == "mc") { in >> t >> s; objs[t].reset(new Socket{std::move(*objs[s])}); }
      else if (op == "ma") { in >> t >> s; *objs[t] = std::move(*objs[s]); }
      else if (op == "sw") { in >> t >> s; std::swap(*objs[t], *objs[s]); }
      else if (op == "del") { in >> t; objs.erase(t); }
      else if (op == "nb") { in >> t; objs[t]->SetNonblocking(); }
      else if (op == "ra") { in >> t; objs[t]->SetReuseAddress(); }
      else if (op == "con") {
        in >> t >> port >> b;
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        reinterpret_cast<unsigned char*>(&a.sin_addr)[3] = b;
        rc = objs[t]->Connect(reinterpret_cast<sockaddr&>(a), sizeof a);
      } else if (op == "CC" || op == "CA") {  // connect into a new object / over an existing one
        in >> t >> fam >> port >> b;
        char txt[40];
        if (fam == 4) snprintf(txt, sizeof txt, "10.0.0.%d", b);
        else snprintf(txt, sizeof txt, "fe80::%x", b);
        IpAddress addr{txt, static_cast<uint16_t>(port)};
        if (op == "CC") objs[t].reset(new Socket{Connect(addr)});
        else *objs[t] = Connect(addr);
      }
    } catch (const std::exception& e) {
      thrown = 1;
      lasterr = e.what();
      if (op == "new" || op == "new2" || op == "CC") objs.erase(t);
    }
    active = false;
    printf("{\"e\":\"%s\",\"t\":\"%s\",\"s\":\"%s\",\"fam\":%d,\"type\":%d,\"port\":%d,\"b\":%d,\"ad\":%d,\"rc\":%d,\"th\":%d,\"msg\":%d,\"c\":[%s],\"own\":[", op.c_str(), t.c_str(), s.c_str(), fam, type,
           port, b, adopted, rc, thrown, told && (!thrown || !lasterr.empty()), calls.c_str());
    bool first = true;
    for (auto& o : objs) { printf("%s[\"%s\",%d]", first ? "" : ",", o.first.c_str(), o.second->file_descriptor()); first = false; }
    printf("],\"open\":[");
    first = true;
    for (auto& d : table) if (d.second.open) { printf("%s%d", first ? "" : ",", d.first); first = false; }
    printf("]}\n");
    fflush(stdout);
  }
  for (auto& o : objs) o.second.release();
  printf("END\n");
  return 0;
}
