// Driver for C09/C10: connection streams sharing one span buffer; every byte written is recorded.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/socket.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <unistd.h>

#include "common/chained_stream.h"
#include "network/vector_write.h"
#include "recorder/metrics_tracker.h"
#include "recorder/stream_recorder/connection_stream.h"
using namespace lightstep;

static const int kFd = 777777;
static std::vector<long> script;
static size_t script_pos;
static std::string written;
static long ncalls;
static long Kernel(const iovec* iov, int cnt) {
  long total = 0;
  for (int i = 0; i < cnt; ++i) total += static_cast<long>(iov[i].iov_len);
  long r = script_pos < script.size() ? script[script_pos] : total;
  ++script_pos;
  if (cnt > 1024) r = -EINVAL;
  if (++ncalls > 20000) { printf("ENDLESS\n"); fflush(stdout); _exit(77); }
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  r = std::min(r, total);
  long left = r;
  for (int i = 0; i < cnt && left > 0; ++i) {
    auto n = std::min<long>(left, static_cast<long>(iov[i].iov_len));
    written.append(static_cast<const char*>(iov[i].iov_base), n);
    left -= n;
  }
  return r;
}
typedef ssize_t (*writev_t)(int, const iovec*, int);
extern "C" ssize_t writev(int fd, const iovec* iov, int cnt) {
  if (fd == kFd) return Kernel(iov, cnt);
  static writev_t real = reinterpret_cast<writev_t>(dlsym(RTLD_NEXT, "writev"));
  return real(fd, iov, cnt);
}

struct Obs : MetricsObserver {
  long sent{0}, dropped{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
struct World {
  Obs obs;
  CircularBuffer<ChainedStream> buffer;
  MetricsTracker metrics{obs};
  SpanStream spans{buffer, metrics};
  std::string common{"\x0a\x03" "com"};
  std::vector<std::string> hosts;
  std::vector<std::unique_ptr<ConnectionStream>> conns;
  explicit World(size_t cap) : buffer{cap} {}
  void Make(int i) {
    conns[i].reset(new ConnectionStream{Fragment{&hosts[i][0], static_cast<int>(hosts[i].size())},
                                        Fragment{&common[0], static_cast<int>(common.size())}, spans});
  }
};
static void Hex(const std::string& s) {
  putchar('"');
  for (unsigned char c : s) printf("%02x", c);
  putchar('"');
}
static std::unique_ptr<ChainedStream> Span(const std::string& s) {
  std::unique_ptr<ChainedStream> r{new ChainedStream{}};
  size_t i = 0;
  void* d; int n;
  while (i < s.size()) {
    r->Next(&d, &n);
    size_t k = std::min<size_t>(n, s.size() - i);
    memcpy(d, s.data() + i, k);
    if (k < static_cast<size_t>(n)) r->BackUp(n - static_cast<int>(k));
    i += k;
  }
  r->CloseOutput();
  return r;
}

int main() {
  std::unique_ptr<World> w;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "T") {
      w.reset();
      printf("T\n");
      continue;
    }
    int failed = -1;
    long sent0 = w ? w->obs.sent : 0, dropped0 = w ? w->obs.dropped : 0;
    if (op == "I") {
      size_t cap; int n;
      in >> cap >> n;
      w.reset(new World{cap});
      for (int i = 0; i < n; ++i) {
        w->hosts.push_back("Host:   h" + std::to_string(i) + "\r\n");
        w->conns.emplace_back();
      }
      for (int i = 0; i < n; ++i) w->Make(i);
      printf("{\"e\":\"init\",\"cap\":%zu,\"nc\":%d}\n", cap, n);
      continue;
    } else if (op == "A") {     // a span of len body bytes; the text is chunk framed
      int id; long len;
      in >> id >> len;
      std::string body;
      while (static_cast<long>(body.size()) < len) { body += "<" + std::to_string(id) + ":" + std::to_string(body.size()) + ">"; }
      body.resize(len);
      char h[32];
      snprintf(h, sizeof h, "%lX\r\n", len);
      auto s = Span(h + body + "\r\n");
      bool ok = w->buffer.Add(s);
      if (!ok) w->metrics.OnSpansDropped(1);
      printf("{\"e\":\"add\",\"id\":%d,\"len\":%ld,\"ok\":%d", id, len, ok);
    } else if (op == "D") {
      int n;
      in >> n;
      w->metrics.OnSpansDropped(n);
      printf("{\"e\":\"drop\",\"n0\":%d", n);
    } else if (op == "F") {     // F conn answers... : through the socket write
      int i; long a;
      in >> i;
      script.clear();
      script_pos = 0;
      ncalls = 0;
      written.clear();
      while (in >> a) script.push_back(a);
      int r;
      try {
        r = w->conns[i]->Flush([](std::initializer_list<FragmentInputStream*> s) { return Write(kFd, s); });
      } catch (const std::exception&) {
        r = -1;
        failed = i;
      }
      printf("{\"e\":\"flush\",\"i\":%d,\"r\":%d,\"w\":", i, r);
      Hex(written);
    } else if (op == "W") {     // W conn n fail : a writer that takes n bytes (-1: all) and then maybe throws
      int i, fail; long n;
      in >> i >> n >> fail;
      written.clear();
      int r;
      try {
        r = w->conns[i]->Flush([&](std::initializer_list<FragmentInputStream*> s) {
          std::string all;
          for (auto x : s) x->ForEachFragment([&](void* d, int k) noexcept { all.append(static_cast<char*>(d), k); return true; });
          auto k = n < 0 ? static_cast<long>(all.size()) : std::min<long>(n, all.size());
          written = all.substr(0, k);
          auto done = Consume(s, static_cast<int>(k));
          if (fail && !done) throw std::runtime_error{"broken"};
          return done;
        });
      } catch (const std::exception&) {
        r = -1;
        failed = i;
      }
      printf("{\"e\":\"flush\",\"i\":%d,\"r\":%d,\"w\":", i, r);
      Hex(written);
    } else if (op == "S") {
      int i;
      in >> i;
      w->conns[i]->Shutdown();
      printf("{\"e\":\"shut\",\"i\":%d", i);
    } else if (op == "R") {
      int i;
      in >> i;
      w->conns[i]->Reset();
      printf("{\"e\":\"reset\",\"i\":%d", i);
    } else {
      continue;
    }
    tail:
    printf(",\"sent\":%ld,\"dropped\":%ld,\"n\":%zu,\"st\":[", w->obs.sent - sent0, w->obs.dropped - dropped0, w->buffer.size());
    for (size_t i = 0; i < w->conns.size(); ++i)
      printf("%s[%d,%d]", i ? "," : "", w->conns[i]->shutting_down(), w->conns[i]->completed());
    printf("]}\n");
    fflush(stdout);
    if (failed >= 0) {   // the owner of a broken connection resets it at once
      sent0 = w->obs.sent;
      dropped0 = w->obs.dropped;
      w->conns[failed]->Reset();
      printf("{\"e\":\"reset\",\"i\":%d", failed);
      failed = -1;
      goto tail;
    }
  }
  printf("END\n");
}
