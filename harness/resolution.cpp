// Driver for C19, C20: endpoint manager over scripted name resolution on virtual time.
#include <arpa/inet.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "fakeevent.h"
#include "common/logger.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
#include "sink.h"
using namespace lightstep;

static int64_t clock_us;
static bool bad, usable;  // usable: something has been resolved, so an endpoint may be asked for
static std::vector<std::string> hosts;  // configured names, lower case, in order of first use
static std::string Lower(std::string s) { for (auto& c : s) c = static_cast<char>(tolower(c)); return s; }
static int HostOf(const char* n) {
  std::string l = Lower(n);
  for (size_t i = 0; i < hosts.size(); ++i) if (hosts[i] == l) return static_cast<int>(i);
  return -1;
}
struct Answer { int kind; std::vector<int> addrs; };  // 0 addresses, 1 failure, 2 none
using Key = std::pair<int, int>;
static std::map<Key, DnsResolutionCallback*> waiting;
static std::map<Key, std::deque<Answer>> at_once;
static IpAddress Addr(int f, int h, int k) {
  char b[64];
  if (f == 4) snprintf(b, sizeof b, "10.0.%d.%d", h, k);
  else snprintf(b, sizeof b, "fd00::%d:%d", h, k);
  return IpAddress{b};
}
struct Resolution : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
static void Give(Key k, DnsResolutionCallback& cb, const Answer& a) {
  Resolution r;
  std::string l;
  for (int n : a.addrs) {
    r.a.push_back(Addr(k.second, k.first, n));
    l += (l.empty() ? "" : ",") + S(n);
  }
  if (a.kind == 0) usable = true;
  Ev("\"e\":\"answer\",\"h\":" + S(k.first) + ",\"f\":" + S(k.second) + ",\"kind\":" + S(a.kind) + ",\"l\":[" + l + "]");
  cb.OnDnsResolution(r, a.kind == 1 ? "no such host" : "");
}
struct Fake : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    Key k{HostOf(name), family == AF_INET ? 4 : family == AF_INET6 ? 6 : 0};
    Ev("\"e\":\"resolve\",\"h\":" + S(k.first) + ",\"f\":" + S(k.second) + ",\"now\":" + S(clock_us));
    auto& q = at_once[k];
    if (!q.empty()) {
      auto a = q.front();
      q.pop_front();
      Give(k, cb, a);
      return;
    }
    waiting[k] = &cb;
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new Fake{}}; }
}  // namespace lightstep

struct World {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions to;
  StreamRecorderOptions ro;
  EventBase base;
  std::unique_ptr<SatelliteEndpointManager> m;
};
static std::unique_ptr<World> w;
static bool ask_when_ready;
static void Request() {
  auto r = w->m->RequestEndpoint();
  auto& a = r.first;
  int f = a.family() == AF_INET ? 4 : a.family() == AF_INET6 ? 6 : 0, port = -1, h = -1, k = -1;
  if (f == 4) {
    auto b = reinterpret_cast<const unsigned char*>(&a.ipv4_address().sin_addr);
    port = ntohs(a.ipv4_address().sin_port);
    h = b[0] == 10 && b[1] == 0 ? b[2] : -1;
    k = b[3];
  } else if (f == 6) {
    auto b = a.ipv6_address().sin6_addr.s6_addr;
    port = ntohs(a.ipv6_address().sin6_port);
    h = b[0] == 0xfd ? b[13] : -1;
    k = b[15];
  }
  Ev("\"e\":\"req\",\"f\":" + S(f) + ",\"ah\":" + S(h) + ",\"k\":" + S(k) + ",\"port\":" + S(port) + ",\"h\":" + S(r.second ? HostOf(r.second) : -2));
}
int main() {
  fe::now = [] { return clock_us; };
  fe::misuse = [](const char* m) { bad = true; fprintf(stderr, "misuse: %s\n", m); };
  fe::wait = [](int64_t) {};
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, s;
    in >> op;
    if (op == "T") {
      w.reset();
      waiting.clear();
      at_once.clear();
      hosts.clear();
      fe::ForgetAll();
      clock_us = 0;
      usable = false;
      bad = false;
      printf("T\n");
    } else if (op == "C") {  // C min max retry ask name port ...
      long mn, mx, rt;
      int ask, port;
      in >> mn >> mx >> rt >> ask;
      ask_when_ready = ask != 0;
      w.reset(new World{});
      w->to.satellite_endpoints.clear();
      w->ro.min_dns_resolution_refresh_period = std::chrono::microseconds{mn};
      w->ro.max_dns_resolution_refresh_period = std::chrono::microseconds{mx};
      w->ro.dns_failure_retry_period = std::chrono::microseconds{rt};
      std::string l;
      while (in >> s >> port) {
        if (HostOf(s.c_str()) < 0) hosts.push_back(Lower(s));
        w->to.satellite_endpoints.emplace_back(s, static_cast<uint16_t>(port));
        l += (l.empty() ? "[" : ",[") + S(HostOf(s.c_str())) + "," + S(port) + "]";
      }
      Ev("\"e\":\"new\",\"min\":" + S(mn) + ",\"max\":" + S(mx) + ",\"retry\":" + S(rt) + ",\"hosts\":" + S(static_cast<long>(hosts.size())) + ",\"eps\":[" + l + "]");
      w->m.reset(new SatelliteEndpointManager{w->logger, w->base, w->to, w->ro, [] {
        Ev("\"e\":\"ready\"");
        if (ask_when_ready) { Request(); Request(); }
      }});
    } else if (op == "S") {  // answers given at once
      Key k;
      Answer a;
      int n;
      in >> k.first >> k.second >> a.kind;
      while (in >> n) a.addrs.push_back(n);
      at_once[k].push_back(a);
    } else if (op == "start") {
      Ev("\"e\":\"start\"");
      w->m->Start();
      Ev("\"e\":\"started\"");
    } else if (op == "A") {
      Key k;
      Answer a;
      int n;
      in >> k.first >> k.second >> a.kind;
      while (in >> n) a.addrs.push_back(n);
      auto i = waiting.find(k);
      if (i == waiting.end()) continue;
      auto cb = i->second;
      waiting.erase(i);
      Give(k, *cb, a);
      Ev("\"e\":\"answered\"");
    } else if (op == "R") {
      int n = 1;
      in >> n;
      while (usable && n-- > 0) Request();
    } else if (op == "adv") {
      long ms;
      in >> ms;
      fe::RunUntil(w->base.libevent_handle(), clock_us + ms, [](int64_t t) {
        clock_us = t;
        Ev("\"e\":\"now\",\"t\":" + S(t));
      });
      Ev("\"e\":\"rest\",\"bad\":" + S(bad));
    }
  }
  w.reset();
  printf("END\n");
  return 0;
}
