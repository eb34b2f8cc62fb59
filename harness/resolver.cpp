// Driver for C39: the c-ares resolver over a scripted library on virtual time.
#include <arpa/inet.h>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "fakeares.h"
#include "fakeevent.h"
#include "common/logger.h"
#include "network/dns_resolver.h"
#include "network/event_base.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
#include "sink.h"
using namespace lightstep;

static int64_t clock_us;
static bool bad;
struct Ask;
struct World {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions to;
  StreamRecorderOptions ro;
  std::unique_ptr<EventBase> base{new EventBase};
  std::map<int, std::unique_ptr<DnsResolver>> rs;
  std::unique_ptr<SatelliteEndpointManager> m;
  std::vector<std::unique_ptr<Ask>> asks;
  int next_r{0};
};
static std::unique_ptr<World> w;
struct Again { std::string name; int f, stop; };
static void Resolve(int r, const std::string& name, int f, int stop, std::vector<Again> again);
static std::string Addr(const IpAddress& a) {
  int k = -1, f = 0;
  if (a.family() == AF_INET) {
    auto b = reinterpret_cast<const unsigned char*>(&a.ipv4_address().sin_addr);
    f = 4;
    k = b[0] == 10 && b[1] == 0 && b[2] == 0 ? b[3] : -1;
  } else if (a.family() == AF_INET6) {
    auto b = a.ipv6_address().sin6_addr.s6_addr;
    f = 6;
    k = b[15];
    if (b[0] != 0xfd) k = -1;
    for (int i = 1; i < 15; ++i) if (b[i] != 0) k = -1;
  }
  return "[" + S(f) + "," + S(k) + "]";
}
struct Ask : DnsResolutionCallback {
  int q, r, stop;
  std::vector<Again> again;
  void OnDnsResolution(const DnsResolution& d, opentracing::string_view error) noexcept override {
    std::string l;
    int n = 0;
    bool all = d.ForeachIpAddress([&](const IpAddress& a) {
      l += (l.empty() ? "" : ",") + Addr(a);
      return ++n != stop;
    });
    Ev("\"e\":\"cb\",\"q\":" + S(q) + ",\"err\":" + S(!error.empty()) + ",\"l\":[" + l + "],\"all\":" + S(all));
    auto a = again;
    again.clear();
    for (auto& x : a) if (w->rs.count(r) && w->rs[r]) Resolve(r, x.name, x.f, x.stop, {});
  }
};
static void Resolve(int r, const std::string& name, int f, int stop, std::vector<Again> again) {
  auto i = w->rs.find(r);
  if (i == w->rs.end() || !i->second) return;
  w->asks.emplace_back(new Ask);
  auto a = w->asks.back().get();
  a->q = static_cast<int>(w->asks.size());
  a->r = r;
  a->stop = stop;
  a->again = std::move(again);
  Ev("\"e\":\"resolve\",\"q\":" + S(a->q) + ",\"r\":" + S(r) + ",\"name\":\"" + name + "\",\"f\":" + S(f) + ",\"stop\":" + S(stop));
  i->second->Resolve(name.c_str(), f == 4 ? AF_INET : AF_INET6, *a);
}
static void Rest() {
  std::string l;
  for (auto& e : fe::All()) if (e.fd >= 0 && e.pending) l += (l.empty() ? "" : ",") + S(e.fd);
  Ev("\"e\":\"rest\",\"ev\":[" + l + "],\"chan\":" + S(fa::Channels()) + ",\"bad\":" + S(bad));
}
static void Run(int64_t us) {
  fe::RunUntil(w->base->libevent_handle(), clock_us + us, [](int64_t t) {
    clock_us = t;
    Ev("\"e\":\"now\",\"t\":" + S(t));
  });
}
static void Gone(int r) {
  Ev("\"e\":\"destroy\",\"r\":" + S(r));
  auto d = std::move(w->rs[r]);
  d.reset();
  Ev("\"e\":\"gone\",\"r\":" + S(r));
}
static DnsResolverOptions Opts(std::istream& in) {
  DnsResolverOptions o;
  int port, to, n, s;
  in >> port >> to >> n;
  o.resolution_server_port = static_cast<uint16_t>(port);
  o.timeout = std::chrono::milliseconds{to};
  std::string l;
  while (n-- > 0) {
    in >> s;
    in_addr a;
    a.s_addr = htonl(0x0a000000u + static_cast<unsigned>(s));
    o.resolution_servers.push_back(a);
    l += (l.empty() ? "" : ",") + S(s);
  }
  Ev("\"e\":\"new\",\"port\":" + S(port) + ",\"to\":" + S(to) + ",\"srv\":[" + l + "]");
  return o;
}
int main() {
  fe::now = fa::now = [] { return clock_us; };
  fe::misuse = fa::misuse = [](const char* m) { bad = true; fprintf(stderr, "misuse: %s\n", m); };
  fe::wait = [](int64_t) {};
  fe::ready = fa::Ready;
  fe::faulted = [](const char*) { Ev("\"e\":\"fault\""); };
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "T") {
      w.reset();
      fa::Forget();
      fe::ForgetAll();
      clock_us = 0;
      bad = false;
      printf("T\n");
      w.reset(new World{});
    } else if (op == "N") {  // N port timeout n servers...
      int r = ++w->next_r;
      auto o = Opts(in);
      if (getenv("FAKE_ARES_INIT_FAILS")) Ev("\"e\":\"fault\"");
      bool ok = true;
      try {
        w->rs[r] = MakeDnsResolver(w->logger, *w->base, o);
      } catch (const std::exception&) {
        ok = false;
      }
      Ev("\"e\":\"made\",\"r\":" + S(r) + ",\"ok\":" + S(ok));
      Rest();
    } else if (op == "P") {  // plan of the next query: now tries hops status null type addrs...
      fa::Plan p;
      int n;
      in >> p.now >> p.tries >> p.hops >> p.status >> p.null >> p.type;
      while (in >> n) p.addrs.push_back(n);
      fa::plans.push_back(p);
    } else if (op == "R") {  // R resolver name family stop [name family stop]...
      int r, f, stop;
      std::string name;
      in >> r >> name >> f >> stop;
      std::vector<Again> again;
      Again x;
      while (in >> x.name >> x.f >> x.stop) again.push_back(x);
      Resolve(r, name, f, stop, again);
      Run(0);
      Rest();
    } else if (op == "A") {  // A query kind [query kind]...: all there when the loop looks
      int k;
      char kind;
      while (in >> k >> kind) fa::Arrive(k, kind);
      Run(0);
      Rest();
    } else if (op == "F") {  // failures of event_new to come
      int b;
      while (in >> b) fe::faults["new"].push_back(b != 0);
    } else if (op == "I") {
      fa::init_fails = true;
    } else if (op == "adv") {
      long us;
      in >> us;
      Run(us);
      Rest();
    } else if (op == "D") {
      int r;
      in >> r;
      if (w->rs.count(r) && w->rs[r]) Gone(r);
      Rest();
    } else if (op == "M") {  // endpoint manager with real resolvers: M retry options names...
      std::string s;
      long retry;
      in >> retry;
      w->ro.dns_failure_retry_period = std::chrono::microseconds{retry};
      w->ro.min_dns_resolution_refresh_period = w->ro.max_dns_resolution_refresh_period = std::chrono::microseconds{3 * retry};
      w->to.satellite_endpoints.clear();
      w->ro.dns_resolver_options = Opts(in);
      while (in >> s) w->to.satellite_endpoints.emplace_back(s, uint16_t{80});
      bool ok = true;
      try {
        w->m.reset(new SatelliteEndpointManager{w->logger, *w->base, w->to, w->ro, [] { w->m->RequestEndpoint(); }});
      } catch (const std::exception&) {
        ok = false;
      }
      Ev("\"e\":\"manager\",\"ok\":" + S(ok));
      if (ok) w->m->Start();
      Run(0);
      Rest();
    } else if (op == "X") {  // the manager goes, and then the loop
      Ev("\"e\":\"destroy\",\"r\":0");
      w->m.reset();
      Ev("\"e\":\"gone\",\"r\":0");
      w->base.reset();
      Rest();
    } else if (op == "end") {  // everything goes
      for (auto& r : w->rs) if (r.second) Gone(r.first);
      w->base.reset();
      Ev("\"e\":\"end_of_all\",\"events\":" + S(fe::LiveEvents()) + ",\"once\":" + S(fe::LiveOnce()) + ",\"bases\":" + S(fe::LiveBases()) + ",\"chan\":" + S(fa::Channels()) + ",\"bad\":" + S(bad));
    }
  }
  w.reset();
  printf("END\n");
  return 0;
}
