// C17, C23: the streaming recorder under the scheduler, over scripted satellites on virtual time.
// srec <strategy> <preemptions> <executions> <seed> <shard> <shards> <seconds> <conf> <sockets> <end ms> scripts...
//  conf: max,connections,poll,report,write timeout,retry,renewal min,renewal max,grace,dns (ms; dns -1: never, 0: at once),throw away
//  sockets: see fakenet.h, separated by "/", the last one is used for all others
//  scripts: tokens separated by ",": @t wait until t ms; r<len> record; f<ms> flush; z<ms> shut down; P, C fork, as its parent or child
#include <algorithm>
#include <chrono>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>

#include <event2/event.h>

#include "fakeevent.h"
#include "fakenet.h"
#include "common/logger.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "sink.h"
using namespace lightstep;

static int64_t start;
static int64_t Ms() { return (vrt::Now() - start) / 1000000; }
static std::string Now() { return ",\"now\":" + S(Ms()); }

// every execution draws the same numbers
static uint32_t seed_state;
std::random_device::result_type std::random_device::_M_getval() { return seed_state = seed_state * 1664525u + 1013904223u; }

static std::vector<std::string> Split(const std::string& s, char sep) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == sep) r.emplace_back();
    else r.back() += c;
  }
  return r;
}

// ---- names
static long dns_delay;
struct Resolution : DnsResolution {
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override { return f(IpAddress{"10.0.0.1"}); }
};
struct FakeDns : DnsResolver {
  EventBase& base;
  DnsResolutionCallback* cb{nullptr};
  explicit FakeDns(EventBase& b) : base{b} {}
  void Answer() noexcept {
    Ev("\"e\":\"go\",\"h\":0" + Now());
    cb->OnDnsResolution(Resolution{}, "");
    Ev("\"e\":\"went\"" + Now());
  }
  void Resolve(const char*, int family, DnsResolutionCallback& c) noexcept override {
    if (family != AF_INET || dns_delay < 0) return;
    cb = &c;
    if (dns_delay == 0) return Answer();
    base.OnTimeout(std::chrono::milliseconds{dns_delay}, [](int, short, void* p) { static_cast<FakeDns*>(p)->Answer(); }, this);
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase& b, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeDns{b}}; }
}  // namespace lightstep

struct Obs : MetricsObserver {
  void Tell(const char* k, int n) noexcept { Ev("\"e\":\"obs\",\"t\":" + S(Me()) + ",\"k\":\"" + k + "\",\"n\":" + S(n) + Now()); }
  void OnSpansSent(int n) noexcept override { Tell("sent", n); }
  void OnSpansDropped(int n) noexcept override { Tell("dropped", n); }
  void OnFlush() noexcept override { Tell("flush", 1); }
};

static std::string Body(int id, long len) {
  std::string b;
  while (static_cast<long>(b.size()) < len) b += "<" + std::to_string(id) + ":" + std::to_string(b.size()) + ">";
  b.resize(len);
  return b;
}
static void Record(StreamRecorder& rec, int id, long len) {
  std::unique_ptr<ChainedStream> s{new ChainedStream{}};
  Fragment header = rec.ReserveHeaderSpace(*s);
  {
    google::protobuf::io::CodedOutputStream out{s.get()};
    auto b = Body(id, len);
    out.WriteRaw(b.data(), static_cast<int>(b.size()));
    rec.WriteFooter(out);
  }
  Ev("\"e\":\"rc\",\"t\":" + S(Me()) + ",\"id\":" + S(id) + ",\"len\":" + S(len) + Now());
  rec.RecordSpan(header, std::move(s));
  Ev("\"e\":\"rr\",\"t\":" + S(Me()) + Now());
}
static void Script(StreamRecorder& rec, int t, const std::string& s) {
  int n = 0;
  if (s.empty()) return;
  for (auto& k : Split(s, ',')) {
    long a = k.size() > 1 ? atol(k.c_str() + 1) : 0;
    std::string me = ",\"t\":" + S(Me());
    switch (k[0]) {
      case '@':
        if (Ms() < a) vrt::SleepUntil(start + a * 1000000);
        break;
      case 'r':
        Record(rec, t * 100 + ++n, a);
        break;
      case 'f': {
        Ev("\"e\":\"fc\"" + me + Now() + ",\"by\":" + S(Ms() + a));
        bool r = rec.FlushWithTimeout(std::chrono::milliseconds{a});
        Ev("\"e\":\"fr\"" + me + ",\"r\":" + S(r) + Now());
        break;
      }
      case 'z': {
        Ev("\"e\":\"sc\"" + me + Now() + ",\"by\":" + S(Ms() + a));
        bool r = rec.ShutdownWithTimeout(std::chrono::milliseconds{a});
        Ev("\"e\":\"sr\"" + me + ",\"r\":" + S(r) + Now());
        break;
      }
      case 'P':
      case 'C':
        Ev("\"e\":\"pc\"" + Now());
        rec.PrepareForFork();
        Ev("\"e\":\"pr\",\"open\":" + S(fn::Open()) + ",\"live\":" + S(fe::LiveEvents() + fe::LiveBases() + fe::LiveOnce()) + Now());
        if (k[0] == 'P') {
          rec.OnForkedParent();
        } else {
          Ev("\"e\":\"child\"" + Now());
          rec.OnForkedChild();
        }
        Ev("\"e\":\"forked\"" + Now());
        break;
    }
  }
}

int main(int argc, char** argv) {
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  o.early_timeouts = false;
  std::vector<long> conf;
  for (auto& x : Split(argv[9], ',')) conf.push_back(atol(x.c_str()));
  auto sockets = Split(argv[10], '/');
  long end = atol(argv[11]);
  std::vector<std::string> scripts(argv + 12, argv + argc);
  fn::ms = Ms;
  fe::now = [] { return Ms() * 1000; };
  fe::misuse = [](const char* m) { vrt::Fail(std::string("misuse: ") + m); };
  fe::ready = fn::Ready;
  fe::wait = [](int64_t until) {
    Ev("\"e\":\"wait\",\"k\":" + fn::Sockets() + Now());
    int64_t c = fn::NextChange();
    int64_t t = until < 0 ? -1 : (until + 999) / 1000;
    if (c >= 0 && (t < 0 || c < t)) t = c;
    if (t < 0) vrt::Block([] { return false; });
    vrt::SleepUntil(start + t * 1000000);
  };
  vrt::Explore(o, [&] {
    vrt::Join(vrt::Spawn([&] {
      start = vrt::Now() / 1000000 * 1000000;
      seed_state = 12345;
      fe::ForgetAll();
      fn::Begin(sockets, sockets.back());
      dns_delay = conf[9];
      Logger logger{[](LogLevel, opentracing::string_view) {}};
      LightStepTracerOptions op;
      StreamRecorderOptions ro;
      using M = std::chrono::milliseconds;
      op.access_token = "token";
      op.component_name = "component";
      op.max_buffered_spans = DynamicConfigurationValue<size_t>{static_cast<size_t>(conf[0])};
      op.reporting_period = M{conf[3]};
      op.metrics_observer.reset(new Obs{});
      op.satellite_endpoints.clear();
      op.satellite_endpoints.emplace_back("sat", static_cast<uint16_t>(81));
      ro.num_satellite_connections = static_cast<int>(conf[1]);
      ro.polling_period = M{conf[2]};
      ro.timestamp_delta_period = M{1000000};
      ro.satellite_write_timeout = M{conf[4]};
      ro.satellite_failure_retry_period = M{conf[5]};
      ro.min_satellite_reconnect_period = M{conf[6]};
      ro.max_satellite_reconnect_period = M{conf[7]};
      ro.satellite_graceful_stream_shutdown_timeout = M{conf[8]};
      ro.min_dns_resolution_refresh_period = M{1000000};
      ro.max_dns_resolution_refresh_period = M{1000000};
      ro.dns_failure_retry_period = M{1000000};
      ro.throw_away_spans = conf[10] != 0;
      Ev("\"e\":\"new\",\"cap\":" + S(conf[0]) + ",\"nc\":" + S(conf[1]) + ",\"poll\":" + S(conf[2]) + ",\"report\":" + S(conf[3]) + ",\"wt\":" + S(conf[4]) +
         ",\"retry\":" + S(conf[5]) + ",\"min\":" + S(conf[6]) + ",\"max\":" + S(conf[7]) + ",\"grace\":" + S(conf[8]) + ",\"eps\":[[0,81]]" + Now());
      std::unique_ptr<StreamRecorder> rec{new StreamRecorder{logger, std::move(op), std::move(ro)}};
      std::vector<int> ids;
      for (size_t i = 0; i < scripts.size(); ++i) ids.push_back(vrt::Spawn([&, i] { Script(*rec, static_cast<int>(i) + 1, scripts[i]); }));
      for (int i : ids) vrt::Join(i);
      if (Ms() < end) vrt::SleepUntil(start + end * 1000000);
      Ev("\"e\":\"dc\"" + Now());
      rec.reset();
      Ev("\"e\":\"dr\",\"open\":" + S(fn::Open()) + ",\"live\":" + S(fe::LiveEvents() + fe::LiveBases() + fe::LiveOnce()) + Now());
      fn::End();
    }));
  });
  return 0;
}
