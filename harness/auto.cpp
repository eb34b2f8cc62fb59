// C15, C16: the background recorder under the scheduler and its virtual clock.
// auto <strategy> <preemptions> <executions> <seed> <shard> <shards> <seconds> <precise> <max> <answers> <end> scripts...
//  answers: per report o ok, x fail, d disable, t throw; capital: after two seconds; 1 / 2: o / x after 13 seconds
//  scripts: r record, f flush (no wait), F flush (5 s), L flush (100 s), s sleep 1 s, S sleep 8 s, m/M maximum 1/3, q is the thread running
//  end: w wait until everything is sent, then destroy; n destroy at once
#include <atomic>
#include <chrono>
#include <stdexcept>
#include <thread>
#include <vector>

#include "common/logger.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/auto_recorder.h"
#include "sink.h"
using namespace lightstep;
static std::string answers;
// one step with the event that announces it: neither access is a scheduling point
static volatile size_t maximum_value = 1;
__attribute__((no_sanitize_thread, noinline)) static size_t GetMaximum() { return maximum_value; }
__attribute__((no_sanitize_thread, noinline)) static void SetMaximum(size_t m) { maximum_value = m; }
static const long kPeriod = 10;

static std::string Now() { return S(vrt::Now() / 1000000); }  // ms
static int bad_total;

struct Fake : SyncTransporter {
  size_t n = 0;
  opentracing::expected<void> Send(const google::protobuf::Message& rq, google::protobuf::Message& rs) override {
    auto& r = dynamic_cast<const collector::ReportRequest&>(rq);
    std::string ids;
    int bad = 0;
    for (auto& sp : r.spans()) {
      int id = atoi(sp.operation_name().c_str());
      if (sp.tags_size() != 1 || sp.tags(0).string_value() != "v" + std::to_string(id)) bad = 1;
      ids += (ids.empty() ? "" : ",") + S(id);
    }
    long d = 0;
    for (auto& c : r.internal_metrics().counts()) {
      if (c.name() != "spans.dropped") bad = 2;
      d += c.int_value();
    }
    if (r.internal_metrics().counts_size() > 1) bad = 3;
    if (r.auth().access_token() != "token-1" || r.reporter().tags_size() != 1 || r.reporter().tags(0).key() != "k" ||
        r.reporter().tags(0).string_value() != "v" || r.reporter().reporter_id() == 0) bad = 4;
    Ev("\"e\":\"send\",\"t\":" + S(Me()) + ",\"ids\":[" + ids + "],\"d\":" + S(d) + ",\"bad\":" + S(bad) + ",\"now\":" + Now());
    char a = n < answers.size() ? answers[n] : 'o';
    ++n;
    if (a == '1' || a == '2') { std::this_thread::sleep_for(std::chrono::seconds{13}); a = a == '1' ? 'o' : 'x'; }
    else if (a < 'a') { std::this_thread::sleep_for(std::chrono::seconds{2}); a = static_cast<char>(a + 32); }
    else vrt::Yield();
    auto& p = dynamic_cast<collector::ReportResponse&>(rs);
    p.add_commands()->set_disable(false);
    if (a == 'd') p.add_commands()->set_disable(true);
    const char* name = a == 'o' ? "ok" : a == 'x' ? "fail" : a == 'd' ? "off" : "throw";
    Ev("\"e\":\"sret\",\"t\":" + S(Me()) + ",\"a\":\"" + name + "\",\"now\":" + Now());
    if (a == 't') throw std::runtime_error{"no"};
    if (a == 'x') return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
    return {};
  }
};
struct Obs : MetricsObserver {
  void Tell(const char* k, int n) noexcept { Ev("\"e\":\"obs\",\"t\":" + S(Me()) + ",\"k\":\"" + k + "\",\"n\":" + S(n)); }
  void OnSpansSent(int n) noexcept override { Tell("sent", n); }
  void OnSpansDropped(int n) noexcept override { Tell("dropped", n); }
};
static void Script(AutoRecorder& rec, int t, const std::string& s) {
  int n = 0;
  for (char k : s) {
    std::string me = ",\"t\":" + S(Me());
    if (k == 'r') {
      int id = t * 100 + ++n;
      collector::Span sp;
      sp.set_operation_name(std::to_string(id));
      auto kv = sp.add_tags();
      kv->set_key("t");
      kv->set_string_value("v" + std::to_string(id));
      Ev("\"e\":\"rc\"" + me + ",\"id\":" + S(id) + ",\"now\":" + Now());
      rec.RecordSpan(sp);
      Ev("\"e\":\"rr\"" + me + ",\"now\":" + Now());
    } else if (k == 'f' || k == 'F' || k == 'L') {
      long ms = k == 'f' ? 0 : k == 'F' ? 5000 : 100000;
      Ev("\"e\":\"fc\"" + me + ",\"now\":" + Now() + ",\"by\":" + S(vrt::Now() / 1000000 + ms));
      bool r = rec.FlushWithTimeout(std::chrono::milliseconds{ms});
      Ev("\"e\":\"fr\"" + me + ",\"r\":" + S(r) + ",\"now\":" + Now());
    } else if (k == 's' || k == 'S') {
      std::this_thread::sleep_for(std::chrono::seconds{k == 's' ? 1 : 8});
    } else if (k == 'm' || k == 'M') {
      Ev("\"e\":\"max\",\"m\":" + S(k == 'm' ? 1 : 3) + ",\"now\":" + Now());
      SetMaximum(k == 'm' ? 1 : 3);
    }
  }
}
int main(int argc, char** argv) {
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  bool precise = atoi(argv[9]) != 0;
  o.early_timeouts = !precise;
  size_t max = static_cast<size_t>(atoi(argv[10]));
  answers = argv[11];
  char end = argv[12][0];
  std::vector<std::string> scripts(argv + 13, argv + argc);
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  vrt::Explore(o, [&] {
    SetMaximum(max);
    LightStepTracerOptions op;
    op.access_token = "token-1";
    op.tags = {{"k", std::string{"v"}}};
    op.reporting_period = std::chrono::seconds{kPeriod};
    op.max_buffered_spans = DynamicConfigurationValue<size_t>{std::function<size_t()>{[] { return GetMaximum(); }}};
    op.metrics_observer.reset(new Obs{});
    Ev("\"e\":\"new\",\"max\":" + S(static_cast<long>(max)) + ",\"now\":" + Now() + ",\"period\":" + S(kPeriod * 1000) + ",\"precise\":" + S(precise));
    std::unique_ptr<AutoRecorder> rec{new AutoRecorder{logger, std::move(op), std::unique_ptr<SyncTransporter>{new Fake{}}}};
    std::vector<int> ids;
    for (size_t i = 0; i < scripts.size(); ++i) ids.push_back(vrt::Spawn([&, i] { Script(*rec, static_cast<int>(i) + 1, scripts[i]); }));
    for (int i : ids) vrt::Join(i);
    if (end == 'w') {
      std::this_thread::sleep_for(std::chrono::seconds{3 * kPeriod});
      if (precise) {
        Ev("\"e\":\"idle\",\"now\":" + Now());
        bool r = rec->is_writer_running();
        Ev("\"e\":\"running\",\"r\":" + S(r));
      }
    }
    Ev("\"e\":\"dc\",\"now\":" + Now());
    rec.reset();
    Ev("\"e\":\"dr\",\"now\":" + Now());
    std::this_thread::sleep_for(std::chrono::seconds{3 * kPeriod});
    Ev("\"e\":\"end\"");
  });
  return 0;
}
