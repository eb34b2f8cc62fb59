// C14: the legacy manual recorder driven by one thread.
#include <deque>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <vector>

#include "common/logger.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/legacy_manual_recorder.h"
#include "sink.h"
using namespace lightstep;

static size_t max_spans = 1;
static std::deque<std::string> plan;      // answers for the next sends
static std::string log_ans, log_sends;
static long tsent, tdrop, tflush;
static int bad;

struct Obs : MetricsObserver {
  void OnSpansSent(int n) noexcept override { tsent += n; }
  void OnSpansDropped(int n) noexcept override { tdrop += n; }
  void OnFlush() noexcept override { ++tflush; }
};

struct Fake : LegacyAsyncTransporter {
  bool in_flight = false;
  const google::protobuf::Message* request = nullptr;
  google::protobuf::Message* response = nullptr;
  Callback* callback = nullptr;
  std::string bytes;
  void Fill(const std::string& a) {
    response->Clear();
    auto& r = dynamic_cast<collector::ReportResponse&>(*response);
    if (a == "off") { r.add_commands(); r.add_commands()->set_disable(true); }
    else r.add_commands()->set_disable(false);
  }
  void Answer(const std::string& a) {
    in_flight = false;
    if (a == "fail") callback->OnFailure(std::make_error_code(std::errc::network_down));
    else { Fill(a); callback->OnSuccess(); }
  }
  void Send(const google::protobuf::Message& rq, google::protobuf::Message& rs, Callback& cb) override {
    if (in_flight) bad = 10;
    auto& r = dynamic_cast<const collector::ReportRequest&>(rq);
    std::string ids;
    for (auto& sp : r.spans()) {
      int id = atoi(sp.operation_name().c_str());
      if (sp.tags_size() != 1 || sp.tags(0).string_value() != "v" + std::to_string(id)) bad = 1;
      ids += (ids.empty() ? "" : ",") + S(id);
    }
    long d = 0;
    for (auto& c : r.internal_metrics().counts()) {
      if (c.name() != "spans.dropped") bad = 2;
      d += c.int_value();
    }
    if (r.internal_metrics().counts_size() > 1) bad = 3;
    if (r.auth().access_token() != "token-1" || r.reporter().tags_size() != 1 || r.reporter().tags(0).key() != "k" ||
        r.reporter().tags(0).string_value() != "v" || r.reporter().reporter_id() == 0) bad = 4;
    log_sends += (log_sends.empty() ? "" : ",") + std::string("{\"ids\":[") + ids + "],\"d\":" + S(d) + "}";
    std::string a = "ok";
    if (!plan.empty()) { a = plan.front(); plan.pop_front(); }
    log_ans += (log_ans.empty() ? "" : ",") + ("\"" + a + "\"");
    request = &rq;
    response = &rs;
    callback = &cb;
    if (a == "throw") throw std::runtime_error{"no"};
    bytes = r.SerializeAsString();
    in_flight = true;
    if (a != "hold") Answer(a);
  }
  bool Same() { return dynamic_cast<const collector::ReportRequest&>(*request).SerializeAsString() == bytes; }
};
static void Begin() { log_ans.clear(); log_sends.clear(); tsent = tdrop = tflush = 0; bad = 0; }
static std::string Rest() {
  return ",\"ans\":[" + log_ans + "],\"sends\":[" + log_sends + "],\"tsent\":" + S(tsent) + ",\"tdrop\":" + S(tdrop) + ",\"tflush\":" + S(tflush) +
         ",\"bad\":" + S(bad);
}
int main() {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  std::string line;
  std::unique_ptr<LegacyManualRecorder> rec;
  Fake* fake = nullptr;
  int id = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    std::string op, a;
    in >> op;
    if (op == "T") { rec.reset(); id = 0; puts("T"); fflush(stdout); continue; }
    if (op == "new" || op == "max") in >> max_spans;
    else if (op != "answer") { plan.clear(); while (in >> a) plan.push_back(a); }
    Begin();
    if (op == "new") {
      LightStepTracerOptions o;
      o.access_token = "token-1";
      o.tags = {{"k", std::string{"v"}}};
      o.max_buffered_spans = DynamicConfigurationValue<size_t>{std::function<size_t()>{[] { return max_spans; }}};
      o.metrics_observer.reset(new Obs{});
      fake = new Fake{};
      rec.reset(new LegacyManualRecorder{logger, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{fake}});
      Ev("\"e\":\"new\",\"max\":" + S(max_spans));
    } else if (op == "max") {
      Ev("\"e\":\"max\",\"m\":" + S(max_spans));
    } else if (op == "rec") {
      collector::Span sp;
      sp.set_operation_name(std::to_string(++id));
      auto kv = sp.add_tags();
      kv->set_key("t");
      kv->set_string_value("v" + std::to_string(id));
      rec->RecordSpan(sp);
      Ev("\"e\":\"rec\",\"id\":" + S(id) + Rest());
    } else if (op == "flush") {
      bool r = rec->FlushWithTimeout(std::chrono::seconds{0});
      Ev("\"e\":\"flush\",\"r\":" + S(r) + Rest());
    } else if (op == "answer") {
      in >> a;
      if (!fake->in_flight) continue;
      bool same = fake->Same();
      fake->Answer(a);
      Ev("\"e\":\"answer\",\"a\":\"" + a + "\",\"same\":" + S(same) + Rest());
    }
  }
  rec.reset();
  puts("END");
  return 0;
}
