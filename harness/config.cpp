// Driver for C36 and C38: tracer options from JSON, and the tracers made of options.
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <lightstep/tracer.h>
#include <lightstep/transporter.h>
#include <lightstep/version.h>
#include <opentracing/version.h>
#include "lightstep-tracer-common/collector.pb.h"
#include "sink.h"
#include "tracer/json_options.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/lightstep_tracer_factory.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
namespace ot = opentracing;
using std::string;
using std::vector;

static string Hex(const string& s) {
  static const char* d = "0123456789abcdef";
  string r;
  for (char c : s) { r += d[(static_cast<unsigned char>(c) >> 4)]; r += d[c & 15]; }
  return r;
}
static string Unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static string Q(const string& s) { return "\"" + s + "\""; }
static string Num(unsigned long long n) { return n >> 32 ? string("[-1,0]") : "[" + S(static_cast<long>(n >> 16)) + "," + S(static_cast<long>(n & 65535)) + "]"; }
static string Micros(long long ns) { return ns < 0 || ns % 1000 ? string("[-1,0]") : Num(static_cast<unsigned long long>(ns / 1000)); }
static string Show(const LightStepTracerOptions& o) {
  static const char* names[] = {"?", "lightstep", "b3", "envoy", "trace_context", "cloud_trace"};
  string modes, ends, tags;
  for (auto m : o.propagation_modes) modes += (modes.empty() ? "" : ",") + Q(names[static_cast<int>(m)]);
  for (auto& e : o.satellite_endpoints) ends += (ends.empty() ? "" : ",") + string("[") + Q(Hex(e.first)) + "," + S(e.second) + "]";
  std::map<string, string> sorted;
  for (auto& t : o.tags) sorted[t.first] = t.second.is<string>() ? Hex(t.second.get<string>()) : "other";
  for (auto& t : sorted) tags += (tags.empty() ? "" : ",") + string("[") + Q(Hex(t.first)) + "," + Q(t.second) + "]";
  bool rest = o.use_thread && !o.transporter && !o.metrics_observer && !o.logger_sink;
  return "\"component_name\":" + Q(Hex(o.component_name)) + ",\"access_token\":" + Q(Hex(o.access_token)) + ",\"collector_host\":" + Q(Hex(o.collector_host)) +
         ",\"ssl_root_certificates\":" + Q(Hex(o.ssl_root_certificates)) + ",\"collector_port\":" + Num(o.collector_port) +
         ",\"max_buffered_spans\":" + Num(o.max_buffered_spans.value()) + ",\"reporting_period\":" + Micros(std::chrono::nanoseconds(o.reporting_period).count()) +
         ",\"report_timeout\":" + Micros(std::chrono::nanoseconds(o.report_timeout).count()) + ",\"collector_plaintext\":" + S(o.collector_plaintext) +
         ",\"use_single_key_propagation\":" + S(o.use_single_key_propagation) + ",\"use_stream_recorder\":" + S(o.use_stream_recorder) + ",\"verbose\":" + S(o.verbose) +
         ",\"satellite_endpoints\":[" + ends + "],\"propagation_modes\":[" + modes + "],\"tags\":[" + tags + "],\"rest\":" + S(rest);
}

// ---- transporters of the three kinds, keeping the reports
struct Kept { vector<string> reports; bool fail = false; int dead = 0; };
struct SyncT : SyncTransporter {
  Kept* k;
  explicit SyncT(Kept* x) : k{x} {}
  ~SyncT() override { ++k->dead; }
  ot::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message&) override {
    k->reports.push_back(request.SerializeAsString());
    return {};
  }
};
struct LegacyT : LegacyAsyncTransporter {
  Kept* k;
  explicit LegacyT(Kept* x) : k{x} {}
  ~LegacyT() override { ++k->dead; }
  void Send(const google::protobuf::Message& request, google::protobuf::Message&, Callback& cb) override {
    k->reports.push_back(request.SerializeAsString());
    cb.OnSuccess();
  }
};
struct AsyncT : AsyncTransporter {
  Kept* k;
  explicit AsyncT(Kept* x) : k{x} {}
  ~AsyncT() override { ++k->dead; }
  void Send(std::unique_ptr<BufferChain>&& message, Callback& cb) noexcept override {
    string all;
    message->ForEachFragment([](void* ctx, const void* p, size_t n) { static_cast<string*>(ctx)->append(static_cast<const char*>(p), n); return true; }, &all);
    k->reports.push_back(all);
    cb.OnSuccess(*message);
  }
};
struct PlainT : Transporter {   // of no kind at all
  Kept* k;
  explicit PlainT(Kept* x) : k{x} {}
  ~PlainT() override { ++k->dead; }
};
static string KvJson(const collector::KeyValue& kv) {
  string v;
  switch (kv.value_case()) {
    case collector::KeyValue::kStringValue: v = "s" + Hex(kv.string_value()); break;
    case collector::KeyValue::kIntValue: v = "i" + std::to_string(kv.int_value()); break;
    case collector::KeyValue::kDoubleValue: v = "d"; break;
    case collector::KeyValue::kBoolValue: v = kv.bool_value() ? "b1" : "b0"; break;
    case collector::KeyValue::kJsonValue: v = "j" + Hex(kv.json_value()); break;
    default: v = "none";
  }
  return "[" + Q(Hex(kv.key())) + "," + Q(v) + "]";
}
static std::map<uint64_t, int> g_ids;
static string Report(const string& bytes) {
  collector::ReportRequest r;
  if (!r.ParseFromString(bytes)) return "{\"good\":0}";
  string tags, spans;
  for (auto& kv : r.reporter().tags()) tags += (tags.empty() ? "" : ",") + KvJson(kv);
  for (auto& s : r.spans()) spans += (spans.empty() ? "" : ",") + Q(Hex(s.operation_name()));
  auto id = r.reporter().reporter_id();
  if (!g_ids.count(id)) { int n = static_cast<int>(g_ids.size()) + 1; g_ids[id] = n; }
  return "{\"good\":1,\"token\":" + Q(Hex(r.auth().access_token())) + ",\"tags\":[" + tags + "],\"id\":" + S(g_ids[id]) + ",\"spans\":[" + spans + "]}";
}

static void Command(const string& line) {
  std::istringstream is(line);
  vector<string> w;
  string x;
  while (is >> x) w.push_back(x);
  if (w.empty()) return;
  const string& op = w[0];
  if (op == "json") {
    string text = Unhex(w[1]), message, doc = ",\"syntax\":" + w[2] + ",\"doc\":" + Unhex(w[3]);
    auto r = MakeTracerOptions(text.c_str(), message);
    if (!r) Ev("\"e\":\"json\"" + doc + ",\"res\":\"err\",\"code\":" + S(r.error() ? 1 : 0));
    else Ev("\"e\":\"json\"" + doc + ",\"res\":\"ok\",\"opt\":{" + Show(*r) + "}");
  } else if (op == "fac") {   // the factory's answer
    string text = Unhex(w[1]), message, doc = ",\"syntax\":" + w[2] + ",\"doc\":" + Unhex(w[3]);
    LightStepTracerFactory f;
    auto r = f.MakeTracer(text.c_str(), message);
    if (!r) Ev("\"e\":\"fac\"" + doc + ",\"res\":\"err\",\"code\":" + S(r.error() ? 1 : 0));
    else Ev("\"e\":\"fac\"" + doc + ",\"res\":" + Q(*r ? "ok" : "null"));
  } else if (op == "make") {   // make transporter(s|a|l|p|n) thread stream plain component token tags(hex=s<hex>|i5|b1,...) spans
    Kept kept;
    int logged = 0;
    LightStepTracerOptions o;
    char t = w[1][0];
    switch (t) {
      case 's': o.transporter.reset(new SyncT{&kept}); break;
      case 'a': o.transporter.reset(new AsyncT{&kept}); break;
      case 'l': o.transporter.reset(new LegacyT{&kept}); break;
      case 'p': o.transporter.reset(new PlainT{&kept}); break;
      default: break;
    }
    o.use_thread = w[2] == "1";
    o.use_stream_recorder = w[3] == "1";
    o.collector_plaintext = w[4] == "1";
    o.component_name = Unhex(w[5]);
    o.access_token = Unhex(w[6]);
    o.logger_sink = [&](LogLevel l, ot::string_view) { logged += l == LogLevel::error; };
    string given;
    if (w[7] != "-") {
      std::istringstream ts(w[7]);
      string kv;
      while (std::getline(ts, kv, ',')) {
        auto i = kv.find('=');
        string key = Unhex(kv.substr(0, i)), v = kv.substr(i + 1);
        o.tags[key] = v[0] == 's' ? ot::Value{Unhex(v.substr(1))} : v[0] == 'b' ? ot::Value{v == "b1"} : ot::Value{static_cast<int64_t>(atoll(v.c_str() + 1))};
        given += (given.empty() ? "" : ",") + string("[") + Q(Hex(key)) + "," + Q(v) + "]";
      }
    }
    int spans = atoi(w[8].c_str());
    if (t == 'n') { o.satellite_endpoints.clear(); o.satellite_endpoints.emplace_back("127.0.0.1", 1); }
    char self[4096];
    auto n = readlink("/proc/self/exe", self, sizeof(self));
    string program(self, n > 0 ? static_cast<size_t>(n) : 0), names;
    program = program.substr(program.rfind('/') + 1);
    for (int i = 0; i < spans; ++i) names += (i ? "," : "") + Q(Hex("s" + std::to_string(i)));
    auto str = [](const string& k, const string& v) { return "[" + Q(Hex(k)) + "," + Q("s" + Hex(v)) + "]"; };
    string defaults = str("lightstep.tracer_platform", "c++") + ",[" + Q(Hex("lightstep.tracer_platform_version")) + "," + Q("i" + std::to_string(__cplusplus)) + "]," +
                      str("lightstep.tracer_version", LIGHTSTEP_VERSION) + "," + str("lightstep.opentracing_version", OPENTRACING_VERSION);
    string say = "\"e\":\"make\",\"t\":" + Q(string(1, t)) + ",\"thread\":" + S(o.use_thread) + ",\"stream\":" + S(o.use_stream_recorder) + ",\"plain\":" + S(o.collector_plaintext) +
                 ",\"component\":" + Q(w[5] == "-" ? "" : w[5]) + ",\"token\":" + Q(w[6] == "-" ? "" : w[6]) + ",\"tags\":[" + given + "],\"names\":[" + names + "],\"defaults\":[" + defaults + "],\"program\":" + Q(Hex(program));
    auto tracer = MakeLightStepTracer(std::move(o));
    bool made = tracer != nullptr, legacy = dynamic_cast<LegacyTracerImpl*>(tracer.get()) != nullptr;
    if (made) {
      for (int i = 0; i < spans; ++i) {
        tracer->StartSpan("s" + std::to_string(i))->Finish();
        if (i % 3 == 2) tracer->Flush();
      }
      tracer->Close();
    }
    tracer.reset();
    string reports;
    for (auto& r : kept.reports) reports += (reports.empty() ? "" : ",") + Report(r);
    Ev(say + ",\"made\":" + S(made) + ",\"legacy\":" + S(legacy) + ",\"logged\":" + S(logged > 0) + ",\"dead\":" + S(kept.dead) + ",\"reports\":[" + reports + "]");
  }
}
int main() {
  string line;
  std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) {
    if (line == "T") { puts("T"); g_ids.clear(); continue; }
    Command(line);
  }
  puts("END");
  return 0;
}
