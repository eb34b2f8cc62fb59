// Driver for C24-C26: spans of both tracers over a recorder that keeps what it is given.
// Sequences come from standard input, one command a line; under the scheduler the arguments hold
// the set-up and one script per thread (commands separated by '/').
#include <cinttypes>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "common/chained_stream.h"
#include "recorder/recorder.h"
#include "names.h"
#include "sink.h"
#include "tracer/immutable_span_context.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
namespace ot = opentracing;
using std::string;
using std::vector;

// ---- clocks: real names, virtual time
#ifndef VERIF_SCHED
static int64_t g_steady = 5000000000000;
static const int64_t kDelta = 1500000000;   // seconds
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_steady}}; }
system_clock::time_point system_clock::now() noexcept { return time_point{duration{g_steady + kDelta * 1000000000}}; }
}}}
#endif
static int64_t SteadyNow() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
static int64_t SystemNow() { return std::chrono::system_clock::now().time_since_epoch().count(); }
static string Sn(int64_t ns) {
  int64_t s = ns / 1000000000, n = ns % 1000000000;
  if (n < 0) { n += 1000000000; --s; }
  return "[" + S(s) + "," + S(n) + "]";
}

// ---- text
static string Hex(const char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  string r;
  for (size_t i = 0; i < n; ++i) { r += d[(static_cast<unsigned char>(p[i]) >> 4)]; r += d[p[i] & 15]; }
  return r;
}
static string Hex(const string& s) { return Hex(s.data(), s.size()); }
static string Unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static string Lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
static vector<string> Split(const string& s, char by) {
  vector<string> r;
  if (s == "-" || s.empty()) return r;
  string cur;
  for (char c : s) if (c == by) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}
static string Q(const string& s) { return "\"" + s + "\""; }

static string Id(uint64_t x) { return Q(NameOf(x)); }

// ---- values: b0 b1 i-5 u5 d<hexfloat> s<hex> c<hex> n L(v:v) D(hex>v:hex>v)
static ot::Value ParseValue(const char*& p) {
  auto upto = [&] { string r; while (*p && *p != ':' && *p != ')' && *p != '>') r += *p++; return r; };
  char k = *p++;
  switch (k) {
    case 'b': return ot::Value{upto() == "1"};
    case 'i': return ot::Value{static_cast<int64_t>(strtoll(upto().c_str(), nullptr, 10))};
    case 'u': return ot::Value{static_cast<uint64_t>(strtoull(upto().c_str(), nullptr, 10))};
    case 'd': return ot::Value{strtod(upto().c_str(), nullptr)};
    case 's': return ot::Value{Unhex(upto())};
    case 'c': return ot::Value{Keep_(Unhex(upto()))};
    case 'L': {
      ot::Values v;
      ++p;
      while (*p != ')') { v.push_back(ParseValue(p)); if (*p == ':') ++p; }
      ++p;
      return ot::Value{std::move(v)};
    }
    case 'D': {
      ot::Dictionary v;
      ++p;
      while (*p != ')') { string key = Unhex(upto()); ++p; v.emplace(key, ParseValue(p)); if (*p == ':') ++p; }
      ++p;
      return ot::Value{std::move(v)};
    }
    default: return ot::Value{nullptr};
  }
}
static ot::Value MakeValue(const string& s) { const char* p = s.c_str(); return ParseValue(p); }
using Pairs = vector<std::pair<string, ot::Value>>;
static Pairs MakePairs(const string& s) {
  Pairs r;
  for (auto& kv : Split(s, '|')) { auto i = kv.find('='); r.emplace_back(Unhex(kv.substr(0, i)), MakeValue(kv.substr(i + 1))); }
  return r;
}
static string PairsJson(const string& s) {
  string r;
  for (auto& kv : Split(s, '|')) { auto i = kv.find('='); r += (r.empty() ? "" : ",") + string("[") + Q(kv.substr(0, i)) + "," + Q(kv.substr(i + 1)) + "]"; }
  return "[" + r + "]";
}

// ---- what the recorder received
static string KvJson(const collector::KeyValue& kv) {
  char b[64];
  string v;
  switch (kv.value_case()) {
    case collector::KeyValue::kStringValue: v = "s" + Hex(kv.string_value()); break;
    case collector::KeyValue::kIntValue: v = "i" + std::to_string(kv.int_value()); break;
    case collector::KeyValue::kDoubleValue: snprintf(b, sizeof b, "d%a", kv.double_value()); v = b; break;
    case collector::KeyValue::kBoolValue: v = kv.bool_value() ? "b1" : "b0"; break;
    case collector::KeyValue::kJsonValue: v = "j" + Hex(kv.json_value()); break;
    default: v = "none";
  }
  return "[" + Q(Hex(kv.key())) + "," + Q(v) + "]";
}
template <class T> static string KvsJson(const T& kvs) {
  string r;
  for (auto& kv : kvs) r += (r.empty() ? "" : ",") + KvJson(kv);
  return "[" + r + "]";
}
static void Recorded(const collector::Span& s, bool ok) {
  string refs, logs, bag;
  for (auto& x : s.references())
    refs += (refs.empty() ? "" : ",") + string("[") + Q(x.relationship() == collector::Reference::CHILD_OF ? "c" : "f") + "," + Id(x.span_context().trace_id()) + "," + Id(x.span_context().span_id()) + "]";
  for (auto& x : s.logs())
    logs += (logs.empty() ? "" : ",") + string("[[") + S(x.timestamp().seconds()) + "," + S(x.timestamp().nanos()) + "]," + KvsJson(x.fields()) + "]";
  std::map<string, string> sorted(s.span_context().baggage().begin(), s.span_context().baggage().end());
  for (auto& x : sorted) bag += (bag.empty() ? "" : ",") + string("[") + Q(Hex(x.first)) + "," + Q(Hex(x.second)) + "]";
  auto dur = s.duration_micros();
  Ev("\"e\":\"rec\",\"t\":" + S(Me()) + ",\"good\":" + S(ok) + ",\"name\":" + Q(Hex(s.operation_name())) + ",\"lo\":" + Id(s.span_context().trace_id()) +
     ",\"sid\":" + Id(s.span_context().span_id()) + ",\"tags\":" + KvsJson(s.tags()) + ",\"logs\":[" + logs + "],\"refs\":[" + refs + "],\"bag\":[" + bag +
     "],\"start\":[" + S(s.start_timestamp().seconds()) + "," + S(s.start_timestamp().nanos()) + "],\"dur\":" + S(dur < 2000000000 ? static_cast<long>(dur) : -1));
}
struct Keep : Recorder {
  int header, footer;
  Keep(int h, int f) : header{h}, footer{f} {}
  Fragment ReserveHeaderSpace(ChainedStream& stream) override {
    if (header == 0) return {};
    void* data;
    int size;
    if (!stream.Next(&data, &size)) abort();
    stream.BackUp(size - header);
    return {data, header};
  }
  void WriteFooter(google::protobuf::io::CodedOutputStream& s) override { for (int i = 0; i < footer; ++i) s.WriteRaw("F", 1); }
  void RecordSpan(Fragment h, std::unique_ptr<ChainedStream>&& span) noexcept override {
    if (h.second > 0) memset(h.first, 'H', static_cast<size_t>(h.second));
    span->CloseOutput();
    string all;
    span->ForEachFragment([&](void* p, int n) { all.append(static_cast<char*>(p), static_cast<size_t>(n)); return true; });
    size_t hs = static_cast<size_t>(header), fs = static_cast<size_t>(footer);
    bool ok = h.second == header && all.size() >= hs + fs && all.substr(0, hs) == string(hs, 'H') && all.substr(all.size() - fs) == string(fs, 'F');
    collector::Span s;
    if (ok) ok = s.ParseFromString(all.substr(hs, all.size() - hs - fs));
    Recorded(s, ok);
    span.reset();
  }
  void RecordSpan(const collector::Span& span) noexcept override { Recorded(collector::Span{span}, true); }
};

// ---- contexts
struct Foreign : ot::SpanContext {
  void ForeachBaggageItem(std::function<bool(const string&, const string&)>) const override {}
};
struct Headers : ot::HTTPHeadersReader {
  vector<std::pair<string, string>> kv;
  ot::expected<void> ForeachKey(std::function<ot::expected<void>(ot::string_view, ot::string_view)> f) const override {
    for (auto& x : kv) { auto r = f(x.first, x.second); if (!r) return r; }
    return {};
  }
};
struct Out : ot::TextMapWriter {
  mutable vector<std::pair<string, string>> kv;
  ot::expected<void> Set(ot::string_view k, ot::string_view v) const override { kv.emplace_back(string(k.data(), k.size()), string(v.data(), v.size())); return {}; }
};

struct World {
  bool legacy = false;
  std::shared_ptr<LightStepTracer> tracer, extractor;
  Foreign foreign;
  vector<std::unique_ptr<ot::Span>> spans;
  vector<std::unique_ptr<ot::SpanContext>> ctxs;
  World() : spans(200), ctxs(200) {}
};
static World* W;

static string Bag(const ot::SpanContext& c) {
  std::map<string, string> m;
  int n = 0;
  c.ForeachBaggageItem([&](const string& k, const string& v) { m.emplace(k, v); ++n; return true; });
  string r;
  for (auto& x : m) r += (r.empty() ? "" : ",") + string("[") + Q(Hex(x.first)) + "," + Q(Hex(x.second)) + "]";
  if (n != static_cast<int>(m.size())) r = "[\"twice\",\"twice\"]";
  return "[" + r + "]";
}
static string Observe(const ot::SpanContext& c0) {
  auto& c = dynamic_cast<const LightStepSpanContext&>(c0);
  auto ts = c.trace_state();
  int fl = c.sampled();
  return "\"hi\":" + Id(c.trace_id_high()) + ",\"lo\":" + Id(c.trace_id_low()) + ",\"sid\":" + Id(c.span_id()) + ",\"fl\":" + S(fl) + ",\"ts\":" + Q(Hex(ts.data(), ts.size())) + ",\"bag\":" + Bag(c);
}
template <class F> static void LogWith(F&& f, const Pairs& p) {
#define K(i) {ot::string_view{p[i].first}, p[i].second}
  switch (p.size()) {
    case 0: f({}); break;
    case 1: f({K(0)}); break;
    case 2: f({K(0), K(1)}); break;
    case 3: f({K(0), K(1), K(2)}); break;
    case 4: f({K(0), K(1), K(2), K(3)}); break;
    case 5: f({K(0), K(1), K(2), K(3), K(4)}); break;
    default: f({K(0), K(1), K(2), K(3), K(4), K(5)}); break;
  }
#undef K
}
static void Command(const string& line) {
  std::istringstream in(line);
  vector<string> w;
  string x;
  while (in >> x) w.push_back(x);
  if (w.empty()) return;
  const string& op = w[0];
  string me = "\"t\":" + S(Me());
  auto call = [&](const string& rest) { Ev("\"e\":\"c\"," + me + ",\"op\":" + Q(op) + (rest.empty() ? "" : "," + rest)); };
  auto ret = [&](const string& rest) { Ev("\"e\":\"r\"," + me + (rest.empty() ? "" : "," + rest)); };
  if (op == "new") {
    W->legacy = w[1] == "o";
    LightStepTracerOptions o;
    o.propagation_modes = {PropagationMode::lightstep};
    LightStepTracerOptions o2;
    o2.propagation_modes = {PropagationMode::trace_context};
    std::unique_ptr<Recorder> r{new Keep{atoi(w[2].c_str()), atoi(w[3].c_str())}};
    auto logger = std::make_shared<Logger>([](LogLevel, ot::string_view) {});
    if (W->legacy) W->tracer.reset(new LegacyTracerImpl{logger, MakePropagationOptions(o), std::move(r)});
    else W->tracer.reset(new TracerImpl{logger, MakePropagationOptions(o), std::move(r)});
    W->extractor.reset(new TracerImpl{logger, MakePropagationOptions(o2), std::unique_ptr<Recorder>{new Keep{0, 0}}});
    Ev("\"e\":\"new\",\"legacy\":" + S(W->legacy) + ",\"delta\":" + S((SystemNow() - SteadyNow()) / 1000000000));
    return;
  }
#ifndef VERIF_SCHED
  if (op == "w") { g_steady += atoll(w[1].c_str()); return; }
#endif
  size_t id = w.size() > 1 ? static_cast<size_t>(atoi(w[1].c_str())) : 0;
  string idj = "\"id\":" + S(static_cast<long>(id));
  if (op == "x") {   // a context taken from headers
    uint64_t v[3];
    for (int i = 0; i < 3; ++i) { v[i] = strtoull(w[2 + i].c_str(), nullptr, 16); if (v[i]) NameGiven(v[i]); }
    Headers h;
    h.kv.emplace_back("traceparent", "00-" + w[2] + w[3] + "-" + w[4] + "-" + w[5]);
    if (w[6] != "-") h.kv.emplace_back("tracestate", Unhex(w[6]));
    for (auto& kv : Split(w[7], '|')) { auto i = kv.find('='); h.kv.emplace_back("ot-baggage-" + Unhex(kv.substr(0, i)), Unhex(kv.substr(i + 1))); }
    auto r = W->extractor->Extract(h);
    if (!r || !*r) { Ev("\"e\":\"refused\""); return; }
    W->ctxs[id] = std::move(*r);
    string bag;
    for (auto& kv : Split(w[7], '|')) { auto i = kv.find('='); bag += (bag.empty() ? "" : ",") + string("[") + Q(Hex(Lower(Unhex(kv.substr(0, i))))) + "," + Q(kv.substr(i + 1)) + "]"; }
    Ev("\"e\":\"x\"," + idj + ",\"hi\":" + Q(w[2]) + ",\"lo\":" + Q(w[3]) + ",\"sid\":" + Q(w[4]) + ",\"fl\":" + S(strtol(w[5].c_str(), nullptr, 16) & 1) +
       ",\"ts\":" + Q(w[6] == "-" ? "" : w[6]) + ",\"bag\":[" + bag + "],\"got\":{" + Observe(*W->ctxs[id]) + "}");
    return;
  }
  auto& span = W->spans[id];
  auto now = [] { return "\"now\":" + Sn(SteadyNow()); };
  if (op == "s") {
    ot::StartSpanOptions o;
    string refs;
    for (auto& r : Split(w[3], ',')) {   // c:x3 f:s2 c:n c:f
      size_t k = static_cast<size_t>(atoi(r.c_str() + 3));
      const ot::SpanContext* c = r[2] == 'x' ? W->ctxs[k].get() : r[2] == 's' ? &W->spans[k]->context() : r[2] == 'f' ? &W->foreign : nullptr;
      o.references.emplace_back(r[0] == 'c' ? ot::SpanReferenceType::ChildOfRef : ot::SpanReferenceType::FollowsFromRef, c);
      refs += (refs.empty() ? "" : ",") + string("{\"r\":") + Q(string(1, r[0])) + ",\"k\":" + Q(string(1, r[2])) + ",\"to\":" + S(static_cast<long>(k)) + "}";
    }
    string sys = "[]", ste = "[]";
    if (w[4] != "-") { int64_t v = atoll(w[4].c_str()); o.start_system_timestamp = std::chrono::system_clock::time_point{std::chrono::system_clock::duration{v}}; sys = Sn(v); }
    if (w[5] != "-") { int64_t v = atoll(w[5].c_str()); o.start_steady_timestamp = std::chrono::steady_clock::time_point{std::chrono::steady_clock::duration{v}}; ste = Sn(v); }
    for (auto& kv : MakePairs(w[6])) o.tags.emplace_back(kv.first, kv.second);
    string name = Unhex(w[2]);
    call(idj + ",\"name\":" + Q(w[2] == "-" ? "" : w[2]) + ",\"refs\":[" + refs + "],\"sys\":" + sys + ",\"ste\":" + ste + ",\"tags\":" + PairsJson(w[6]) + "," + now());
    span = W->tracer->StartSpanWithOptions(name, o);
    if (!span) { ret("\"none\":1"); return; }
    ret(Observe(span->context()));
  } else if (op == "n") {
    call(idj + ",\"name\":" + Q(w[2] == "-" ? "" : w[2]));
    span->SetOperationName(Unhex(w[2]));
    ret("");
  } else if (op == "t") {
    call(idj + ",\"k\":" + Q(w[2] == "-" ? "" : w[2]) + ",\"v\":" + Q(w[3]));
    auto v = MakeValue(w[3]);
    span->SetTag(Unhex(w[2]), v);
    ret("");
  } else if (op == "b") {
    call(idj + ",\"k\":" + Q(Hex(Lower(Unhex(w[2])))) + ",\"v\":" + Q(w[3] == "-" ? "" : w[3]));
    span->SetBaggageItem(Unhex(w[2]), Unhex(w[3]));
    ret("");
  } else if (op == "g") {
    call(idj + ",\"k\":" + Q(Hex(Lower(Unhex(w[2])))));
    auto v = span->BaggageItem(Unhex(w[2]));
    ret("\"v\":" + Q(Hex(v)));
  } else if (op == "q") {
    call(idj);
    int fl = dynamic_cast<const LightStepSpanContext&>(span->context()).sampled();
    ret("\"fl\":" + S(fl));
  } else if (op == "o") {   // only where nothing else is going on
    call(idj);
    ret(Observe(span->context()));
  } else if (op == "a") {
    call(idj);
    ret("\"bag\":" + Bag(span->context()));
  } else if (op == "l") {
    call(idj + "," + now() + ",\"f\":" + PairsJson(w[2]));
    auto p = MakePairs(w[2]);
    LogWith([&](std::initializer_list<std::pair<ot::string_view, ot::Value>> f) { span->Log(f); }, p);
    ret("");
  } else if (op == "i") {
    call(idj);
    Out out;
    auto r = W->tracer->Inject(span->context(), out);
    string bag, other;
    std::map<string, string> m;
    bool twice = false;
    for (auto& kv : out.kv) twice = !m.insert(kv).second || twice;
    auto take = [&](const char* k) { string v = m[k]; m.erase(k); return v; };
    auto tid = take("ot-tracer-traceid"), sid = take("ot-tracer-spanid"), smp = take("ot-tracer-sampled");
    for (auto& kv : m) {
      if (kv.first.compare(0, 11, "ot-baggage-") == 0) bag += (bag.empty() ? "" : ",") + string("[") + Q(Hex(kv.first.substr(11))) + "," + Q(Hex(kv.second)) + "]";
      else other = "1";
    }
    ret("\"good\":" + S(static_cast<bool>(r) && !twice && other.empty() && tid.size() == 16 && sid.size() == 16 && (smp == "1" || smp == "0")) + ",\"lo\":" + Id(strtoull(tid.c_str(), nullptr, 16)) +
        ",\"sid\":" + Id(strtoull(sid.c_str(), nullptr, 16)) + ",\"fl\":" + S(smp == "1") + ",\"bag\":[" + bag + "]");
  } else if (op == "f") {   // f id steady|- log;log   where a log is sys~k=v|k=v
    ot::FinishSpanOptions o;
    string logs, ste = "[]";
    if (w[2] != "-") { int64_t v = atoll(w[2].c_str()); o.finish_steady_timestamp = std::chrono::steady_clock::time_point{std::chrono::steady_clock::duration{v}}; ste = Sn(v); }
    for (auto& l : Split(w.size() > 3 ? w[3] : "-", ';')) {
      auto i = l.find('~');
      int64_t at = atoll(l.substr(0, i).c_str());
      ot::LogRecord r;
      r.timestamp = std::chrono::system_clock::time_point{std::chrono::system_clock::duration{at}};
      for (auto& kv : MakePairs(l.substr(i + 1))) r.fields.emplace_back(kv.first, kv.second);
      o.log_records.push_back(std::move(r));
      logs += (logs.empty() ? "" : ",") + string("[") + Sn(at) + "," + PairsJson(l.substr(i + 1)) + "]";
    }
    call(idj + ",\"ste\":" + ste + "," + now() + ",\"logs\":[" + logs + "]");
    span->FinishWithOptions(o);
    ret("");
  } else if (op == "d") {
    call(idj + "," + now());
    span.reset();
    ret("");
  }
}
static void Script(const string& s) { for (auto& l : Split(s, '/')) Command(l); }
static void Fresh(World& w) { W = &w; NamesReset(); }
int main(int argc, char** argv) {
#ifdef VERIF_SCHED
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  string setup = argv[9];
  vector<string> threads;
  for (int i = 10; i < argc; ++i) threads.push_back(argv[i]);
  vrt::Explore(o, [=] {
    World w;
    Fresh(w);
    Script(setup);
    for (auto& s : threads) vrt::Spawn([s] { Script(s); });
    vrt::JoinAll();
    for (size_t i = 0; i < w.spans.size(); ++i)
      if (w.spans[i]) { Command("o " + S(static_cast<long>(i))); Command("d " + S(static_cast<long>(i))); }
    Ev("\"e\":\"end\"");
  });
#else
  (void)argc; (void)argv;
  std::unique_ptr<World> w;
  string line;
  auto end = [&] {
    if (!w) return;
    for (size_t i = 0; i < w->spans.size(); ++i) if (w->spans[i]) { Command("o " + S(static_cast<long>(i))); Command("d " + S(static_cast<long>(i))); }
    Ev("\"e\":\"end\"");
    w.reset();
  };
  while (std::getline(std::cin, line)) {
    if (line == "T") { end(); puts("T"); w.reset(new World); Fresh(*w); g_steady = 5000000000000; continue; }
    Command(line);
  }
  end();
  puts("END");
#endif
  return 0;
}
