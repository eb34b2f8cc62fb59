// Driver for C27 and C28: contexts put into carriers and taken out of them, through both tracers.
#include <cinttypes>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <lightstep/binary_carrier.h>
#include "recorder/recorder.h"
#include "sink.h"
#include "tracer/immutable_span_context.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
namespace ot = opentracing;
using std::string;
using std::vector;
using Kvs = vector<std::pair<string, string>>;

static string Hex(const char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  string r;
  for (size_t i = 0; i < n; ++i) { r += d[(static_cast<unsigned char>(p[i]) >> 4)]; r += d[p[i] & 15]; }
  return r;
}
static string Hex(const string& s) { return Hex(s.data(), s.size()); }
static string Unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static string Lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
static vector<string> Split(const string& s, char by) {
  vector<string> r;
  if (s == "-" || s.empty()) return r;
  string cur;
  for (char c : s) if (c == by) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}
static string Q(const string& s) { return "\"" + s + "\""; }
static string Id(uint64_t x) { char b[20]; snprintf(b, sizeof b, "%016" PRIx64, x); return Q(b); }
static Kvs ParseKvs(const string& s) {
  Kvs r;
  for (auto& kv : Split(s, ',')) { auto i = kv.find('='); r.emplace_back(Unhex(kv.substr(0, i)), Unhex(kv.substr(i + 1))); }
  return r;
}
static string Json(const Kvs& kvs) {
  string r;
  for (auto& x : kvs) r += (r.empty() ? "" : ",") + string("[") + Q(Hex(x.first)) + "," + Q(Hex(x.second)) + "]";
  return "[" + r + "]";
}

struct Nothing : Recorder {
  void RecordSpan(const collector::Span&) noexcept override {}
  Fragment ReserveHeaderSpace(ChainedStream&) override { return {}; }
  void WriteFooter(google::protobuf::io::CodedOutputStream&) override {}
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&& s) noexcept override { s->CloseOutput(); s.reset(); }
};
struct Foreign : ot::SpanContext {
  void ForeachBaggageItem(std::function<bool(const string&, const string&)>) const override {}
};
struct Other : ot::Tracer {   // a tracer of someone else
  std::unique_ptr<ot::Span> StartSpanWithOptions(ot::string_view, const ot::StartSpanOptions&) const noexcept override { return nullptr; }
  ot::expected<void> Inject(const ot::SpanContext&, std::ostream&) const override { return {}; }
  ot::expected<void> Inject(const ot::SpanContext&, const ot::TextMapWriter&) const override { return {}; }
  ot::expected<void> Inject(const ot::SpanContext&, const ot::HTTPHeadersWriter&) const override { return {}; }
  ot::expected<std::unique_ptr<ot::SpanContext>> Extract(std::istream&) const override { return std::unique_ptr<ot::SpanContext>{}; }
  ot::expected<std::unique_ptr<ot::SpanContext>> Extract(const ot::TextMapReader&) const override { return std::unique_ptr<ot::SpanContext>{}; }
  ot::expected<std::unique_ptr<ot::SpanContext>> Extract(const ot::HTTPHeadersReader&) const override { return std::unique_ptr<ot::SpanContext>{}; }
};
template <class Base> struct Out : Base {
  mutable Kvs kv;
  int fail = -1;
  ot::expected<void> Set(ot::string_view k, ot::string_view v) const override {
    if (static_cast<int>(kv.size()) == fail) return ot::make_unexpected(std::make_error_code(std::errc::no_space_on_device));
    kv.emplace_back(string(k.data(), k.size()), string(v.data(), v.size()));
    return {};
  }
};
template <class Base> struct In : Base {
  Kvs kv;
  char look = 'n';
  // on the heap and exactly as long as it is, so that reading beyond it is seen
  mutable vector<std::unique_ptr<char[]>> kept;
  ot::string_view Exact(const string& s) const {
    kept.emplace_back(new char[s.size()]);
    s.copy(kept.back().get(), s.size());
    return {kept.back().get(), s.size()};
  }
  ot::expected<ot::string_view> LookupKey(ot::string_view k) const override {
    if (look == 'n') return ot::make_unexpected(ot::lookup_key_not_supported_error);
    string want(k.data(), k.size());
    for (auto& x : kv) if (look == 'i' ? Lower(x.first) == Lower(want) : x.first == want) return Exact(x.second);
    return ot::make_unexpected(ot::key_not_found_error);
  }
  ot::expected<void> ForeachKey(std::function<ot::expected<void>(ot::string_view, ot::string_view)> f) const override {
    for (auto& x : kv) {
      auto r = f(Exact(x.first), Exact(x.second));
      if (!r) return r;
    }
    return {};
  }
};

struct World {
  std::shared_ptr<LightStepTracer> tracer;
  std::unique_ptr<ot::SpanContext> given;
  std::unique_ptr<ot::Span> span, parent;
  const ot::SpanContext* ctx = nullptr;
  Kvs headers;
};
static World* W;

static string Observe(const ot::SpanContext& c0) {
  auto c = dynamic_cast<const LightStepSpanContext*>(&c0);
  if (!c) return "\"foreign\":1";
  auto ts = c->trace_state();
  Kvs bag;
  std::map<string, string> m;
  c->ForeachBaggageItem([&](const string& k, const string& v) { bag.emplace_back(k, v); m.emplace(k, v); return true; });
  if (m.size() != bag.size()) return "\"twice\":1";
  return "\"hi\":" + Id(c->trace_id_high()) + ",\"lo\":" + Id(c->trace_id_low()) + ",\"sid\":" + Id(c->span_id()) + ",\"fl\":" + S(c->sampled()) +
         ",\"ts\":" + Q(Hex(ts.data(), ts.size())) + ",\"bag\":" + Json(bag);
}
static string Error(const std::error_code& e) {
  if (e == ot::invalid_span_context_error) return "context";
  if (e == ot::invalid_carrier_error) return "carrier";
  if (e == ot::span_context_corrupted_error) return "corrupt";
  if (e == std::errc::io_error) return "io";
  if (e == std::errc::no_space_on_device) return "space";
  return "other";
}
static void Result(const ot::expected<std::unique_ptr<ot::SpanContext>>& r, const string& what) {
  string s = "\"e\":\"ext\"," + what;
  if (!r) Ev(s + ",\"res\":\"err\",\"err\":" + Q(Error(r.error())));
  else if (!*r) Ev(s + ",\"res\":\"none\"");
  else Ev(s + ",\"res\":\"ok\",\"got\":{" + Observe(**r) + "}");
}
template <class Base> static void ExtractHeaders(const string& k, char look, const Kvs& kv) {
  In<Base> in;
  in.kv = kv;
  in.look = look;
  Result(W->tracer->Extract(in), "\"k\":" + Q(k) + ",\"look\":" + Q(string(1, look)) + ",\"H\":" + Json(kv));
}
static void Command(const string& line) {
  std::istringstream is(line);
  vector<string> w;
  string x;
  while (is >> x) w.push_back(x);
  if (w.empty()) return;
  const string& op = w[0];
  if (op == "new") {   // new modes|- single n|o
    LightStepTracerOptions o;
    string modes;
    for (char c : w[1]) {
      if (c == '-') break;
      o.propagation_modes.push_back(c == 'l' ? PropagationMode::lightstep : c == 'b' ? PropagationMode::b3 : c == 'e' ? PropagationMode::envoy
                                    : c == 't' ? PropagationMode::trace_context : PropagationMode::cloud_trace);
      modes += (modes.empty() ? "" : ",") + Q(string(1, c));
    }
    o.use_single_key_propagation = w[2] == "1";
    auto logger = std::make_shared<Logger>([](LogLevel, ot::string_view) {});
    std::unique_ptr<Recorder> r{new Nothing};
    if (w[3] == "o") W->tracer.reset(new LegacyTracerImpl{logger, MakePropagationOptions(o), std::move(r)});
    else W->tracer.reset(new TracerImpl{logger, MakePropagationOptions(o), std::move(r)});
    Ev("\"e\":\"new\",\"modes\":[" + modes + "],\"single\":" + S(o.use_single_key_propagation));
  } else if (op == "ctx") {   // ctx i|m|s hi lo sid fl ts bag
    uint64_t hi = strtoull(w[2].c_str(), nullptr, 16), lo = strtoull(w[3].c_str(), nullptr, 16), sid = strtoull(w[4].c_str(), nullptr, 16);
    bool fl = w[5] != "0";
    auto bag = ParseKvs(w[7]);
    W->span.reset();
    W->given.reset();
    string kind = w[1];
    if (kind == "m") {
      std::unordered_map<string, string> b(bag.begin(), bag.end());
      auto r = w[5] == "d" ? W->tracer->MakeSpanContext(lo, sid, std::move(b)) : W->tracer->MakeSpanContext(lo, sid, fl, std::move(b));
      if (!r || !*r) { Ev("\"e\":\"broken\""); return; }
      W->given = std::move(*r);
    } else {
      TraceContext t;
      t.trace_id_high = hi; t.trace_id_low = lo; t.parent_id = sid;
      t.trace_flags = static_cast<uint8_t>(strtol(w[5].c_str(), nullptr, 16));
      fl = t.trace_flags & 1;
      BaggageProtobufMap b;
      for (auto& kv : bag) b[kv.first] = kv.second;
      W->given.reset(new ImmutableSpanContext{t, Unhex(w[6]), std::move(b)});
    }
    W->ctx = W->given.get();
    string was = "\"e\":\"ctx\",\"kind\":" + Q(kind) + ",\"given\":{\"hi\":" + Id(kind == "m" ? 0 : hi) + ",\"lo\":" + Id(lo) + ",\"sid\":" + Id(sid) + ",\"fl\":" + S(fl) +
                 ",\"ts\":" + Q(kind == "m" || w[6] == "-" ? "" : w[6]) + ",\"bag\":" + Json(bag) + "}";
    if (kind == "s") {
      ot::StartSpanOptions o;
      o.references.emplace_back(ot::SpanReferenceType::ChildOfRef, W->given.get());
      W->span = W->tracer->StartSpanWithOptions("child", o);
      W->ctx = &W->span->context();
    }
    Ev(was + ",\"got\":{" + Observe(*W->ctx) + "}");
  } else if (op == "inj") {   // inj t|h|s|b|f|o [fail at]
    int fail = w.size() > 2 ? atoi(w[2].c_str()) : -1;
    string s = "\"e\":\"inj\",\"k\":" + Q(w[1]) + ",\"fail\":" + S(fail);
    auto res = [](const ot::expected<void>& r) { return ",\"err\":" + Q(r ? "" : Error(r.error())); };
    char k = w[1][0];
    if (k == 't') {
      Out<ot::TextMapWriter> out;
      out.fail = fail;
      auto r = W->tracer->Inject(*W->ctx, out);
      W->headers = out.kv;
      Ev(s + res(r) + ",\"H\":" + Json(out.kv));
    } else if (k == 'h') {
      Out<ot::HTTPHeadersWriter> out;
      out.fail = fail;
      auto r = W->tracer->Inject(*W->ctx, out);
      W->headers = out.kv;
      Ev(s + res(r) + ",\"H\":" + Json(out.kv));
    } else if (k == 's') {
      std::ostringstream out;
      if (fail == 0) out.setstate(std::ios::failbit);
      auto r = W->tracer->Inject(*W->ctx, out);
      Ev(s + res(r) + ",\"B\":" + Q(Hex(out.str())));
    } else if (k == 'b' || k == 'o') {
      BinaryCarrier c;
      (*c.mutable_basic_ctx()->mutable_baggage_items())["left"] = "over";
      c.add_deprecated_text_ctx("old");
      LightStepBinaryWriter writer{c};
      Other other;
      ot::expected<void> r = k == 'b' ? writer.Inject(*W->tracer, *W->ctx) : writer.Inject(other, *W->ctx);
      Ev(s + res(r) + ",\"B\":" + Q(Hex(c.SerializeAsString())));
    } else {   // contexts of other tracers
      Foreign f;
      Out<ot::TextMapWriter> t;
      Out<ot::HTTPHeadersWriter> h;
      std::ostringstream o;
      BinaryCarrier c;
      LightStepBinaryWriter writer{c};
      ot::expected<void> r = W->tracer->Inject(f, t);
      Ev(s + res(r) + ",\"H\":" + Json(t.kv));
      r = W->tracer->Inject(f, h);
      Ev(s + res(r) + ",\"H\":" + Json(h.kv));
      r = W->tracer->Inject(f, o);
      Ev(s + res(r) + ",\"B\":" + Q(Hex(o.str())));
      r = writer.Inject(*W->tracer, f);
      Ev(s + res(r) + ",\"B\":" + Q(Hex(c.SerializeAsString())));
    }
  } else if (op == "ext") {   // ext t|h|s|b|o|x look carrier
    char k = w[1][0], look = w[2][0];
    if (k == 't') ExtractHeaders<ot::TextMapReader>(w[1], look, ParseKvs(w[3]));
    else if (k == 'h') ExtractHeaders<ot::HTTPHeadersReader>(w[1], look, ParseKvs(w[3]));
    else {
      string b = Unhex(w[3]);
      string what = "\"k\":" + Q(w[1]) + ",\"look\":\"n\",\"B\":" + Q(Hex(b));
      if (k == 's' || k == 'x') {
        std::istringstream in(b);
        if (k == 'x') in.setstate(std::ios::failbit);
        Result(W->tracer->Extract(in), what);
      } else {
        BinaryCarrier c;
        if (!c.ParseFromString(b)) return;
        Other other;
        LightStepBinaryReader reader{w[3] == "-" && look == '0' ? nullptr : &c};
        if (k == 'o') Result(reader.Extract(other), what);
        else Result(reader.Extract(*W->tracer), what);
      }
    }
  } else if (op == "rt") {   // rt t|h look case keep: the headers last injected, keys in another case, those starting with what is not kept left out
    Kvs kv;
    auto drop = Split(w[4], ',');
    unsigned n = 0;
    for (auto x : W->headers) {
      bool out = false;
      string l = Lower(x.first);
      for (auto& d : drop) out = out || l.compare(0, d.size(), d) == 0;
      if (out) continue;
      for (auto& c : x.first) {
        bool up = w[3] == "u" || (w[3] == "m" && (n++ * 2654435761u >> 13 & 1));
        if (w[3] != "=" && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
        if (up && c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
      }
      kv.push_back(x);
    }
    if (w[1] == "t") ExtractHeaders<ot::TextMapReader>("t", w[2][0], kv);
    else ExtractHeaders<ot::HTTPHeadersReader>("h", w[2][0], kv);
  }
}
int main() {
  std::unique_ptr<World> w;
  string line;
  while (std::getline(std::cin, line)) {
    if (line == "T") { puts("T"); w.reset(new World); W = w.get(); continue; }
    Command(line);
  }
  w.reset();
  puts("END");
  return 0;
}
