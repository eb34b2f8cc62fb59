// C13: the manual recorder, driven by commands (one thread) or by scripts under the scheduler.
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <vector>

#include "common/chained_stream.h"
#include "common/logger.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/manual_recorder.h"
#include "sink.h"
using namespace lightstep;

static int on_full = 0;      // what the transport does when told the buffer is full: 0 nothing, 1 flush
static char on_send = 'h';   // h hold, o success, x failure

static std::string Name(int id) { return "span-" + std::to_string(id); }
static std::string Payload(int id, int len) {
  std::string s;
  for (int i = 0; i < len; ++i) s += static_cast<char>('a' + (id * 7 + i * 3) % 26);
  return s;
}

struct Held {
  int q;
  std::unique_ptr<BufferChain> message;
  AsyncTransporter::Callback* callback;
};

class Fake : public AsyncTransporter {
 public:
  ManualRecorder** recorder;
  std::mutex mutex;
  std::list<Held> held;
  int count = 0;
  explicit Fake(ManualRecorder** r) : recorder{r} {}
  void OnSpanBufferFull() noexcept override;
  void Send(std::unique_ptr<BufferChain>&& message, Callback& cb) noexcept override;
  void Answer(Held&& h, bool ok);
};

static bool Flush(ManualRecorder& r) {
  Ev("\"e\":\"fc\",\"t\":" + S(Me()));
  bool ok = r.FlushWithTimeout(std::chrono::seconds{0});
  Ev("\"e\":\"fr\",\"t\":" + S(Me()) + ",\"r\":" + S(ok));
  return ok;
}
void Fake::OnSpanBufferFull() noexcept {
  Ev("\"e\":\"full\",\"t\":" + S(Me()));
  if (on_full == 1) Flush(**recorder);
  Ev("\"e\":\"fullr\",\"t\":" + S(Me()));
}
void Fake::Answer(Held&& h, bool ok) {
  Ev("\"e\":\"ac\",\"t\":" + S(Me()) + ",\"q\":" + S(h.q) + ",\"ok\":" + S(ok));
  if (ok) h.callback->OnSuccess(*h.message);
  else h.callback->OnFailure(*h.message);
  Ev("\"e\":\"ar\",\"t\":" + S(Me()));
}
void Fake::Send(std::unique_ptr<BufferChain>&& message, Callback& cb) noexcept {
  std::string bytes;
  message->ForEachFragment([](void* ctx, const void* data, size_t size) {
    static_cast<std::string*>(ctx)->append(static_cast<const char*>(data), size);
    return true;
  }, &bytes);
  collector::ReportRequest rq;
  int bad = 0;
  if (!rq.ParseFromString(bytes)) bad = 1;
  if (bytes.size() != message->num_bytes()) bad = 2;
  if (rq.auth().access_token() != "token-1" || rq.reporter().tags_size() != 1 || rq.reporter().tags(0).key() != "k" ||
      rq.reporter().tags(0).string_value() != "v") bad = 3;
  static uint64_t reporter_id = 0;
  (void)reporter_id;
  if (rq.reporter().reporter_id() == 0) bad = 4;
  std::string ids;
  for (auto& sp : rq.spans()) {
    int id = atoi(sp.operation_name().c_str() + 5);
    if (sp.operation_name() != Name(id)) bad = 50;
    else if (sp.tags_size() != 1 || sp.tags(0).key() != "p") bad = 51;
    else if (sp.tags(0).string_value() != Payload(id, static_cast<int>(sp.span_context().span_id()))) bad = 52;
    ids += (ids.empty() ? "" : ",") + S(id);
  }
  long d = 0;
  for (auto& c : rq.internal_metrics().counts()) {
    if (c.name() != "spans.dropped") bad = 6;
    d += c.int_value();
  }
  if (rq.internal_metrics().counts_size() > 1) bad = 7;
  Held h;
  {
    std::lock_guard<std::mutex> g{mutex};
    h.callback = &cb;
    h.q = ++count;
  }
  Ev("\"e\":\"send\",\"t\":" + S(Me()) + ",\"q\":" + S(h.q) + ",\"ids\":[" + ids + "],\"d\":" + S(d) + ",\"bad\":" + S(bad));
  h.message = std::move(message);
  if (on_send == 'h') {
    std::lock_guard<std::mutex> g{mutex};
    held.push_back(std::move(h));
  } else {
    Answer(std::move(h), on_send == 'o');
  }
  Ev("\"e\":\"sendr\",\"t\":" + S(Me()));
}

struct Obs : MetricsObserver {
  void Tell(const char* k, int n) noexcept { Ev("\"e\":\"obs\",\"t\":" + S(Me()) + ",\"k\":\"" + k + "\",\"n\":" + S(n)); }
  void OnSpansSent(int n) noexcept override { Tell("sent", n); }
  void OnSpansDropped(int n) noexcept override { Tell("dropped", n); }
  void OnFlush() noexcept override { Tell("flush", 0); }
};

static void Record(ManualRecorder& r, int id, int len) {
  collector::Span span;
  span.set_operation_name(Name(id));
  span.mutable_span_context()->set_span_id(len);
  auto kv = span.add_tags();
  kv->set_key("p");
  kv->set_string_value(Payload(id, len));
  std::unique_ptr<ChainedStream> stream{new ChainedStream{}};

  auto header = r.ReserveHeaderSpace(*stream);
  {
    google::protobuf::io::CodedOutputStream out{stream.get()};
    span.SerializeWithCachedSizes((span.ByteSizeLong(), &out));
    r.WriteFooter(out);
  }
  Ev("\"e\":\"rc\",\"t\":" + S(Me()) + ",\"id\":" + S(id));
  r.RecordSpan(header, std::move(stream));
  Ev("\"e\":\"rr\",\"t\":" + S(Me()));
}

struct World {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  ManualRecorder* recorder_ptr = nullptr;
  Fake* fake = nullptr;
  std::unique_ptr<ManualRecorder> recorder;
  explicit World(int cap) {
    LightStepTracerOptions o;
    o.access_token = "token-1";
    o.tags = {{"k", std::string{"v"}}};
    o.max_buffered_spans = DynamicConfigurationValue<size_t>{static_cast<size_t>(cap)};
    o.metrics_observer.reset(new Obs{});
    fake = new Fake{&recorder_ptr};
    recorder.reset(new ManualRecorder{logger, std::move(o), std::unique_ptr<AsyncTransporter>{fake}});
    recorder_ptr = recorder.get();
    Ev("\"e\":\"new\",\"cap\":" + S(cap));
  }
  bool Answer(int i, bool ok) {
    Held h;
    {
      std::lock_guard<std::mutex> g{fake->mutex};
      if (static_cast<int>(fake->held.size()) < i || i < 1) return false;
      auto it = fake->held.begin();
      std::advance(it, i - 1);
      h = std::move(*it);
      fake->held.erase(it);
    }
    fake->Answer(std::move(h), ok);
    return true;
  }
};

#ifdef VERIF_SCHED
// manual <strategy> <preemptions> <executions> <seed> <shard> <shards> <seconds> <cap> <full> <send> script...
static void Script(World& w, int t, const std::string& s) {
  int n = 0;
  for (char k : s) {
    if (k == 'r') Record(*w.recorder, t * 100 + ++n, 3);
    else if (k == 'f') Flush(*w.recorder);
    else if (k == 'o') w.Answer(1, true);
    else if (k == 'x') w.Answer(1, false);
    else if (k == 'y') vrt::Yield();
  }
}
int main(int argc, char** argv) {
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  int cap = atoi(argv[9]);
  on_full = atoi(argv[10]);
  on_send = argv[11][0];
  std::vector<std::string> scripts(argv + 12, argv + argc);
  { World warm{1}; Record(*warm.recorder, 1, 1); Flush(*warm.recorder); }
  vrt::Explore(o, [&] {
    World w{cap};
    for (size_t i = 0; i < scripts.size(); ++i)
      vrt::Spawn([&, i] { Script(w, static_cast<int>(i) + 1, scripts[i]); });
    vrt::JoinAll();
    // everything is handed over in the end, drops included
    while (w.Answer(1, true)) {}
    on_send = 'o';
    Flush(*w.recorder);
    on_send = argv[11][0];
    Ev("\"e\":\"end\"");
  });
  return 0;
}
#else
int main() {
  std::string line;
  std::unique_ptr<World> w;
  int id = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    std::string op;
    in >> op;
    if (op == "T") {
      w.reset();
      id = 0;
      puts("T");
    } else if (op == "new") {
      int cap;
      in >> cap >> on_full;
      w.reset(new World{cap});
    } else if (op == "rec") {
      std::string p;
      int len;
      in >> p >> len;
      on_send = p[0];
      Record(*w->recorder, ++id, len);
    } else if (op == "flush") {
      std::string p;
      in >> p;
      on_send = p[0];
      Flush(*w->recorder);
    } else if (op == "answer") {
      int i, ok;
      in >> i >> ok;
      w->Answer(i, ok);
    } else if (op == "fork") {
      Ev("\"e\":\"fork\"");
      w->recorder->PrepareForFork();
      w->recorder->OnForkedChild();
    } else if (op == "end") {
      Ev("\"e\":\"end\"");
    }
    fflush(stdout);
  }
  w.reset();
  puts("END");
  return 0;
}
#endif
