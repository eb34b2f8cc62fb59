// C23: recorders and real forks, driven by commands; every process logs what its recorders are told.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "common/chained_stream.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/manual_recorder.h"
#ifdef VERIF_SCHED
#include "sink.h"
#endif
using namespace lightstep;

static std::string S(long v, int) { return std::to_string(v); }
static std::string Q(long v) { return S(v, 0); }
#ifndef VERIF_SCHED
static std::string log_;
static void Ev(const std::string& j) { log_ += "{" + j + "}\n"; }
static void Out() {
  size_t at = 0;
  while (at < log_.size()) {
    ssize_t n = write(1, log_.data() + at, log_.size() - at);
    if (n <= 0) _exit(3);
    at += static_cast<size_t>(n);
  }
  log_.clear();
}
#else
static void Out() {}
#endif

// what one recorder sent
struct Sent : AsyncTransporter {
  std::vector<int> ids;
  long d = 0;
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& message, Callback& cb) noexcept override {
    std::string bytes;
    message->ForEachFragment([](void* ctx, const void* data, size_t size) {
      static_cast<std::string*>(ctx)->append(static_cast<const char*>(data), size);
      return true;
    }, &bytes);
    collector::ReportRequest rq;
    if (!rq.ParseFromString(bytes)) ids.push_back(-1);
    for (auto& sp : rq.spans()) ids.push_back(atoi(sp.operation_name().c_str()));
    for (auto& c : rq.internal_metrics().counts()) d += c.int_value();
    cb.OnSuccess(*message);
  }
};

struct Told {
  static void Tell(const char* what, int r) {
    Ev("\"e\":\"" + std::string{what} + "\",\"r\":" + Q(r));
    if (what[0] == 'p' && what[1] == 'r') Out();
  }
};
struct Plain : ForkAwareRecorder {
  int r;
  explicit Plain(int x) : r{x} {}
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override {}
  void PrepareForFork() noexcept override { Told::Tell("prep", r); }
  void OnForkedParent() noexcept override { Told::Tell("pa", r); }
  void OnForkedChild() noexcept override { Told::Tell("ch", r); }
};
struct Manual : ManualRecorder {
  int r;
  Sent* sent;
  Manual(int x, Logger& l, LightStepTracerOptions&& o, Sent* s)
      : ManualRecorder{l, std::move(o), std::unique_ptr<AsyncTransporter>{s}}, r{x}, sent{s} {}
  void PrepareForFork() noexcept override {
    Told::Tell("prep", r);
    ManualRecorder::PrepareForFork();
  }
  void OnForkedParent() noexcept override {
    Told::Tell("pa", r);
    ManualRecorder::OnForkedParent();
  }
  void OnForkedChild() noexcept override {
    Told::Tell("ch", r);
    ManualRecorder::OnForkedChild();
  }
};

static Logger logger{[](LogLevel, opentracing::string_view) {}};
static std::map<int, std::unique_ptr<ForkAwareRecorder>> recs;
static int next_id = 0;

static void Make(int r, char kind, int cap) {
  std::unique_ptr<ForkAwareRecorder> p;
  if (kind == 'p') {
    p.reset(new Plain{r});
  } else {
    LightStepTracerOptions o;
    o.access_token = "token-1";
    o.max_buffered_spans = DynamicConfigurationValue<size_t>{static_cast<size_t>(cap)};
    p.reset(new Manual{r, logger, std::move(o), new Sent{}});
  }
  Ev("\"e\":\"new\",\"r\":" + Q(r) + ",\"k\":\"" + kind + "\",\"cap\":" + Q(cap));
  recs[r] = std::move(p);
}
static void Kill(int r) {
  if (!recs.count(r)) return;
  recs.erase(r);
  Ev("\"e\":\"del\",\"r\":" + Q(r));
}
static void LiveOnes() {
  std::string rs;
  for (auto p : ForkAwareRecorder::GetActiveRecordersForTesting()) {
    int r = -1;
    for (auto& x : recs)
      if (x.second.get() == p) r = x.first;
    rs += (rs.empty() ? "" : ",") + Q(r);
  }
  Ev("\"e\":\"live\",\"rs\":[" + rs + "]");
}

#ifndef VERIF_SCHED
// new r kind cap | del r | rec r | flush r | live | ( child's commands ) | all
static void Run(std::vector<std::string>& cmds, size_t& i) {
  for (; i < cmds.size(); ++i) {
    std::istringstream in{cmds[i]};
    std::string op, kind;
    int r = 0, cap = 0;
    in >> op >> r;
    if (op == ")") return;
    if (op == "new") {
      in >> kind >> cap;
      Make(r, kind[0], cap);
    } else if (op == "del") {
      Kill(r);
    } else if (op == "all") {
      while (!recs.empty()) Kill(recs.begin()->first);
    } else if (op == "live") {
      LiveOnes();
    } else if (op == "rec" || op == "flush") {
      auto m = recs.count(r) ? dynamic_cast<Manual*>(recs[r].get()) : nullptr;
      if (m == nullptr) continue;
      if (op == "rec") {
        collector::Span span;
        span.set_operation_name(Q(++next_id));
        std::unique_ptr<ChainedStream> stream{new ChainedStream{}};
        auto header = m->ReserveHeaderSpace(*stream);
        {
          google::protobuf::io::CodedOutputStream out{stream.get()};
          span.SerializeWithCachedSizes((span.ByteSizeLong(), &out));
          m->WriteFooter(out);
        }
        Ev("\"e\":\"rec\",\"r\":" + Q(r) + ",\"id\":" + Q(next_id));
        m->RecordSpan(header, std::move(stream));
      } else {
        m->FlushWithTimeout(std::chrono::seconds{0});
        std::string ids;
        for (int x : m->sent->ids) ids += (ids.empty() ? "" : ",") + Q(x);
        Ev("\"e\":\"flush\",\"r\":" + Q(r) + ",\"ids\":[" + ids + "],\"d\":" + Q(m->sent->d));
        m->sent->ids.clear();
        m->sent->d = 0;
      }
    } else if (op == "(") {
      next_id += 1000;
      Ev("\"e\":\"fork\"");
      Out();
      pid_t pid = fork();
      if (pid == 0) {
        alarm(20);
        log_ = "{\"e\":\"split\"}\n" + log_;
        Ev("\"e\":\"inchild\"");
        ++i;
        Run(cmds, i);
        Ev("\"e\":\"cend\"");
        Out();
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (st != 0) log_ = "{\"e\":\"died\",\"st\":" + Q(st) + "}\n" + log_;
      next_id += 1000;
      Ev("\"e\":\"inparent\"");
      for (int depth = 0; i < cmds.size(); ++i) {
        depth += cmds[i] == "(" ? 1 : cmds[i] == ")" ? -1 : 0;
        if (depth == 0) break;
      }
    }
  }
}
int main() {
  std::vector<std::string> cmds;
  char* line = nullptr;
  size_t cap = 0;
  ssize_t n;
  auto go = [&] {
    if (cmds.empty()) return;
    size_t i = 0;
    next_id = 0;
    Run(cmds, i);
    recs.clear();
    Out();
    cmds.clear();
  };
  // everything is read before anything forks
  std::vector<std::vector<std::string>> all;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    std::string s{line, static_cast<size_t>(n)};
    while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    if (s == "T") all.emplace_back();
    else if (!all.empty() && !s.empty()) all.back().push_back(s);
  }
  for (auto& x : all) {
    (void)!write(1, "T\n", 2);
    cmds = x;
    go();
  }
  (void)!write(1, "END\n", 4);
  return 0;
}
#else
// forks <strategy> <preemptions> <executions> <seed> <shard> <shards> <seconds> script...: threads that create and destroy, then a fork
struct Handlers {
  void (*f[3])();
};
static std::vector<Handlers> registered;
extern "C" int __wrap_pthread_atfork(void (*a)(), void (*b)(), void (*c)()) {
  registered.push_back({{a, b, c}});
  return 0;
}
int main(int argc, char** argv) {
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  std::vector<std::string> scripts(argv + 9, argv + argc);
  vrt::Explore(o, [&] {
    std::vector<std::vector<std::unique_ptr<Plain>>> mine(scripts.size());
    for (size_t i = 0; i < scripts.size(); ++i)
      vrt::Spawn([&, i] {
        int n = 0;
        for (char k : scripts[i]) {
          auto& v = mine[i];
          if (k == 'c') {
            int r = static_cast<int>(i + 1) * 100 + ++n;
            v.emplace_back(new Plain{r});
            Ev("\"e\":\"new\",\"r\":" + Q(r) + ",\"k\":\"p\",\"cap\":0");
          } else if (!v.empty()) {   // d: the newest, o: the oldest
            auto it = k == 'd' ? v.end() - 1 : v.begin();
            int r = (*it)->r;
            it->reset();
            v.erase(it);
            Ev("\"e\":\"del\",\"r\":" + Q(r));
          }
        }
      });
    vrt::JoinAll();
    Ev("\"e\":\"fork\"");
    for (auto h = registered.rbegin(); h != registered.rend(); ++h) if (h->f[0]) h->f[0]();
    Ev("\"e\":\"split\"");
    for (auto& h : registered) if (h.f[2]) h.f[2]();
    Ev("\"e\":\"inchild\"");
    Ev("\"e\":\"cend\"");
    for (auto& h : registered) if (h.f[1]) h.f[1]();
    Ev("\"e\":\"inparent\"");
  });
  return 0;
}
#endif
