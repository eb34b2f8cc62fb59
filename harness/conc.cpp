// Concurrency drivers for C01, C02, C03, C04, C11 under the deterministic scheduler.
// usage: conc <scenario> <strategy> <preemptions> <executions> <seed> <shard> <shards> <seconds> [params...]
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include "common/atomic_unique_ptr.h"
#include "common/circular_buffer.h"
#include "common/spin_lock_mutex.h"
#include "recorder/metrics_tracker.h"
#include "vrt.h"
using namespace lightstep;

static std::string S(long v) { return std::to_string(v); }

struct Obj {
  // several fields written before the hand-over, so that a missing release/acquire shows
  int id;
  long a, b;
  explicit Obj(int i) : id{i}, a{i * 7L}, b{i * 13L} {}
  bool Intact() const { return a == id * 7L && b == id * 13L; }
  ~Obj() {
    vrt::Event("\"e\":\"d\",\"t\":" + S(vrt::Self()) + ",\"id\":" + S(Intact() ? id : -1));
    a = b = -1;
  }
};

// ---- circular buffer
// params: capacity, producers, adds per producer, consumer script, retry
// consumer script letters: p peek, s counts, 1..9 take n (at most what is there), d discard 1, D discard 2, c clear, w wait
struct BufArgs {
  int cap, prods, adds;
  std::string script;
  int retry;
  int warm;
};
static void Counts(CircularBuffer<Obj>& b, const char* op) {
  vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"count\",\"n\":0");
  auto size = b.size();
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[" + S(static_cast<long>(size)) + "]");
  vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"prod\",\"n\":0");
  auto pc = b.production_count();
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[" + S(pc) + "]");
  vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"cons\",\"n\":0");
  auto cc = b.consumption_count();
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[" + S(cc) + "]");
  vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"empty\",\"n\":0");
  bool em = b.empty();
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[" + S(em) + "]");
}
static size_t BufferConsumer(CircularBuffer<Obj>& b, char k) {
  if (k == 's') { Counts(b, "count"); return 0; }
  if (k == 'w') { vrt::Yield(); return 0; }
  std::string ids;
  auto add = [&](const Obj* o) { ids += (ids.empty() ? "" : ",") + S(o == nullptr ? -2 : o->Intact() ? o->id : -1); };
  if (k == 'p') {
    vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"peek\",\"n\":0");
    auto r = b.Peek();
    size_t n = 0;
    r.ForEach([&](const AtomicUniquePtr<Obj>& p) noexcept { add(p.Get()); ++n; return true; });
    std::string v = S(r.size() == n);
    vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[" + ids + "],\"v\":[" + v + "]");
    return 0;
  }
  size_t have = b.size();
  if (k == 'c') {
    vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"clear\",\"n\":0");
    b.Clear();
    vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[]");
    return 0;
  }
  size_t n = k == 'd' ? 1 : k == 'D' ? 2 : k == 'A' ? 1000 : static_cast<size_t>(k - '0');
  if (n > have) n = have;
  if (k == 'd' || k == 'D') {
    vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"discard\",\"n\":" + S(static_cast<long>(n)));
    b.Consume(n);
    vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[]");
    return 0;
  }
  vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"take\",\"n\":" + S(static_cast<long>(n)));
  std::vector<std::unique_ptr<Obj>> got;
  got.reserve(16);
  b.Consume(n, [&](CircularBufferRange<AtomicUniquePtr<Obj>> & r) noexcept {
    r.ForEach([&](AtomicUniquePtr<Obj>& p) noexcept {
      std::unique_ptr<Obj> o;
      p.Swap(o);
      got.push_back(std::move(o));
      return true;
    });
  });
  for (auto& o : got) add(o.get());
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[" + ids + "],\"v\":[]");
  for (auto& o : got) o.reset();
  return n;
}
static bool weak = false;  // loads may read overwritten values
static void Buffer(const BufArgs& a) {
  {
    CircularBuffer<Obj> b{static_cast<size_t>(a.cap)};
    vrt::Event("\"e\":\"new\",\"cap\":" + S(a.cap) + ",\"max\":" + S(static_cast<long>(b.max_size())) + ",\"weak\":" + S(weak ? 1 : 0));
    auto add1 = [&](int t, std::unique_ptr<Obj>& u, int id) -> bool {
      vrt::Event("\"e\":\"ac\",\"t\":" + S(t) + ",\"id\":" + S(id));
      bool r = b.Add(u);
      vrt::Event("\"e\":\"ar\",\"t\":" + S(t) + ",\"r\":" + S(r) + ",\"own\":" + S(u ? (u->Intact() ? u->id : -1) : 0));
      return r;
    };
    // shift the ring so that the wrap-around is somewhere in the middle
    for (int i = 0; i < a.warm; ++i) {
      std::unique_ptr<Obj> u{new Obj(900 + i)};
      add1(0, u, 900 + i);
      BufferConsumer(b, '1');
    }
    for (int p = 1; p <= a.prods; ++p) {
      vrt::Spawn([&, p] {
        for (int i = 1; i <= a.adds; ++i) {
          int id = p * 100 + i;
          std::unique_ptr<Obj> u{new Obj(id)};
          for (int k = 0;; ++k) {
            bool r = add1(p, u, id);
            if (r || (k >= a.retry && a.retry <= 50)) break;
            if (a.retry > 50) vrt::Yield();
          }
          u.reset();
        }
      });
    }
    if (a.retry > 50) {
      // keep consuming until every producer is through
      long taken = 0;
      while (taken < static_cast<long>(a.prods) * a.adds) {
        size_t have = b.size();
        if (have == 0) { vrt::Yield(); continue; }
        taken += BufferConsumer(b, '2');
      }
    } else {
      for (char k : a.script) BufferConsumer(b, k);
    }
    vrt::JoinAll();
    vrt::Event("\"e\":\"quiet\"");
    if (a.script.find('q') == std::string::npos) {
      std::unique_ptr<Obj> u{new Obj(800)};
      add1(0, u, 800);
      BufferConsumer(b, 'p');
      Counts(b, "");
      BufferConsumer(b, '1');
    }
    vrt::Event("\"e\":\"cc\",\"t\":0,\"op\":\"destroy\",\"n\":0");
  }
  vrt::Event("\"e\":\"cr\",\"t\":0,\"ids\":[],\"v\":[]");
  vrt::Event("\"e\":\"end\"");
}

// ---- atomically swapped slots
// params: threads, script per thread over ops: f fill slot0, F fill slot1, x swap slot0 with own, X swap slot1, y swap slot0 with
// empty hand, r reset slot0 to null, R reset slot1 to a new object, n IsNull slot 0
static void Slots(int slots_n, const std::vector<std::string>& scripts) {
  const std::string w = weak ? ",\"w\":1" : ",\"w\":0";
  {
    std::vector<std::unique_ptr<AtomicUniquePtr<Obj>>> s;
    for (int i = 0; i < slots_n; ++i) s.emplace_back(new AtomicUniquePtr<Obj>{});
    for (size_t t = 1; t <= scripts.size(); ++t) {
      std::string sc = scripts[t - 1];
      vrt::Spawn([&, t, sc] {
        int next = static_cast<int>(t) * 100;
        auto own = [&](std::unique_ptr<Obj>& u) { return S(u ? (u->Intact() ? u->id : -1) : 0); };
        for (char k : sc) {
          int slot = (k == 'F' || k == 'X' || k == 'R' || k == 'Y' || k == 'N' || k == 'Z') ? 1 % slots_n : 0;
          std::string head = ",\"t\":" + S(t) + ",\"s\":" + S(slot);
          char l = static_cast<char>(k | 32);
          std::unique_ptr<Obj> u;
          if (l == 'f' || l == 'x' || (l == 'r' && k == 'R')) u.reset(new Obj(++next));
          int id = u ? u->id : 0;
          if (l == 'f') {
            vrt::Event("\"e\":\"c\",\"op\":\"fill\",\"id\":" + S(id) + head);
            bool r = s[slot]->SwapIfNull(u);
            vrt::Event("\"e\":\"r\"" + w + ",\"r\":" + S(r) + ",\"own\":" + own(u) + head);
          } else if (l == 'x' || l == 'y') {
            vrt::Event("\"e\":\"c\",\"op\":\"swap\",\"id\":" + S(id) + head);
            s[slot]->Swap(u);
            vrt::Event("\"e\":\"r\"" + w + ",\"r\":1,\"own\":" + own(u) + head);
          } else if (l == 'r' || l == 'z') {
            Obj* p = u.release();
            vrt::Event("\"e\":\"c\",\"op\":\"reset\",\"id\":" + S(id) + head);
            if (k == 'r') s[slot]->Reset(); else s[slot]->Reset(p);
            vrt::Event("\"e\":\"r\"" + w + ",\"r\":1,\"own\":0" + head);
          } else if (l == 'n') {
            vrt::Event("\"e\":\"c\",\"op\":\"null\",\"id\":0" + head);
            bool r = s[slot]->IsNull();
            vrt::Event("\"e\":\"r\"" + w + ",\"r\":" + S(r) + ",\"own\":0" + head);
          }
          if (u) u.reset();
        }
      });
    }
    vrt::JoinAll();
    for (int i = 0; i < slots_n; ++i) {
      vrt::Event("\"e\":\"c\",\"op\":\"null\",\"id\":0,\"t\":0,\"s\":" + S(i));
      bool r = s[i]->IsNull();
      vrt::Event("\"e\":\"r\"" + w + ",\"r\":" + S(r) + ",\"own\":0,\"t\":0,\"s\":" + S(i));
      int got = 0;
      if (!r) got = (**s[i]).Intact() ? (*s[i])->id : -1;
      vrt::Event("\"e\":\"look\",\"s\":" + S(i) + ",\"id\":" + S(got));
      vrt::Event("\"e\":\"c\",\"op\":\"destroy\",\"id\":0,\"t\":0,\"s\":" + S(i));
      s[i].reset();
      vrt::Event("\"e\":\"r\"" + w + ",\"r\":1,\"own\":0,\"t\":0,\"s\":" + S(i));
    }
  }
  vrt::Event("\"e\":\"end\"");
}

// ---- spin lock
static void Lock(int threads, int rounds, int guard) {
  SpinLockMutex m;
  long counter = 0;
  for (int t = 1; t <= threads; ++t) {
    vrt::Spawn([&, t] {
      for (int i = 0; i < rounds; ++i) {
        vrt::Event("\"e\":\"c\",\"t\":" + S(t));
        auto cs = [&] {
          long v = counter;
          vrt::Event("\"e\":\"acq\",\"t\":" + S(t) + ",\"v\":" + S(v));
          vrt::Yield();
          counter = v + 1;
          vrt::Event("\"e\":\"rel\",\"t\":" + S(t));
        };
        if (guard) {
          SpinLockGuard g{m};
          cs();
        } else {
          m.lock();
          cs();
          m.unlock();
        }
        vrt::Event("\"e\":\"u\",\"t\":" + S(t));
      }
    });
  }
  vrt::JoinAll();
  m.lock();
  vrt::Event("\"e\":\"c\",\"t\":0");
  vrt::Event("\"e\":\"acq\",\"t\":0,\"v\":" + S(counter));
  vrt::Event("\"e\":\"rel\",\"t\":0");
  m.unlock();
  vrt::Event("\"e\":\"u\",\"t\":0");
  vrt::Event("\"e\":\"end\"");
}

// ---- metrics tracker
// script letters: d drop 1, D drop 3, t take, b take and give back, s sent 2, f flush, q query
struct Obs final : MetricsObserver {
  void OnSpansSent(int n) noexcept override { vrt::Event("\"e\":\"obs\",\"k\":\"sent\",\"n\":" + S(n) + ",\"t\":" + S(vrt::Self())); }
  void OnSpansDropped(int n) noexcept override { vrt::Event("\"e\":\"obs\",\"k\":\"dropped\",\"n\":" + S(n) + ",\"t\":" + S(vrt::Self())); }
  void OnFlush() noexcept override { vrt::Event("\"e\":\"obs\",\"k\":\"flush\",\"n\":0,\"t\":" + S(vrt::Self())); }
};
static void Metrics(const std::vector<std::string>& scripts) {
  Obs obs;
  {
    MetricsTracker m{obs};
    auto run = [&](int t, const std::string& sc) {
      for (char k : sc) {
        auto call = [&](const char* op, long n) { vrt::Event(std::string("\"e\":\"c\",\"op\":\"") + op + "\",\"n\":" + S(n) + ",\"t\":" + S(t)); };
        auto ret = [&](long v) { vrt::Event("\"e\":\"r\",\"v\":" + S(v) + ",\"t\":" + S(t)); };
        if (k == 'd' || k == 'D') { int n = k == 'd' ? 1 : 3; call("drop", n); m.OnSpansDropped(n); ret(0); }
        else if (k == 't' || k == 'b') {
          call("take", 0);
          auto v = m.ConsumeDroppedSpans();
          ret(static_cast<long>(v));
          if (k == 'b') { call("give", v); m.UnconsumeDroppedSpans(v); ret(0); }
        } else if (k == 's') { call("sent", 2); m.OnSpansSent(2); ret(0); }
        else if (k == 'f') { call("flush", 0); m.OnFlush(); ret(0); }
        else if (k == 'q') { call("query", 0); auto v = m.num_dropped_spans(); ret(static_cast<long>(v)); }
      }
    };
    for (size_t t = 1; t <= scripts.size(); ++t) {
      std::string sc = scripts[t - 1];
      vrt::Spawn([&, t, sc] { run(static_cast<int>(t), sc); });
    }
    vrt::JoinAll();
    run(0, "qtq");
  }
  vrt::Event("\"e\":\"end\"");
}

int main(int argc, char** argv) {
  if (argc < 9) return 2;
  std::string what = argv[1];
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  o.spurious_cas = getenv("VRT_SPURIOUS") != nullptr;
  weak = getenv("VRT_STALE") != nullptr;
  std::vector<std::string> p(argv + 9, argv + argc);
  if (what == "buffer") {
    BufArgs a{atoi(p[0].c_str()), atoi(p[1].c_str()), atoi(p[2].c_str()), p[3], atoi(p[4].c_str()), atoi(p[5].c_str())};
    vrt::Explore(o, [&] { Buffer(a); });
  } else if (what == "slots") {
    int n = atoi(p[0].c_str());
    std::vector<std::string> sc(p.begin() + 1, p.end());
    vrt::Explore(o, [&] { Slots(n, sc); });
  } else if (what == "lock") {
    int t = atoi(p[0].c_str()), r = atoi(p[1].c_str()), g = atoi(p[2].c_str());
    vrt::Explore(o, [&] { Lock(t, r, g); });
  } else if (what == "metrics") {
    vrt::Explore(o, [&] { Metrics(p); });
  }
  return 0;
}
