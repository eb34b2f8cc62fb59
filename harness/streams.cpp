// Driver for C05, C06, C07: executes stream operations and records one trace event per operation.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/socket.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <unistd.h>

#include "common/chained_stream.h"
#include "common/composable_fragment_input_stream.h"
#include "common/fragment_array_input_stream.h"
#include "common/fragment_input_stream.h"
#include "network/vector_write.h"
#ifdef WITH_SPANS
#include <malloc.h>
#include "recorder/metrics_tracker.h"
#include "recorder/stream_recorder/span_stream.h"
#endif
#ifdef WITH_REPORT
#include "recorder/serialization/report_request.h"
#endif
using namespace lightstep;

static const int kFd = 777777;
static const size_t kTotal = 1 << 22;
static std::vector<unsigned char> S;  // the byte at position p
static std::map<const char*, std::pair<long, long>> regions;  // address -> (position, length)

static void Forget(const char* p, long n) {
  auto it = regions.lower_bound(p);
  while (it != regions.end() && it->first < p + n) it = regions.erase(it);
  it = regions.lower_bound(p);
  if (it != regions.begin()) {
    --it;
    if (it->first + it->second.second > p) it->second.second = p - it->first;
  }
}
static void Remember(const char* p, long n, long pos) {
  if (n == 0) return;
  Forget(p, n);
  regions[p] = {pos, n};
}
// Appends the runs (position,length) of n bytes at p; -1 for bytes nobody wrote there.
static void Locate(const char* p, long n, std::vector<std::pair<long, long>>& out) {
  if (n <= 0) {
    out.push_back({n < 0 ? -3 : 0, n});
    return;
  }
  std::vector<std::pair<long, long>> r;
  while (n > 0) {
    auto it = regions.upper_bound(p);
    if (it == regions.begin()) { r.push_back({-1, n}); break; }
    --it;
    long o = p - it->first;
    if (o >= it->second.second) { r.push_back({-1, n}); break; }
    long k = std::min(n, it->second.second - o);
    long pos = it->second.first + o;
    if (memcmp(p, &S[pos], k) != 0) { r.push_back({-2, k}); }
    else if (!r.empty() && r.back().first + r.back().second == pos) r.back().second += k;
    else r.push_back({pos, k});
    p += k;
    n -= k;
  }
  // a fragment is one entry if contiguous, else flagged
  if (r.size() == 1) out.push_back(r[0]);
  else { long t = 0; for (auto& x : r) t += x.second; out.push_back({-4, t}); }
}

static long sent = 0;
#ifdef WITH_SPANS
// number of ChainedStream objects alive
static long live = 0;
void* operator new(size_t n) {
  void* p = malloc(n);
  if (p == nullptr) abort();
  if (n == sizeof(ChainedStream)) ++live;
  return p;
}
void operator delete(void* p) noexcept {
  if (p != nullptr && malloc_usable_size(p) == sizeof(ChainedStream)) --live;
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct SpanPart : MetricsObserver {
  CircularBuffer<ChainedStream> buffer;
  MetricsTracker metrics;
  SpanStream* stream{nullptr};
  std::vector<std::string> due;   // spans a producer adds while the consumer is in OnSpansSent
  std::string name;
  explicit SpanPart(size_t cap) : buffer{cap}, metrics{*this} {}
  void OnSpansSent(int n) noexcept override;
  void Add(const std::string& o);
  std::vector<std::string> log;
};
#else
struct SpanPart {};
#endif

struct Item {
  std::shared_ptr<SpanPart> sp;
  std::unique_ptr<FragmentInputStream> holder;
  FragmentInputStream* s{nullptr};
  ChainedStream* ch{nullptr};
  std::vector<std::unique_ptr<char[]>> mem;
  long base{0}, w{0};
  char* last{nullptr};
};
static std::map<std::string, Item> items;
static long next_base = 1000;

// kernel script
static std::vector<long> script;  // >=0: accept at most that many bytes, <0: -errno
static size_t script_pos;
static std::vector<std::string> calls;

static long Kernel(const iovec* iov, int cnt) {
  std::vector<std::pair<long, long>> runs;
  long total = 0;
  for (int i = 0; i < cnt; ++i) {
    if (iov[i].iov_len) Locate(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len, runs);
    total += iov[i].iov_len;
  }
  long r = script_pos < script.size() ? script[script_pos] : (script.empty() ? total : total);
  ++script_pos;
  if (cnt > 1024) r = -EINVAL;
  long res = r < 0 ? r : std::min(r, total);
  std::ostringstream o;
  // merge contiguous runs to keep events small
  std::vector<std::pair<long, long>> m;
  for (auto& x : runs) {
    if (!m.empty() && m.back().first >= 0 && x.first >= 0 && m.back().first + m.back().second == x.first) m.back().second += x.second;
    else m.push_back(x);
  }
  o << "{\"n\":" << cnt << ",\"r\":" << res << ",\"iov\":[";
  for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << "[" << m[i].first << "," << m[i].second << "]";
  o << "]}";
  calls.push_back(o.str());
  if (calls.size() > 5000) { printf("ENDLESS\n"); fflush(stdout); _exit(77); }
  if (res < 0) { errno = static_cast<int>(-res); return -1; }
  return res;
}
typedef ssize_t (*writev_t)(int, const iovec*, int);
extern "C" ssize_t writev(int fd, const iovec* iov, int cnt) {
  if (fd == kFd) return Kernel(iov, cnt);
  static writev_t real = reinterpret_cast<writev_t>(dlsym(RTLD_NEXT, "writev"));
  return real(fd, iov, cnt);
}
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int) {
  if (fd == kFd) return Kernel(m->msg_iov, static_cast<int>(m->msg_iovlen));
  errno = EBADF;
  return -1;
}
extern "C" ssize_t send(int fd, const void* p, size_t n, int) {
  iovec v{const_cast<void*>(p), n};
  if (fd == kFd) return Kernel(&v, 1);
  errno = EBADF;
  return -1;
}

#ifdef WITH_SPANS
void SpanPart::Add(const std::string& o) {
  auto& it = items[o];
  std::unique_ptr<ChainedStream> u{it.ch};
  it.holder.release();
  it.s = it.ch = nullptr;
  bool r = buffer.Add(u);
  char b[200];
  snprintf(b, sizeof b, "{\"e\":\"SA\",\"s\":\"%s\",\"o\":\"%s\",\"r\":%d}", name.c_str(), o.c_str(), r && u == nullptr);
  log.push_back(b);
}
void SpanPart::OnSpansSent(int n) noexcept {
  sent += n;
  auto d = due;
  due.clear();
  for (auto& o : d) Add(o);
}
static void Flush(SpanPart& p) {
  for (auto& x : p.log) printf("%s\n", x.c_str());
  p.log.clear();
}
#endif

static void PrintRuns(std::vector<std::pair<long, long>>& runs, bool merge) {
  std::vector<std::pair<long, long>> m;
  for (auto& x : runs) {
    if (merge && !m.empty() && m.back().first >= 0 && x.first >= 0 && x.second > 0 && m.back().first + m.back().second == x.first)
      m.back().second += x.second;
    else if (x.second != 0 || !merge) m.push_back(x);
  }
  printf("[");
  for (size_t i = 0; i < m.size(); ++i) printf("%s[%ld,%ld]", i ? "," : "", m[i].first, m[i].second);
  printf("]");
}

#ifdef WITH_REPORT
struct ReportItem {
  std::shared_ptr<const std::string> header;
  long base;
  std::unique_ptr<ReportRequest> report;
};
static std::map<std::string, ReportItem> reports;
typedef std::vector<std::pair<const char*, size_t>> Frags;
struct Visit { Frags frags; long k; };
static bool OnFragment(void* context, const void* data, size_t n) {
  auto& v = *static_cast<Visit*>(context);
  v.frags.push_back({static_cast<const char*>(data), n});
  return static_cast<long>(v.frags.size()) != v.k;
}
// Names the bytes of a report: the header by its value, what is known by its place, the rest is
// decoded as a part of a report with metrics.
static void PrintReport(const ReportItem& it, const Frags& frags) {
  std::string all, unknown;
  std::vector<std::pair<long, long>> runs;
  for (auto& f : frags) all.append(f.first, f.second);
  size_t h = 0;
  while (h < all.size() && h < it.header->size() && all[h] == (*it.header)[h]) ++h;
  if (h) runs.push_back({it.base, static_cast<long>(h)});
  size_t skip = h;
  for (auto& f : frags) {
    auto p = f.first;
    auto n = f.second;
    auto d = std::min(skip, n);
    skip -= d;
    p += d;
    n -= d;
    if (n == 0) continue;
    std::vector<std::pair<long, long>> r;
    Locate(p, static_cast<long>(n), r);
    if (r.size() == 1 && r[0].first == -1) unknown.append(p, n);
    runs.insert(runs.end(), r.begin(), r.end());
  }
  std::vector<std::pair<long, long>> m;   // unknown runs are merged too
  for (auto& x : runs)
    if (!m.empty() && m.back().first == -1 && x.first == -1) m.back().second += x.second;
    else m.push_back(x);
  PrintRuns(m, true);
  printf(",\"m\":[");
  lightstep::collector::ReportRequest rr;
  if (!unknown.empty()) {
    bool ok = rr.ParseFromString(unknown);
    bool first = true;
    if (ok && rr.has_internal_metrics() && !rr.has_reporter() && !rr.has_auth() && rr.spans_size() == 0) {
      for (auto& x : rr.internal_metrics().counts()) {
        printf("%s[\"%s\",%lld]", first ? "" : ",", x.name().c_str(), static_cast<long long>(x.int_value()));
        first = false;
      }
      if (rr.internal_metrics().gauges_size() || rr.internal_metrics().logs_size()) printf("%s[\"more\",0]", first ? "" : ",");
    } else {
      printf("[\"undecodable\",%d]", ok);
    }
  }
  printf("]");
}
static void PrintCounts(const ReportRequest& r) {
  printf("\"nf\":%ld,\"nb\":%ld,\"ns\":%d,\"nd\":%d", static_cast<long>(r.num_fragments()), static_cast<long>(r.num_bytes()), r.num_spans(),
         r.num_dropped_spans());
}
#endif

static bool CallWrite(std::vector<FragmentInputStream*>& v) {
  switch (v.size()) {
    case 1: return Write(kFd, {v[0]});
    case 2: return Write(kFd, {v[0], v[1]});
    case 3: return Write(kFd, {v[0], v[1], v[2]});
    default: return Write(kFd, {v[0], v[1], v[2], v[3]});
  }
}
static bool CallConsume(std::vector<FragmentInputStream*>& v, int n) {
  switch (v.size()) {
    case 1: return Consume({v[0]}, n);
    case 2: return Consume({v[0], v[1]}, n);
    case 3: return Consume({v[0], v[1], v[2]}, n);
    default: return Consume({v[0], v[1], v[2], v[3]}, n);
  }
}

int main() {
  S.resize(kTotal);
  unsigned x = 12345;
  for (auto& b : S) { x = x * 1664525u + 1013904223u; b = static_cast<unsigned char>(x >> 24); }
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, name;
    in >> op;
    if (op == "T") {  // new trace
      for (auto& x : items) x.second.holder.reset();
      items.clear();
#ifdef WITH_REPORT
      reports.clear();
#endif
      regions.clear();
      next_base = 1000;
      printf("T\n");
    } else if (op == "A") {
      in >> name;
      auto& it = items[name];
      auto arr = new FragmentArrayInputStream{};
      it.holder.reset(arr);
      it.s = arr;
      it.base = next_base;
      long n;
      while (in >> n) {
        it.mem.emplace_back(new char[n + 1]);
        char* p = it.mem.back().get();
        memcpy(p, &S[it.base + it.w], n);
        Remember(p, n, it.base + it.w);
        arr->Add(Fragment{p, static_cast<int>(n)});
        it.w += n;
      }
      next_base += it.w + 16;
      printf("{\"e\":\"A\",\"s\":\"%s\",\"p\":%ld,\"n\":%ld}\n", name.c_str(), it.base, it.w);
    } else if (op == "C") {
      in >> name;
      auto& it = items[name];
      // dirty memory first so that uninitialised fields show
      { std::vector<std::unique_ptr<char[]>> junk; for (int i = 0; i < 4; ++i) { junk.emplace_back(new char[sizeof(ChainedStream)]); memset(junk.back().get(), i & 1 ? 0 : 0x11, sizeof(ChainedStream)); } }
      auto ch = new ChainedStream{};
      it.holder.reset(ch);
      it.s = it.ch = ch;
      it.base = next_base;
      next_base += 20000;
      printf("{\"e\":\"C\",\"s\":\"%s\"}\n", name.c_str());
    } else if (op == "N") {
      in >> name;
      auto& it = items[name];
      void* p = nullptr;
      int n = -7;
      bool ok = it.ch->Next(&p, &n);
      if (ok && n > 0) {
        memcpy(p, &S[it.base + it.w], n);
        Remember(static_cast<char*>(p), n, it.base + it.w);
      }
      it.last = static_cast<char*>(p) + n;
      printf("{\"e\":\"N\",\"s\":\"%s\",\"ok\":%d,\"p\":%ld,\"n\":%d,\"bc\":%ld}\n", name.c_str(), ok, it.base + it.w, n,
             static_cast<long>(it.ch->ByteCount()));
      it.w += n;
    } else if (op == "B") {
      int n;
      in >> name >> n;
      auto& it = items[name];
      it.ch->BackUp(n);
      it.w -= n;
      if (n > 0) { Forget(it.last - n, n); memset(it.last - n, 0x5c, n); }
      printf("{\"e\":\"B\",\"s\":\"%s\",\"n\":%d,\"bc\":%ld}\n", name.c_str(), n, static_cast<long>(it.ch->ByteCount()));
    } else if (op == "X") {
      in >> name;
      items[name].ch->CloseOutput();
      printf("{\"e\":\"X\",\"s\":\"%s\",\"bc\":%ld}\n", name.c_str(), static_cast<long>(items[name].ch->ByteCount()));
    } else if (op == "P") {
      std::string other;
      in >> name >> other;
      auto& o = items[other];
      std::unique_ptr<ComposableFragmentInputStream> u{static_cast<ComposableFragmentInputStream*>(o.ch)};
      o.holder.release();
      items[name].ch->Append(std::move(u));
      o.s = nullptr;
      printf("{\"e\":\"P\",\"s\":\"%s\",\"o\":\"%s\"}\n", name.c_str(), other.c_str());
    } else if (op == "R") {
      int k;
      in >> name >> k;
      auto s = items[name].s;
      std::vector<std::pair<long, long>> runs;
      int visited = 0;
      auto cb = [&](void* d, int n) {
        Locate(static_cast<char*>(d), n, runs);
        ++visited;
        return visited != k;
      };
      int nf = s->num_fragments();
      bool r = s->ForEachFragment(cb);
      printf("{\"e\":\"R\",\"s\":\"%s\",\"k\":%d,\"nf\":%d,\"v\":%d,\"r\":%d,\"em\":%d,\"f\":", name.c_str(), k, nf, visited, r, s->empty());
      PrintRuns(runs, true);
      printf("}\n");
    } else if (op == "K" || op == "W") {
      int n = 0;
      if (op == "K") in >> n;
      else {
        int cnt;
        in >> cnt;
        script.clear();
        for (int i = 0; i < cnt; ++i) { long v; in >> v; script.push_back(v); }
        script_pos = 0;
        calls.clear();
      }
      std::vector<FragmentInputStream*> v;
      std::string names;
      sent = 0;
      while (in >> name) {
        v.push_back(items[name].s);
        names += (names.empty() ? "\"" : ",\"") + name + "\"";
      }
      if (op == "K") {
        bool r = CallConsume(v, n);
        printf("{\"e\":\"K\",\"n\":%d,\"ss\":[%s],\"r\":%d,\"sent\":%ld}\n", n, names.c_str(), r, sent);
      } else {
        int r;
        try { r = CallWrite(v) ? 1 : 0; } catch (const std::exception&) { r = -1; }
        printf("{\"e\":\"W\",\"ss\":[%s],\"r\":%d,\"sent\":%ld,\"c\":[", names.c_str(), r, sent);
        for (size_t i = 0; i < calls.size(); ++i) printf("%s%s", i ? "," : "", calls[i].c_str());
        printf("]}\n");
      }
#ifdef WITH_SPANS
      for (auto& x : items)
        if (x.second.sp) {
          auto d = x.second.sp->due;   // the observer was not told of anything: add now
          x.second.sp->due.clear();
          for (auto& o : d) x.second.sp->Add(o);
          Flush(*x.second.sp);
        }
    } else if (op == "SB") {
      size_t cap;
      in >> name >> cap;
      auto& it = items[name];
      it.sp.reset(new SpanPart{cap});
      it.sp->name = name;
      it.sp->stream = new SpanStream{it.sp->buffer, it.sp->metrics};
      it.holder.reset(it.sp->stream);
      it.s = it.sp->stream;
      printf("{\"e\":\"SB\",\"s\":\"%s\"}\n", name.c_str());
    } else if (op == "SA" || op == "SO") {
      std::string o;
      in >> name >> o;
      auto& p = *items[name].sp;
      if (op == "SO") p.due.push_back(o);
      else { p.Add(o); Flush(p); }
    } else if (op == "ST") {
      in >> name;
      items[name].sp->stream->Allot();
      printf("{\"e\":\"ST\",\"s\":\"%s\"}\n", name.c_str());
    } else if (op == "SR") {
      std::string o;
      in >> name >> o;
      auto u = items[name].sp->stream->ConsumeRemnant();
      printf("{\"e\":\"SR\",\"s\":\"%s\",\"o\":\"%s\",\"r\":%d}\n", name.c_str(), o.c_str(), u != nullptr);
      if (u != nullptr) {
        auto& it = items[o];
        it.ch = u.release();
        it.s = it.ch;
        it.holder.reset(it.ch);
      }
    } else if (op == "RX" || op == "SX") {  // read / destroy if it exists
      in >> name;
      auto f = items.find(name);
      if (f != items.end() && f->second.s != nullptr) {
        if (op == "SX") {
          f->second.s = f->second.ch = nullptr;
          f->second.holder.reset();
          printf("{\"e\":\"SD\",\"s\":\"%s\"}\n", name.c_str());
        } else {
          std::vector<std::pair<long, long>> runs;
          int visited = 0;
          auto cb = [&](void* d, int n) { Locate(static_cast<char*>(d), n, runs); ++visited; return true; };
          int nf = f->second.s->num_fragments();
          bool r = f->second.s->ForEachFragment(cb);
          printf("{\"e\":\"R\",\"s\":\"%s\",\"k\":0,\"nf\":%d,\"v\":%d,\"r\":%d,\"em\":%d,\"f\":", name.c_str(), nf, visited, r, f->second.s->empty());
          PrintRuns(runs, true);
          printf("}\n");
        }
      }
    } else if (op == "SZ") {
      in >> name;
      auto& p = *items[name].sp;
      printf("{\"e\":\"SZ\",\"s\":\"%s\",\"n\":%ld,\"p\":%ld,\"c\":%ld,\"live\":%ld}\n", name.c_str(), static_cast<long>(p.buffer.size()),
             static_cast<long>(p.buffer.production_count()), static_cast<long>(p.buffer.consumption_count()), live);
#endif
#ifdef WITH_REPORT
    } else if (op == "QN") {
      long n;
      int d;
      in >> name >> n >> d;
      auto& q = reports[name];
      q.base = next_base;
      next_base += n + 16;
      q.header = std::make_shared<std::string>(reinterpret_cast<char*>(&S[q.base]), n);
      q.report.reset(new ReportRequest{q.header, d});
      printf("{\"e\":\"QN\",\"q\":\"%s\",\"p\":%ld,\"n\":%ld,\"d\":%d,", name.c_str(), q.base, n, d);
      PrintCounts(*q.report);
      printf("}\n");
    } else if (op == "QA") {
      std::string o;
      in >> name >> o;
      auto& it = items[o];
      it.holder.release();
      std::unique_ptr<ChainedStream> u{it.ch};
      reports[name].report->AddSpan(std::move(u));
      it.s = it.ch = nullptr;
      printf("{\"e\":\"QA\",\"q\":\"%s\",\"s\":\"%s\",", name.c_str(), o.c_str());
      PrintCounts(*reports[name].report);
      printf("}\n");
    } else if (op == "QR" || op == "QC") {
      long k = 0;
      in >> name >> k;
      auto& q = reports[name];
      const ReportRequest& r = *q.report;
      Visit v;
      v.k = op == "QR" ? k : 0;
      bool done = static_cast<const BufferChain&>(r).ForEachFragment(OnFragment, &v);
      int same = 1;
      if (op == "QC") {   // copy into a buffer k bytes longer than needed
        std::string all;
        for (auto& f : v.frags) all.append(f.first, f.second);
        std::vector<char> out(r.num_bytes() + k + 1, 0x3c);
        r.CopyOut(out.data(), r.num_bytes() + k);
        same = r.num_bytes() >= all.size() && memcmp(out.data(), all.data(), all.size()) == 0;
        for (size_t i = all.size(); i < out.size(); ++i) same = same && out[i] == 0x3c;
      }
      printf("{\"e\":\"%s\",\"q\":\"%s\",\"k\":%ld,\"v\":%ld,\"r\":%d,\"same\":%d,", op.c_str(), name.c_str(), v.k, static_cast<long>(v.frags.size()),
             done, same);
      PrintCounts(r);
      printf(",\"f\":");
      PrintReport(q, v.frags);
      printf("}\n");
    } else if (op == "QD") {
      in >> name;
      reports.erase(name);
      printf("{\"e\":\"QD\",\"q\":\"%s\"}\n", name.c_str());
#endif
    } else if (op == "L") {
      in >> name;
      items[name].s->Clear();
      printf("{\"e\":\"L\",\"s\":\"%s\"}\n", name.c_str());
    }
    fflush(stdout);
  }
  printf("END\n");
  return 0;
}
