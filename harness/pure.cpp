// Driver for C22, C30, C31, C32, C33, C37: calls a function, records arguments and results.
// 64-bit numbers are written as four 16-bit limbs, lowest first; strings as byte lists.
#include <arpa/inet.h>
#include <dlfcn.h>
#include <time.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "common/direct_coded_output_stream.h"
#include "common/flat_map.h"
#include "common/protobuf.h"
#include "common/random_traverser.h"
#include "common/report_request_framing.h"
#include "common/serialization.h"
#include "common/timestamp.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "network/ip_address.h"
#include "recorder/stream_recorder/utility.h"
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
using namespace lightstep;

// ---- scripted clocks
static bool clock_scripted = false;
static int64_t clk_steady, clk_system, clk_step, clk_elapsed;
typedef int (*clock_gettime_t)(clockid_t, struct timespec*);
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  static clock_gettime_t real = reinterpret_cast<clock_gettime_t>(dlsym(RTLD_NEXT, "clock_gettime"));
  if (!clock_scripted) return real(id, ts);
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? clk_system : clk_steady;
  int64_t s = v / 1000000000, n = v % 1000000000;
  if (n < 0) { n += 1000000000; --s; }
  ts->tv_sec = s;
  ts->tv_nsec = n;
  clk_system += clk_step;
  clk_steady += clk_step;
  clk_elapsed += clk_step;
  return 0;
}

static std::string Limbs(uint64_t x) {
  char b[80];
  snprintf(b, sizeof b, "[%u,%u,%u,%u]", unsigned(x & 0xffff), unsigned((x >> 16) & 0xffff), unsigned((x >> 32) & 0xffff), unsigned(x >> 48));
  return b;
}
static std::string Bytes(const void* p, size_t n) {
  std::string r = "[";
  for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string(static_cast<const unsigned char*>(p)[i]);
  return r + "]";
}
static std::string Bytes(const std::string& s) { return Bytes(s.data(), s.size()); }
static std::string Unhex(const std::string& h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return r;
}

// Runs an encoder over a guarded buffer; prints what it wrote.
template <class F>
static void Encoded(const std::string& head, size_t max, F f) {
  std::vector<unsigned char> a(max + 64, 0xA5), b(max + 64, 0x5A);
  size_t n1, n2;
  { DirectCodedOutputStream s{a.data() + 32}; f(s); n1 = s.data() - (a.data() + 32); }
  { DirectCodedOutputStream s{b.data() + 32}; f(s); n2 = s.data() - (b.data() + 32); }
  bool guard = n1 == n2 && n1 <= max;
  for (int i = 0; i < 32; ++i) guard = guard && a[i] == 0xA5 && b[i] == 0x5A;
  for (size_t i = 32 + n1; guard && i < a.size(); ++i) guard = guard && a[i] == 0xA5 && b[i] == 0x5A;
  bool same = n1 == n2 && memcmp(&a[32], &b[32], n1) == 0;
  printf("{%s,\"g\":%d,\"b\":%s}\n", head.c_str(), guard && same, n1 <= max ? Bytes(&a[32], n1).c_str() : "[]");
}

template <size_t F>
static void Field(uint64_t x, const std::string& raw) {
  auto h = [&](const char* k, size_t size) {
    return std::string("\"e\":\"") + k + "\",\"f\":" + std::to_string(F) + ",\"x\":" + Limbs(x) + ",\"s\":" + std::to_string(size) + ",\"raw\":" + Bytes(raw);
  };
  Encoded(h("fv", ComputeVarintSerializationSize<F>(static_cast<uint64_t>(x))), 32, [&](DirectCodedOutputStream& s) { WriteVarint<F>(s, static_cast<uint64_t>(x)); });
  Encoded(h("fb", ComputeVarintSerializationSize<F>(static_cast<uint64_t>(x))), 32, [&](DirectCodedOutputStream& s) { WriteBigVarint<F>(s, x); });
  if (x <= 0xffffffffull) {
    Encoded(h("fv", ComputeVarintSerializationSize<F>(static_cast<uint32_t>(x))), 32, [&](DirectCodedOutputStream& s) { WriteVarint<F>(s, static_cast<uint32_t>(x)); });
    Encoded(h("fk", ComputeLengthDelimitedHeaderSerializationSize<F>(static_cast<size_t>(x))), 32, [&](DirectCodedOutputStream& s) { WriteKeyLength<F>(s, static_cast<size_t>(x)); });
  }
  Encoded(h("ff", StaticKeySerializationSize<F, WireType::Fixed64>::value + 8), 32, [&](DirectCodedOutputStream& s) { WriteFixed64<F>(s, &x); });
  Encoded(h("fs", ComputeLengthDelimitedSerializationSize<F>(raw.size())), raw.size() + 32, [&](DirectCodedOutputStream& s) {
    WriteKeyLength<F>(s, raw.size());
    s.WriteRaw(raw.data(), raw.size());
  });
}

static IpAddress MakeAddr(std::istringstream& in) {
  std::string how, bits;
  int port, pad;
  in >> how >> bits >> port >> pad;
  std::string b = Unhex(bits);
  if (how == "a4") { in_addr a; memcpy(&a, b.data(), 4); IpAddress r{a}; r.set_port(port); return r; }
  if (how == "a6") { in6_addr a; memcpy(&a, b.data(), 16); IpAddress r{a}; r.set_port(port); return r; }
  if (how == "s4") {
    sockaddr_in a;
    memset(&a, pad, sizeof a);
    a.sin_family = AF_INET;
    memcpy(&a.sin_addr, b.data(), 4);
    a.sin_port = htons(port);
    return IpAddress{reinterpret_cast<sockaddr&>(a)};
  }
  sockaddr_in6 a;
  memset(&a, 0, sizeof a);
  a.sin6_family = AF_INET6;
  memcpy(&a.sin6_addr, b.data(), 16);
  a.sin6_port = htons(port);
  return IpAddress{reinterpret_cast<sockaddr&>(a)};
}
static std::string Addr(const IpAddress& a) {
  std::string s = "{\"fam\":";
  if (a.family() == AF_INET)
    s += "4,\"b\":" + Bytes(&a.ipv4_address().sin_addr, 4) + ",\"port\":" + std::to_string(ntohs(a.ipv4_address().sin_port));
  else if (a.family() == AF_INET6)
    s += "6,\"b\":" + Bytes(&a.ipv6_address().sin6_addr, 16) + ",\"port\":" + std::to_string(ntohs(a.ipv6_address().sin6_port));
  else s += "0,\"b\":[],\"port\":0";
  return s + "}";
}

static FlatMap<std::string, std::string>* smap = new FlatMap<std::string, std::string>;
static FlatMap<int, std::string, std::greater<int>>* gmap = new FlatMap<int, std::string, std::greater<int>>;
static std::map<int, RandomTraverser*> travs;

template <class M>
static void Dump(const char* which, const M& m, std::function<std::string(const decltype(m.begin()->first)&)> k) {
  printf("{\"e\":\"it\",\"m\":\"%s\",\"em\":%d,\"v\":[", which, m.empty());
  int i = 0;
  for (auto& x : m) printf("%s[%s,\"%s\"]", i++ ? "," : "", k(x.first).c_str(), x.second.c_str());
  printf("],\"n\":%d}\n", static_cast<int>(m.as_vector().size()));
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "T") {
      for (auto& t : travs) delete t.second;
      travs.clear();
      delete smap; delete gmap;
      smap = new FlatMap<std::string, std::string>;
      gmap = new FlatMap<int, std::string, std::greater<int>>;
      printf("T\n");
    // ---- C32
    } else if (op == "vb" || op == "v64" || op == "v32" || op == "tag") {
      uint64_t x;
      in >> x;
      Encoded("\"e\":\"" + op + "\",\"x\":" + Limbs(x), 32, [&](DirectCodedOutputStream& s) {
        if (op == "vb") s.WriteBigVarint64(x);
        else if (op == "v64") s.WriteVarint64(x);
        else if (op == "v32") s.WriteVarint32(static_cast<uint32_t>(x));
        else s.WriteTag(static_cast<uint32_t>(x));
      });
    } else if (op == "raw") {
      std::string h;
      in >> h;
      h = Unhex(h);
      Encoded("\"e\":\"raw\",\"raw\":" + Bytes(h), h.size(), [&](DirectCodedOutputStream& s) { s.WriteRaw(h.data(), h.size()); });
    } else if (op == "fld") {
      uint64_t x;
      std::string h;
      in >> x >> h;
      h = Unhex(h);
      Field<1>(x, h); Field<3>(x, h); Field<15>(x, h); Field<16>(x, h); Field<2047>(x, h); Field<2048>(x, h); Field<(1 << 29) - 1>(x, h);
    } else if (op == "hdr") {
      uint32_t x;
      in >> x;
      std::vector<char> b(ReportRequestSpansMaxHeaderSize + 9, 0x5a);
      size_t size = ReportRequestSpansMaxHeaderSize + (x % 3);
      size_t n = WriteReportRequestSpansHeader(b.data() + 4, size, x);
      bool g = n <= size;
      for (int i = 0; i < 4; ++i) g = g && b[i] == 0x5a;
      for (size_t i = 4 + size; i < b.size(); ++i) g = g && b[i] == 0x5a;
      printf("{\"e\":\"hdr\",\"x\":%s,\"g\":%d,\"f\":%d,\"b\":%s}\n", Limbs(x).c_str(), g, static_cast<int>(ReportRequestSpansField),
             Bytes(b.data() + 4 + size - (n <= size ? n : 0), n <= size ? n : 0).c_str());
    } else if (op == "emb") {  // field, key-value content
      uint32_t f;
      std::string k, v;
      int how;
      in >> f >> how >> k >> v;
      collector::KeyValue m;
      m.set_key(Unhex(k));
      if (v != "-") m.set_string_value(Unhex(v));
      std::string inner = m.SerializeAsString(), out;
      size_t s1 = ComputeEmbeddedMessageSerializationSize(f, m), s2 = ComputeEmbeddedMessageSerializationSize(f, inner.size());
      {
        google::protobuf::io::StringOutputStream zs{&out};
        google::protobuf::io::CodedOutputStream cs{&zs};
        if (how == 0) WriteEmbeddedMessage(cs, f, m);
        else { size_t n = m.ByteSizeLong(); WriteEmbeddedMessage(cs, f, n, m); }
      }
      printf("{\"e\":\"emb\",\"f\":%s,\"s1\":%zu,\"s2\":%zu,\"raw\":%s,\"b\":%s}\n", Limbs(f).c_str(), s1, s2, Bytes(inner).c_str(), Bytes(out).c_str());
    } else if (op == "esz") {
      uint32_t f;
      uint64_t n;
      in >> f >> n;
      printf("{\"e\":\"esz\",\"f\":%s,\"x\":%s,\"r\":%s}\n", Limbs(f).c_str(), Limbs(n).c_str(), Limbs(ComputeEmbeddedMessageSerializationSize(f, static_cast<size_t>(n))).c_str());
    } else if (op == "big") {  // a message too big to print: what surrounds its content
      uint32_t f;
      size_t n;
      in >> f >> n;
      collector::KeyValue m;
      m.set_key(std::string(n, 'k'));
      std::string inner = m.SerializeAsString(), out;
      size_t s1 = ComputeEmbeddedMessageSerializationSize(f, m);
      {
        google::protobuf::io::StringOutputStream zs{&out};
        google::protobuf::io::CodedOutputStream cs{&zs};
        WriteEmbeddedMessage(cs, f, m);
      }
      size_t h = out.size() > inner.size() ? out.size() - inner.size() : 0;
      printf("{\"e\":\"big\",\"f\":%s,\"s\":%zu,\"n\":%s,\"len\":%zu,\"b\":%s,\"same\":%d}\n", Limbs(f).c_str(), s1, Limbs(inner.size()).c_str(), out.size(),
             Bytes(out.substr(0, std::min<size_t>(h, 40))).c_str(), out.substr(h) == inner);
    } else if (op == "lsz") {
      uint64_t n;
      in >> n;
      printf("{\"e\":\"lsz\",\"f\":3,\"x\":%s,\"r\":%s,\"h\":%s}\n", Limbs(n).c_str(), Limbs(ComputeLengthDelimitedSerializationSize<3>(n)).c_str(),
             Limbs(ComputeLengthDelimitedHeaderSerializationSize<3>(n)).c_str());
      printf("{\"e\":\"lsz\",\"f\":16,\"x\":%s,\"r\":%s,\"h\":%s}\n", Limbs(n).c_str(), Limbs(ComputeLengthDelimitedSerializationSize<16>(n)).c_str(),
             Limbs(ComputeLengthDelimitedHeaderSerializationSize<16>(n)).c_str());
    } else if (op == "ws") {  // block size, bytes written before, string
      int block, before;
      std::string h;
      in >> block >> before >> h;
      h = Unhex(h);
      std::string b(4096, 0), d(h.size() + 32, 0);
      size_t n;
      {
        google::protobuf::io::ArrayOutputStream zs{&b[0], 4096, block};
        google::protobuf::io::CodedOutputStream cs{&zs};
        for (int i = 0; i < before; ++i) cs.WriteVarint32(7);
        WriteString<5>(cs, h);
        n = cs.ByteCount();
      }
      DirectCodedOutputStream ds{reinterpret_cast<google::protobuf::uint8*>(&d[0])};
      WriteString<5>(ds, h);
      size_t dn = ds.data() - reinterpret_cast<google::protobuf::uint8*>(&d[0]);
      printf("{\"e\":\"ws\",\"f\":5,\"raw\":%s,\"b\":%s,\"d\":%s,\"s\":%zu}\n", Bytes(h).c_str(), Bytes(b.substr(before, n - before)).c_str(), Bytes(d.substr(0, dn)).c_str(),
             ComputeLengthDelimitedSerializationSize<5>(h.size()));
    } else if (op == "ts") {
      uint64_t sec;
      uint32_t nano;
      int block;
      in >> block >> sec >> nano;
      std::string b(4096, 0), d(64, 0);
      size_t n, s0 = ComputeTimestampSerializationSize(sec, nano);
      {
        google::protobuf::io::ArrayOutputStream zs{&b[0], 4096, block};
        google::protobuf::io::CodedOutputStream cs{&zs};
        WriteTimestamp<6>(cs, s0, sec, nano);
        n = cs.ByteCount();
      }
      DirectCodedOutputStream ds{reinterpret_cast<google::protobuf::uint8*>(&d[0])};
      WriteTimestamp<6>(ds, s0, sec, nano);
      size_t dn = ds.data() - reinterpret_cast<google::protobuf::uint8*>(&d[0]);
      printf("{\"e\":\"ts\",\"f\":6,\"x\":%s,\"y\":%s,\"b\":%s,\"d\":%s,\"s\":%zu}\n", Limbs(sec).c_str(), Limbs(nano).c_str(), Bytes(b.substr(0, n)).c_str(),
             Bytes(d.substr(0, dn)).c_str(), s0);
    // ---- C33
    } else if (op == "sys" || op == "std") {
      int64_t d, t;
      in >> d >> t;
      using sys = std::chrono::system_clock;
      using std_ = std::chrono::steady_clock;
      int64_t r, back;
      if (op == "sys") {
        auto x = ToSystemTimestamp(d, std_::time_point{std::chrono::nanoseconds{t}});
        r = std::chrono::nanoseconds{x.time_since_epoch()}.count();
        back = std::chrono::nanoseconds{ToSteadyTimestamp(d, x).time_since_epoch()}.count();
      } else {
        auto x = ToSteadyTimestamp(d, sys::time_point{std::chrono::nanoseconds{t}});
        r = std::chrono::nanoseconds{x.time_since_epoch()}.count();
        back = std::chrono::nanoseconds{ToSystemTimestamp(d, x).time_since_epoch()}.count();
      }
      printf("{\"e\":\"%s\",\"d\":%s,\"x\":%s,\"r\":%s,\"k\":%s}\n", op.c_str(), Limbs(d).c_str(), Limbs(t).c_str(), Limbs(r).c_str(), Limbs(back).c_str());
    } else if (op == "delta") {
      int64_t st, sy, step;
      in >> st >> sy >> step;
      clk_steady = st; clk_system = sy; clk_step = step; clk_elapsed = 0;
      clock_scripted = true;
      int64_t d = ComputeSystemSteadyTimestampDelta();
      clock_scripted = false;
      printf("{\"e\":\"delta\",\"o\":%s,\"d\":%s,\"el\":%ld}\n", Limbs(static_cast<uint64_t>(sy) - static_cast<uint64_t>(st)).c_str(), Limbs(d).c_str(), static_cast<long>(clk_elapsed));
    // ---- C37
    } else if (op == "ptn") {
      std::string h;
      int port;
      in >> h >> port;
      std::string s = Unhex(h);
      try {
        IpAddress a = port < 0 ? IpAddress{s.c_str()} : IpAddress{s.c_str(), static_cast<uint16_t>(port)};
        std::string txt = ToString(a);
        std::ostringstream oss;
        oss << a;
        bool eq = false;
        try { IpAddress b{txt.c_str()}; b.set_port(port < 0 ? 0 : port); eq = a == b && !(a != b); } catch (const std::exception&) {}
        printf("{\"e\":\"ptn\",\"t\":%s,\"ok\":1,\"a\":%s,\"port\":%d,\"txt\":%s,\"rt\":%d}\n", Bytes(s).c_str(), Addr(a).c_str(), port < 0 ? 0 : port, Bytes(txt).c_str(), eq && oss.str() == txt);
      } catch (const std::exception&) {
        printf("{\"e\":\"ptn\",\"t\":%s,\"ok\":0,\"port\":%d}\n", Bytes(s).c_str(), port);
      }
    } else if (op == "eq") {
      IpAddress a = MakeAddr(in), b = MakeAddr(in);
      IpAddress c{a}, d;
      d = b;
      std::string txt = ToString(a);
      printf("{\"e\":\"eq\",\"a\":%s,\"b\":%s,\"r\":%d,\"ne\":%d,\"sw\":%d,\"cp\":%d,\"txt\":%s}\n", Addr(a).c_str(), Addr(b).c_str(), a == b, a != b, b == a, c == d, Bytes(txt).c_str());
    } else if (op == "mk") {
      std::streampos p = in.tellg();
      IpAddress a = MakeAddr(in);
      in.clear();
      in.seekg(p);
      std::string how, bits;
      int port;
      in >> how >> bits >> port;
      printf("{\"e\":\"mk\",\"fam\":%c,\"bits\":%s,\"port\":%d,\"a\":%s,\"saf\":%d}\n", how[1], Bytes(Unhex(bits)).c_str(), port, Addr(a).c_str(), a.addr().sa_family == AF_INET ? 4 : a.addr().sa_family == AF_INET6 ? 6 : 0);
    // ---- C22
    } else if (op == "sep") {
      std::vector<std::pair<std::string, uint16_t>> v;
      std::string h;
      unsigned port;
      while (in >> h >> port) v.emplace_back(Unhex(h), static_cast<uint16_t>(port));
      auto r = SeparateEndpoints(v);
      std::string o = "{\"e\":\"sep\",\"in\":[";
      for (size_t i = 0; i < v.size(); ++i) o += (i ? ",[" : "[") + Bytes(v[i].first) + "," + std::to_string(v[i].second) + "]";
      o += "],\"h\":[";
      for (size_t i = 0; i < r.first.size(); ++i) o += (i ? "," : "") + Bytes(std::string{r.first[i]});
      o += "],\"out\":[";
      for (size_t i = 0; i < r.second.size(); ++i) o += (i ? ",[" : "[") + std::to_string(r.second[i].first) + "," + std::to_string(r.second[i].second) + "]";
      puts((o + "]}").c_str());
    // ---- C31
    } else if (op == "ins") {
      std::string m, k, v;
      in >> m >> k >> v;
      if (k == "-") k = "";
      if (m == "s") {
        auto it = smap->insert_or_assign(std::string{k}, std::string{v});
        long pos = it - smap->begin();
        bool ok = it != smap->end();
        printf("{\"e\":\"ins\",\"m\":\"s\",\"k\":\"%s\",\"v\":\"%s\",\"pos\":%ld,\"at\":[\"%s\",\"%s\"]}\n", k.c_str(), v.c_str(), pos, ok ? it->first.c_str() : "?", ok ? it->second.c_str() : "?");
        Dump("s", *smap, [](const std::string& s) { return "\"" + s + "\""; });
      } else {
        auto it = gmap->insert_or_assign(std::stoi(k), std::string{v});
        long pos = it - gmap->begin();
        bool ok = it != gmap->end();
        printf("{\"e\":\"ins\",\"m\":\"g\",\"k\":%s,\"v\":\"%s\",\"pos\":%ld,\"at\":[%d,\"%s\"]}\n", k.c_str(), v.c_str(), pos, ok ? it->first : -1, ok ? it->second.c_str() : "?");
        Dump("g", *gmap, [](const int& s) { return std::to_string(s); });
      }
    } else if (op == "fnd") {
      std::string m, k;
      in >> m >> k;
      if (k == "-") k = "";
      if (m == "s") {
        auto it = smap->find(k);
        auto it2 = smap->find(k.c_str());
        bool hit = it != smap->end();
        printf("{\"e\":\"fnd\",\"m\":\"s\",\"k\":\"%s\",\"hit\":%d,\"same\":%d,\"pos\":%ld,\"v\":\"%s\"}\n", k.c_str(), hit, it == it2, hit ? static_cast<long>(it - smap->begin()) : -1L, hit ? it->second.c_str() : "");
      } else {
        auto it = gmap->find(std::stoi(k));
        bool hit = it != gmap->end();
        printf("{\"e\":\"fnd\",\"m\":\"g\",\"k\":%s,\"hit\":%d,\"same\":1,\"pos\":%ld,\"v\":\"%s\"}\n", k.c_str(), hit, hit ? static_cast<long>(it - gmap->begin()) : -1L, hit ? it->second.c_str() : "");
      }
    // ---- C30
    } else if (op == "tn") {
      int id, n;
      in >> id >> n;
      travs[id] = new RandomTraverser{n};
      printf("{\"e\":\"tn\",\"id\":\"t%d\",\"n\":%d}\n", id, n);
    } else if (op == "tf") {  // id, size, number of fresh traversers each traversed once
      int id, n, reps;
      in >> id >> n >> reps;
      printf("{\"e\":\"tn\",\"id\":\"t%d\",\"n\":%d}\n", id, n);
      while (reps-- > 0) {
        delete travs[id];
        travs[id] = new RandomTraverser{n};
        std::string o = "[";
        bool r = travs[id]->ForEachIndex([&](int i) { o += (o.size() > 1 ? "," : "") + std::to_string(i); return true; });
        printf("{\"e\":\"tr\",\"id\":\"t%d\",\"k\":0,\"r\":%d,\"v\":%s]}\n", id, r, o.c_str());
      }
    } else if (op == "tr") {  // id, stop at the k-th visit (0: never), repetitions
      int id, k, reps;
      in >> id >> k >> reps;
      while (reps-- > 0) {
        std::vector<int> seen;
        bool r = travs[id]->ForEachIndex([&](int i) { seen.push_back(i); return static_cast<int>(seen.size()) != k; });
        std::string o = "[";
        for (size_t i = 0; i < seen.size(); ++i) o += (i ? "," : "") + std::to_string(seen[i]);
        printf("{\"e\":\"tr\",\"id\":\"t%d\",\"k\":%d,\"r\":%d,\"v\":%s]}\n", id, k, r, o.c_str());
      }
    } else if (op == "tall") {
      int id;
      in >> id;
      printf("{\"e\":\"tall\",\"id\":\"t%d\"}\n", id);
    }
  }
  printf("END\n");
  return 0;
}
