// Scheduler driver for C29: threads generating identifiers under explored interleavings.
#include <cstdlib>
#include <set>
#include <string>
#include <vector>
#include "common/random.h"
#include "vrt.h"
using namespace lightstep;
int main(int argc, char** argv) {
  vrt::Options o;
  o.strategy = argv[2];
  o.preemptions = atoi(argv[3]);
  o.max_executions = atol(argv[4]);
  o.seed = strtoull(argv[5], nullptr, 10);
  o.shard = atoi(argv[6]);
  o.shards = atoi(argv[7]);
  o.time_limit_s = atof(argv[8]);
  int threads = atoi(argv[9]), each = atoi(argv[10]);
  vrt::Explore(o, [=] {
    std::vector<std::vector<uint64_t>> got(threads + 1);
    for (int t = 1; t <= threads; ++t)
      vrt::Spawn([&, t] { for (int i = 0; i < each; ++i) { got[t].push_back(GenerateId()); vrt::Yield(); } });
    for (int i = 0; i < each; ++i) { got[0].push_back(GenerateId()); vrt::Yield(); }
    vrt::JoinAll();
    // identifiers are named by the order in which their values first appear
    std::set<uint64_t> seen;
    std::string dup;
    for (int t = 0; t <= threads; ++t) {
      int d = 0;
      for (auto x : got[t]) d += !seen.insert(x).second;
      dup += (t ? "," : "") + std::to_string(d);
    }
    vrt::Event("\"e\":\"ids\",\"dup\":[" + dup + "]");
  });
  (void)argc;
  return 0;
}
