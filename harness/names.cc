// Kept outside the instrumentation: names for identifiers (in the order in which they turn up) and kept strings.
#include "names.h"
#include <cinttypes>
#include <cstdio>
#include <map>
#include <set>
static std::map<uint64_t, std::string> names;
static int next_name = 0;
static std::set<std::string> kept;
void NamesReset() { names.clear(); next_name = 0; }
void NameGiven(uint64_t x) { char b[17]; snprintf(b, sizeof b, "%016" PRIx64, x); names.emplace(x, b); }
std::string NameOf(uint64_t x) {
  if (x == 0) return "0000000000000000";
  auto i = names.find(x);
  if (i == names.end()) i = names.emplace(x, "#" + std::to_string(++next_name)).first;
  return i->second;
}
const char* Keep_(const std::string& s) { return kept.insert(s).first->c_str(); }
