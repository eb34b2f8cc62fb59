// A stand-in for c-ares on virtual time: channels, queries over sockets that the
// library opens and closes as it likes, answers that take further queries, retries,
// stray and broken packets; what a query meets is scripted.  It reports every step
// of the library, and misuse the real library would turn into undefined behaviour.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <utility>
#include <vector>

namespace fa {
struct Plan {
  bool now{false};      // answered inside ares_gethostbyname
  int tries{1};         // how often a query is sent before it times out
  int hops{0};          // answers that only lead to a further query (search domains)
  int status{0};
  bool null{false};     // success without any host entry
  int type{4};          // address type: 4, 6, 0 (something else)
  std::vector<int> addrs;
};
extern std::function<int64_t()> now;
extern std::function<void(const char*)> misuse;
extern std::deque<Plan> plans;  // one per ares_gethostbyname (default: no such name at once)
extern bool init_fails;         // the next ares_init_options fails
int Channels();                 // live channels
bool Pending(int k);            // query k has not ended
// an answer (to the present question of query k): 'a' answer, 't' truncated: ask over a stream, 's' stray packet on its socket,
// 'e' the socket breaks, 'f' the server fails (asked again at once), 'c' the stream of the query connects
void Arrive(int k, char kind);
short Ready(int fd, short want);
void Forget();
}  // namespace fa
