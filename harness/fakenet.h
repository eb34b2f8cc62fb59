// Scripted sockets whose behaviour is a function of virtual time and of the bytes
// written, for drivers with threads.  Descriptors from 900000 on are the script's.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace fn {
// one string per socket in the order of creation: an outcome (c connecting, r refused, n none to be had,
// s not set up, d connected at once), then ".<ms><action>" relative to its creation: w takes everything, s takes
// nothing, p<n> takes n bytes more, b broken for writing, y a good reply, m a malformed one, e end, x error;
// ".<ms>A": a good reply and the end so long after the request has ended
void Begin(const std::vector<std::string>& scripts, const std::string& fallback);
void End();
extern std::function<int64_t()> ms;      // now
short Ready(int fd, short want);
int64_t NextChange();                    // ms, -1 none
std::string Sockets();                   // [[id, writable, readable], ...]
int Open();                              // how many
}  // namespace fn
