// Where harness events go: the scheduler's history, or one JSON line per event.
#pragma once
#include <cstdio>
#include <string>
#ifdef VERIF_SCHED
#include "vrt.h"
inline void Ev(const std::string& j) { vrt::Event(j); }
inline int Me() { return vrt::Self(); }
#else
inline void Ev(const std::string& j) {
  fputs(("{" + j + "}\n").c_str(), stdout);
  fflush(stdout);
}
inline int Me() { return 0; }
#endif
inline std::string S(long v) { return std::to_string(v); }
