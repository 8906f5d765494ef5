// Sessions that are sequences of calls of free functions.
#pragma once
#include "common.h"
#include "spffl/base/spffl_exception.h"

inline void run_calls(const J &sess, const std::function<void(const std::string &, const J &, J &)> &h) {
  for (const J &e : sess["ops"].a) {
    J ev = e;
    int x = 0;
    try {
      h(e["op"].s, e, ev);
    } catch (const spffl::exception_t &) {
      x = 1;
    }
    ev.set("x", x);
    emit(ev);
  }
}
inline uint64_t ubits(const J &v) {
  uint64_t r = 0;
  for (auto &b : v.a) r |= (uint64_t)1 << b.n;
  return r;
}
inline J jlist(const std::vector<J> &v) {
  J r = J::arr();
  for (auto &x : v) r.push(x);
  return r;
}
