// Session loop shared by the conformance drivers.  Reads one JSON session per
// line, runs its ops against the real library, and appends one line
// "<session> <event-json>" per op to the output file, flushed, so that a crash
// loses nothing.
#pragma once
#include "json.h"
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

inline FILE *g_out = nullptr;
inline long long g_sid = 0;
inline std::map<std::string, std::function<void(const J &)>> &kinds() {
  static std::map<std::string, std::function<void(const J &)>> m;
  return m;
}
struct Reg {
  Reg(const std::string &k, std::function<void(const J &)> f) { kinds()[k] = f; }
};
// A call that uses this much processor time is a hang (independent of machine load).
inline int g_tmo = 0;
inline void rearm(int t) {
  struct itimerval v = {{0, 0}, {t, 0}};
  setitimer(ITIMER_PROF, &v, nullptr);
}
inline void emit(const J &ev) {
  if (g_tmo) rearm(g_tmo);
  std::string s = ev.str();
  fprintf(g_out, "%lld %s\n", g_sid, s.c_str());
  fflush(g_out);
}
inline void on_alarm(int) { _exit(99); }

inline int driver_main(int argc, char **argv) {
  // drv <sessions> <out> <skip> <timeout>
  if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
  std::ifstream in(argv[1]);
  g_out = fopen(argv[2], "a");
  long skip = atol(argv[3]);
  int tmo = atoi(argv[4]);
  signal(SIGPROF, on_alarm);
  std::string line;
  while (std::getline(in, line)) {
    if (skip-- > 0) continue;
    J s = jparse(line);
    g_sid = s.i("s");
    fprintf(g_out, "%lld BEGIN\n", g_sid);
    fflush(g_out);
    auto it = kinds().find(s["k"].s);
    if (it == kinds().end()) { fprintf(stderr, "unknown kind %s\n", s["k"].s.c_str()); return 3; }
    g_tmo = tmo;
    rearm(tmo);
    it->second(s);
    rearm(0);
    g_tmo = 0;
    fprintf(g_out, "%lld END\n", g_sid);
    fflush(g_out);
  }
  return 0;
}
