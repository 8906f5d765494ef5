// The calculators, called in-process with their standard output captured.
#pragma once
#include "ring.h"
#include "spffl/cli_parser/cmd_line_matrix_ops.h"
#include "spffl/cli_parser/cmd_line_ops.h"
#include "spffl/cli_parser/cmd_line_vector_ops.h"
#include <iostream>

template <> struct Tr<int> {
  using Ctx = int;
  static Ctx ctx(const J &) { return 0; }
  static int make(const J &v, const Ctx &) { return (int)v.n; }
  static J dump(const int &a, const Ctx &) { return J(a); }
};

// the text of 0 and 1 in each ring, as values
inline J ring_const(const J &r, int n) {
  const std::string k = r["k"].s;
  if (k == "z") return J(n);
  if (k == "zm") return J(n % (int)r.i("m"));
  J a = J::arr();
  if (k == "q") { a.push(n); a.push(1); return a; }
  if (k == "frac") { a.push(ring_const(r["c"], n)); a.push(ring_const(r["c"], 1)); return a; }
  if (k == "f2p") { if (n) a.push(0); return a; }
  if (k == "poly") { if (n) a.push(ring_const(r["c"], 1)); return a; }
  return ring_const(r["c"], n);  // quot
}

template <class T, bool VEC, bool MAT> void run_calc(const J &sess) {
  auto c = Tr<T>::ctx(sess["ring"]);
  T zero = Tr<T>::make(ring_const(sess["ring"], 0), c);
  T one  = Tr<T>::make(ring_const(sess["ring"], 1), c);
  const std::string mode = sess["mode"].s;
  for (const J &e : sess["ops"].a) {
    J ev = e;
    std::vector<std::string> words;
    for (auto &t : e["v"].a) words.push_back(unchars(t));
    std::vector<char *> argv;
    for (auto &w : words) argv.push_back(w.data());
    argv.push_back(nullptr);
    int argc = (int)words.size(), x = 0;
    std::ostringstream cap;
    auto *old = std::cout.rdbuf(cap.rdbuf());
    try {
      if (mode == "el") {
        spffl::cli_parser::cmd_line_parse<T>(argc, argv.data(), zero, one);
      } else if (mode == "vec") {
        if constexpr (VEC) spffl::cli_parser::cmd_line_vec_parse<T>(argc, argv.data(), zero, one);
      } else {
        if constexpr (MAT) spffl::cli_parser::cmd_line_mat_parse<T>(argc, argv.data(), zero, one);
      }
    } catch (const spffl::exception_t &) {
      x = 1;
    }
    std::cout.rdbuf(old);
    ev.set("x", x);
    ev.set("r", chars(cap.str()));
    emit(ev);
  }
}
