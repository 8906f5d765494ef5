// Stacks, tokens and lines (C21); cyclotomic polynomials (C22).
#include "calls.h"
#include "ring.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include "spffl/containers/tstack.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include <memory>
using namespace spffl::base;
using namespace spffl::q_cyclotomic;

// ---- stacks of T; a value v stands for the element make(v)
template <class T> static void stack(const J &s, T (*make)(int), int (*val)(const T &)) {
  std::vector<std::unique_ptr<tstack<T>>> S;
  for (int i = 0; i < 3; i++) S.push_back(std::make_unique<tstack<T>>());
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    auto &d = S[e.i("d") - 1];
    auto &a = S[e.i("a") - 1];
    int v = (int)e.i("v"), n = (int)e.i("n");
    if (op == "push") { for (int i = 0; i < n; i++) d->push(make(v + i)); }
    else if (op == "pop") {
      J r = J::arr();
      for (int i = 0; i < n; i++) {
        T x = make(-7);
        bool b = d->pop(x);
        r.push(jlist({J(b ? 1 : 0), J(val(x))}));
      }
      ev.set("r", r);
    } else if (op == "copy") { auto t = std::make_unique<tstack<T>>(*a); S[e.i("d") - 1] = std::move(t); }
    else if (op == "asg") { tstack<T> &r = (*d = *a); ev.set("r", &r == d.get() ? 1 : 0); }
    else if (op == "new") d = std::make_unique<tstack<T>>();
    else throw std::runtime_error("driver: op " + op);
  });
}
static std::string text(const J &v) {
  std::string r;
  for (auto &c : v.a) r += (char)c.n;
  return r;
}
static J codes(const char *p) {
  J r = J::arr();
  for (; *p; p++) r.push((long long)(unsigned char)*p);
  return r;
}
static void run_stack(const J &s) {
  std::string t = s["t"].s;
  if (t == "int") stack<int>(s, [](int v) { return v; }, [](const int &x) { return x; });
  else if (t == "str")
    stack<std::string>(s, [](int v) { return "a string too long for small-string storage " + std::to_string(v); },
                       [](const std::string &x) { return std::stoi(x.substr(x.rfind(' '))); });
  else
    stack<fp_poly_t>(s, [](int v) { return fp_poly_t(intmod_t(1, 1000003), intmod_t(v, 1000003)); },
                     [](const fp_poly_t &x) { int r = x.get_coeff(0).get_residue(); return r > 500000 ? r - 1000003 : r; });
}
static void run_tok(const J &s) {
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    std::string line = text(e["line"]), seps = text(e["seps"]);
    std::vector<char> b(line.begin(), line.end());
    b.push_back(0);
    int max = (int)e.i("max");
    J r = J::arr();
    if (op == "tok") {
      std::vector<char *> argv(max + 1, nullptr);
      static char guard[] = "guard";
      argv[max] = guard;
      int n = tokenize(b.data(), seps.c_str(), argv.data(), max);
      for (int i = 0; i < n; i++) r.push(codes(argv[i]));
      ev.set("ok", argv[max] == guard ? 1 : 0);
    } else if (op == "count") { r = J(count_tokens(b.data(), seps.c_str())); ev.set("ok", codes(b.data()).a.size() == line.size() ? 1 : 0); }
    else if (op == "chomp") { chomp(b.data()); r = codes(b.data()); }
    else if (op == "white") r = J(is_whitespace_line(b.data()) ? 1 : 0);
    else throw std::runtime_error("driver: op " + op);
    ev.set("r", r);
  });
}
template <class T> static J put(const J &R, const T &x) { return Tr<T>::dump(x, Tr<T>::ctx(R)); }
static void run_cyc(const J &s) {
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    int n = (int)e.i("n");
    const J &R = e["ring"];          // the ring of the result
    std::string k = R["k"].s, ck = k == "poly" ? R["c"]["k"].s : "";
    if (op == "cyc") {
      if (k == "f2p") ev.set("r", put(R, get_cyclo_f2_poly(n)));
      else if (ck == "q") ev.set("r", put(R, get_cyclo_qpoly(n)));
      else if (ck == "zm") ev.set("r", put(R, get_cyclo_fp_poly(n, (int)R["c"].i("m"))));
      else if (R["c"]["c"]["k"].s == "f2p") ev.set("r", put(R, get_cyclo_f2n_poly(n, Tr<f2_poly_t>::make(R["c"]["m"], 0))));
      else ev.set("r", put(R, get_cyclo_fpn_poly(n, Tr<fp_poly_t>::make(R["c"]["m"], Tr<fp_poly_t>::ctx(R["c"]["c"])))));
    } else if (op == "conv") {
      q_poly_t q = Tr<q_poly_t>::make(e["v"], 0);
      if (k == "f2p") ev.set("r", put(R, f2_poly_from_q_poly(q)));
      else if (ck == "zm") ev.set("r", put(R, fp_poly_from_qpoly(q, (int)R["c"].i("m"))));
      else if (R["c"]["c"]["k"].s == "f2p") ev.set("r", put(R, f2n_poly_from_qpoly(q, Tr<f2_poly_t>::make(R["c"]["m"], 0))));
      else ev.set("r", put(R, fpn_poly_from_qpoly(q, Tr<fp_poly_t>::make(R["c"]["m"], Tr<fp_poly_t>::ctx(R["c"]["c"])))));
    } else if (op == "rat") {
      intrat_t q((int)e["v"].a[0].n, (int)e["v"].a[1].n);
      if (n == 0) ev.set("r", bit_from_rat(q).get_residue());
      else ev.set("r", intmod_from_rat(q, n).get_residue());
    } else throw std::runtime_error("driver: op " + op);
  });
}
static Reg r1("stack", run_stack), r2("tok", run_tok), r3("cyc", run_cyc);
