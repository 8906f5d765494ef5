// Minimal and characteristic polynomials, companion matrices, isomorphisms of
// binary fields, vectors from base representations (C15).
#include "calls.h"
#include "ring.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include <iostream>
#include <sstream>
using namespace spffl::linalg;
static void bad(const std::string &op) { throw std::runtime_error("driver: op " + op); }

struct Hush { // the library talks to stdout; the protocol uses it
  std::ostringstream o;
  std::streambuf *b = std::cout.rdbuf(o.rdbuf());
  ~Hush() { std::cout.rdbuf(b); }
};
template <class T> struct El {
  typename Tr<T>::Ctx c;
  tvector<T> v(const J &j) const {
    tvector<T> r((int)j.a.size());
    for (size_t i = 0; i < j.a.size(); i++) r[(int)i] = Tr<T>::make(j.a[i], c);
    return r;
  }
  tmatrix<T> m(const J &j) const {
    if (j.a.empty()) return tmatrix<T>();
    tmatrix<T> r((int)j.a.size(), (int)j.a[0].a.size());
    for (size_t i = 0; i < j.a.size(); i++) r[(int)i] = v(j.a[i]);
    return r;
  }
  J d(const T &t) const { return Tr<T>::dump(t, c); }
  J dv(const tvector<T> &x) const {
    J r = J::arr();
    for (int i = 0; i < x.get_num_elements(); i++) r.push(d(x[i]));
    return r;
  }
  J dm(tmatrix<T> x) const {
    J r = J::arr();
    for (int i = 0; i < x.get_num_rows(); i++) r.push(dv(x[i]));
    return r;
  }
};
static f2_poly_t p2(const J &v) { return Tr<f2_poly_t>::make(v, 0); }
static J d2(const f2_poly_t &p) { return Tr<f2_poly_t>::dump(p, 0); }
static Tr<f2_polymod_t>::Ctx ctx2(const J &m) { J q = J::obj(), c = J::obj(); c.set("k", J("f2p")); q.set("k", J("quot")); q.set("c", c); q.set("m", m); return Tr<f2_polymod_t>::ctx(q); }

static void f2_ops(const std::string &op, const J &e, J &ev) {
  El<bit_t> E{2};
  if (op == "mchar") { auto A = E.m(e["A"]); ev.set("r", d2(f2_char_poly(A))); }
  else if (op == "comp") ev.set("r", E.dm(f2_companion_matrix(p2(e["f"]))));
  else if (op == "vec") ev.set("r", E.dv(f2_vector_from_base_rep((int)e.i("n"), (int)e.i("len"))));
  else if (op == "matrep") ev.set("r", E.dm(f2_matrix_from_base_rep((int)e.i("n"), (int)e.i("rows"), (int)e.i("cols"))));
  else if (op == "el") {
    f2_polymod_t a(p2(e["a"]), p2(e["m"]));
    auto c = ctx2(e["m"]);
    ev.set("len", f2_polymod_frobenius_length(a));
    ev.set("min", d2(f2_polymod_minimal_polynomial(a)));
    ev.set("char", d2(f2_polymod_characteristic_polynomial(a)));
    ev.set("smin", Tr<f2n_poly_t>::dump(f2_polymod_min_poly(a), c));
    ev.set("schar", Tr<f2n_poly_t>::dump(f2_polymod_char_poly(a), c));
  } else if (op == "conv") {
    auto c1 = ctx2(e["m"]), c2 = ctx2(e["m2"]);
    El<f2_polymod_t> E1{c1}, E2{c2};
    f2_polymod_t g1(p2(e["g"]), p2(e["m"])), g2;
    bool got = f2_polymod_convert_prep(g1, p2(e["m2"]), g2);
    ev.set("got", got ? 1 : 0);
    if (!got) return;
    ev.set("g2", E2.d(g2));
    ev.set("t", E2.d(f2_polymod_convert_scalar(g1, g2, f2_polymod_t(f2_poly_t(1, 0), p2(e["m"])))));
    J img = J::arr();
    for (auto &a : e["as"].a) img.push(E2.d(f2_polymod_convert_scalar(g1, g2, Tr<f2_polymod_t>::make(a, c1))));
    ev.set("img", img);
    ev.set("pimg", Tr<f2n_poly_t>::dump(f2_polymod_convert_poly(g1, g2, Tr<f2n_poly_t>::make(e["p"], c1)), c2));
    ev.set("Aimg", E2.dm(f2_polymod_convert_matrix(g1, g2, E1.m(e["A"]))));
  } else bad(op);
}
static void fp_ops(int p, const std::string &op, const J &e, J &ev) {
  El<intmod_t> E{p};
  auto put = [&](const char *k, const fp_poly_t &f) { ev.set(k, Tr<fp_poly_t>::dump(f, p)); };
  auto el = [&](const char *k) { return Tr<fp_poly_t>::make(e[k], p); };
  if (op == "mchar") { auto A = E.m(e["A"]); put("r", fp_char_poly(A)); }
  else if (op == "comp") ev.set("r", E.dm(fp_companion_matrix(el("f"))));
  else if (op == "vec") ev.set("r", E.dv(fp_vector_from_base_rep((int)e.i("n"), p, (int)e.i("len"))));
  else if (op == "el") {
    fp_polymod_t a(el("a"), el("m"));
    ev.set("len", fp_polymod_frobenius_length(a));
    put("min", fp_polymod_minimal_polynomial(a));
    put("char", fp_polymod_characteristic_polynomial(a));
  } else bad(op);
}
static void f2n_ops(const J &ring, const std::string &op, const J &e, J &ev) {
  auto c = Tr<f2n_poly_t>::ctx(ring);
  El<f2_polymod_t> E{c};
  auto put = [&](const char *k, const f2n_poly_t &f) { ev.set(k, Tr<f2n_poly_t>::dump(f, c)); };
  auto el = [&](const char *k) { return Tr<f2n_poly_t>::make(e[k], c); };
  if (op == "mchar") { auto A = E.m(e["A"]); put("r", f2_polymod_characteristic_polynomial(A)); }
  else if (op == "comp") ev.set("r", E.dm(f2np_companion_matrix(el("f"))));
  else if (op == "vec") ev.set("r", E.dv(ft_vector_from_base_rep((int)e.i("n"), c.m, (int)e.i("len"))));
  else if (op == "el") {
    f2n_polymod_t a(el("a"), el("m"));
    ev.set("len", f2npm_froblen(a));
    put("min", f2npm_min_poly(a));
    put("char", f2npm_char_poly(a));
  } else if (op == "diag") {
    auto A = E.m(e["A"]);
    f2_poly_t ext;
    tvector<f2_polymod_t> evs;
    bool got = f2_polymod_matrix_is_diagonalizable(A, ext, evs);
    ev.set("got", got ? 1 : 0);
    ev.set("ext", d2(ext));
    El<f2_polymod_t> E2{ctx2(d2(ext))};
    ev.set("ev", E2.dv(evs));
  } else bad(op);
}
static void run(const J &s) {
  const J &r = s["ring"];
  std::string k = r["k"].s;
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    Hush h;
    if (k == "f2p") f2_ops(op, e, ev);
    else if (r["c"]["k"].s == "zm") fp_ops((int)r["c"].i("m"), op, e, ev);
    else f2n_ops(r, op, e, ev);
  });
}
static Reg reg("lp", run);
