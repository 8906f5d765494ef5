// Factorization, irreducibility, divisors, orders, generators, logarithms and
// lists over Z, F2[x], Fp[x] and F_{2^n}[x] (C09, C10, C11, C16).
#include "calls.h"
#include "ring.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/list/list_elements.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace spffl::factorization;
using namespace spffl::units;
using namespace spffl::list;

template <> struct Tr<int> {
  using Ctx = int;
  static Ctx ctx(const J &) { return 0; }
  static int make(const J &v, const Ctx &) { return (int)v.n; }
  static J dump(int a, const Ctx &) { return J(a); }
};

static sp_list_type_t lt(const std::string &t) {
  return t == "all" ? SP_LIST_ALL : t == "units" ? SP_LIST_UNITS : t == "nonunits" ? SP_LIST_NON_UNITS
       : t == "multiples" ? SP_LIST_MULTIPLES : SP_LIST_REL_PRIME;
}

template <class P> struct Fin {
  using C = typename Tr<P>::Ctx;
  C c;
  J list(tvector<P> v) {
    J r = J::arr();
    for (int i = 0; i < v.get_num_elements(); i++) r.push(Tr<P>::dump(v[i], c));
    return r;
  }
  template <class M, class F> J mlist(tvector<M> v, F f) {
    J r = J::arr();
    for (int i = 0; i < v.get_num_elements(); i++) r.push(f(v[i]));
    return r;
  }
  template <class M, class F> J mat(tmatrix<M> v, F f) {
    J r = J::arr();
    for (int i = 0; i < v.get_num_rows(); i++) {
      J row = J::arr();
      for (int j = 0; j < v.get_num_cols(); j++) row.push(f(v[i][j]));
      r.push(row);
    }
    return r;
  }
  J info(const tfacinfo<P> &f) {
    J r = J::obj();
    P u;
    bool h = f.get_unit(u);
    r.set("hu", h ? 1 : 0);
    r.set("u", h ? Tr<P>::dump(u, c) : J(0));
    J fs = J::arr();
    for (int i = 0; i < f.get_num_distinct(); i++) {
      J p = J::arr();
      p.push(Tr<P>::dump(f.get_ith_factor(i), c));
      p.push(f.get_ith_count(i));
      fs.push(p);
    }
    r.set("fs", fs);
    return r;
  }
  // operations on a factorization; true if handled
  bool common(const std::string &op, J &ev, const tfacinfo<P> &f, const P &one) {
    if (op == "factor") ev.set("r", info(f));
    else if (op == "ndivs") ev.set("r", f.get_num_divisors());
    else if (op == "divs") ev.set("r", list(f.get_all_divisors(one)));
    else if (op == "mpds") {
      tvector<P> v;
      bool got = f.get_maximal_proper_divisors(v, one);
      ev.set("got", got ? 1 : 0);
      ev.set("r", got ? list(v) : J::arr());
    } else return false;
    return true;
  }
  static bool fop(const std::string &op) { return op == "factor" || op == "ndivs" || op == "divs" || op == "mpds"; }
};

static void bad(const std::string &op) { throw std::runtime_error("driver: op " + op); }

static void run_z(const J &s) {
  Fin<int> F{0};
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    if (Fin<int>::fop(op)) { F.common(op, ev, int_factor((int)e.i("a")), 1); return; }
    int m = e.has("m") ? (int)e.i("m") : 0;
    auto res = [&](const intmod_t &x) { return Tr<intmod_t>::dump(x, m); };
    if (op == "order") ev.set("r", fp_order(intmod_t((int)e.i("a"), m)));
    else if (op == "gen") {
      intmod_t g;
      bool got = fp_find_generator(m, g);
      ev.set("got", got ? 1 : 0);
      ev.set("r", got ? res(g) : J(0));
    } else if (op == "log") ev.set("r", fp_log(intmod_t((int)e.i("g"), m), intmod_t((int)e.i("a"), m)));
    else if (op == "mlist") ev.set("r", F.mlist(intmod_list(m, lt(e["t"].s)), res));
    else if (op == "glist") ev.set("r", F.mlist(intmod_glist(intmod_t((int)e.i("a"), m), lt(e["t"].s)), res));
    else bad(op);
  });
}

static void run_f2(const J &s) {
  using P = f2_poly_t;
  Fin<P> F{0};
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    auto el = [&](const char *k) { return Tr<P>::make(e[k], 0); };
    auto put = [&](const P &p) { ev.set("r", Tr<P>::dump(p, 0)); };
    auto rem = [&](const f2_polymod_t &x) { return Tr<P>::dump(x.get_residue(), 0); };
    int n = e.has("n") ? (int)e.i("n") : 0;
    if (Fin<P>::fop(op)) F.common(op, ev, f2_poly_factor(el("a")), P(1));
    else if (op == "irred") ev.set("r", f2_poly_is_irreducible(el("a")) ? 1 : 0);
    else if (op == "findirr") put(f2_poly_find_irreducible(n));
    else if (op == "randirr") put(f2_poly_random_irreducible(n));
    else if (op == "totient") ev.set("r", f2_poly_totient(el("a")));
    else if (op == "order") ev.set("r", f2_polymod_order(f2_polymod_t(el("a"), el("m"))));
    else if (op == "gen") {
      f2_polymod_t g;
      bool got = f2_polymod_find_generator(el("m"), g);
      ev.set("got", got ? 1 : 0);
      ev.set("r", got ? rem(g) : J::arr());
    } else if (op == "log") ev.set("r", f2_polymod_log(f2_polymod_t(el("g"), el("m")), f2_polymod_t(el("a"), el("m"))));
    else if (op == "period") ev.set("r", f2_poly_period(el("m")));
    else if (op == "prim") ev.set("r", f2_poly_is_primitive(el("m")) ? 1 : 0);
    else if (op == "findprim") put(f2_poly_find_prim(n, (int)e.i("irr")));
    else if (op == "randprim") put(f2_poly_random_prim(n, (int)e.i("irr")));
    else if (op == "plist") ev.set("r", F.list(f2_poly_list(n)));
    else if (op == "mlist") ev.set("r", F.mlist(f2_polymod_list(el("m"), lt(e["t"].s)), rem));
    else if (op == "glist") ev.set("r", F.mlist(f2_polymod_glist(f2_polymod_t(el("a"), el("m")), lt(e["t"].s)), rem));
    else if (op == "An") ev.set("r", F.mat(f2_polymod_An_list(el("m"), n), rem));
    else if (op == "Pn") ev.set("r", F.mat(f2_polymod_Pn_list(el("m"), n), rem));
    else bad(op);
  });
}

static void run_fp(const J &s) {
  using P = fp_poly_t;
  int p = Tr<P>::ctx(s["ring"]);
  Fin<P> F{p};
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    auto el = [&](const char *k) { return Tr<P>::make(e[k], p); };
    auto put = [&](const P &f) { ev.set("r", Tr<P>::dump(f, p)); };
    auto rem = [&](const fp_polymod_t &x) { return Tr<P>::dump(x.get_residue(), p); };
    int n = e.has("n") ? (int)e.i("n") : 0;
    if (Fin<P>::fop(op)) F.common(op, ev, fp_poly_factor(el("a")), P(intmod_t(1, p)));
    else if (op == "irred") ev.set("r", fp_poly_is_irreducible(el("a")) ? 1 : 0);
    else if (op == "findirr") put(fp_poly_find_irr(p, n));
    else if (op == "randirr") put(fp_poly_random_irr(p, n));
    else if (op == "totient") ev.set("r", fp_poly_totient(el("a")));
    else if (op == "plist") ev.set("r", F.list(fp_poly_list(p, n)));
    else if (op == "mlist") ev.set("r", F.mlist(fp_polymod_list(el("m"), lt(e["t"].s)), rem));
    else if (op == "An") ev.set("r", F.mat(fp_polymod_An_list(el("m"), n), rem));
    else if (op == "Pn") ev.set("r", F.mat(fp_polymod_Pn_list(el("m"), n), rem));
    else bad(op);
  });
}

static void run_f2n(const J &s) {
  using P = f2n_poly_t;
  auto c = Tr<P>::ctx(s["ring"]);
  Fin<P> F{c};
  f2_poly_t im = c.m;
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    auto el = [&](const char *k) { return Tr<P>::make(e[k], c); };
    auto put = [&](const P &f) { ev.set("r", Tr<P>::dump(f, c)); };
    auto rem = [&](const f2n_polymod_t &x) { return Tr<P>::dump(x.get_residue(), c); };
    int n = e.has("n") ? (int)e.i("n") : 0;
    if (Fin<P>::fop(op)) F.common(op, ev, f2n_poly_factor(el("a")), P(f2_polymod_t(f2_poly_t(1), im)));
    else if (op == "irred") ev.set("r", f2n_poly_is_irreducible(el("a")) ? 1 : 0);
    else if (op == "findirr") put(f2n_poly_find_irr(im, n));
    else if (op == "randirr") put(f2n_poly_random_irr(im, n));
    else if (op == "roots") {
      tvector<f2_polymod_t> v;
      bool got = f2n_poly_roots(el("a"), v);
      ev.set("got", got ? 1 : 0);
      J r = J::arr();
      if (got) for (int i = 0; i < v.get_num_elements(); i++) r.push(Tr<f2_polymod_t>::dump(v[i], c));
      ev.set("r", r);
    } else if (op == "totient") ev.set("r", f2n_poly_totient(el("a")));
    else if (op == "order") ev.set("r", f2n_polymod_order(f2n_polymod_t(el("a"), el("m"))));
    else if (op == "gen") {
      f2n_polymod_t g;
      bool got = f2n_polymod_find_generator(el("m"), g);
      ev.set("got", got ? 1 : 0);
      ev.set("r", got ? rem(g) : J::arr());
    } else if (op == "log") ev.set("r", f2n_polymod_log(f2n_polymod_t(el("g"), el("m")), f2n_polymod_t(el("a"), el("m"))));
    else if (op == "plist") ev.set("r", F.list(f2n_poly_list(im, n)));
    else if (op == "mlist") ev.set("r", F.mlist(f2n_polymod_list(el("m"), lt(e["t"].s)), rem));
    else bad(op);
  });
}

static void run(const J &s) {
  const J &r = s["ring"];
  std::string k = r["k"].s;
  if (k == "z") run_z(s);
  else if (k == "f2p") run_f2(s);
  else if (k == "poly" && r["c"]["k"].s == "zm") run_fp(s);
  else run_f2n(s);
}
static Reg r("fin", run);
