// tfacinfo under histories of calls (C10, C20).
#include "common.h"
#include "ring.h"
#include "spffl/containers/tfacinfo.h"
#include <memory>

namespace {
template <class P> struct El {
  using C = typename Tr<P>::Ctx;
  static C ctx(const J &r) { return Tr<P>::ctx(r); }
  static P make(const J &v, const C &c) { return Tr<P>::make(v, c); }
  static J dump(const P &p, const C &c) { return Tr<P>::dump(p, c); }
  static P one(const C &c);
};
template <> f2_poly_t El<f2_poly_t>::one(const C &) { return f2_poly_t(1); }
template <> fp_poly_t El<fp_poly_t>::one(const C &c) { return fp_poly_t(intmod_t(1, c)); }
template <> f2n_poly_t El<f2n_poly_t>::one(const C &c) { return f2n_poly_t(f2_polymod_t(f2_poly_t(1), c.m)); }
template <> struct El<int> {
  using C = int;
  static C ctx(const J &) { return 0; }
  static int make(const J &v, C) { return (int)v.n; }
  static J dump(int p, C) { return J(p); }
  static int one(C) { return 1; }
};

template <class P> void run(const J &s) {
  using E = El<P>;
  auto c = E::ctx(s["ring"]);
  P one = E::one(c);
  std::vector<std::unique_ptr<tfacinfo<P>>> regs;
  for (int i = 0; i < s.i("n"); i++) regs.emplace_back(new tfacinfo<P>());
  auto shown = [&]() {
    J o = J::arr();
    for (auto &f : regs) {
      J r = J::obj();
      P u;
      bool h = f->get_unit(u);
      r.set("hu", h ? 1 : 0);
      r.set("u", h ? E::dump(u, c) : J(0));
      J fs = J::arr();
      for (int i = 0; i < f->get_num_distinct(); i++) {
        J p = J::arr();
        p.push(E::dump(f->get_ith_factor(i), c));
        p.push(f->get_ith_count(i));
        fs.push(p);
      }
      r.set("fs", fs);
      r.set("nd", f->get_num_distinct());
      r.set("nf", f->get_num_factors());
      o.push(r);
    }
    return o;
  };
  auto list = [&](tvector<P> v) {
    J r = J::arr();
    for (int i = 0; i < v.get_num_elements(); i++) r.push(E::dump(v[i], c));
    return r;
  };
  J ini = J::obj();
  ini.set("op", "init"); ini.set("n", s["n"]); ini.set("x", 0); ini.set("i", 0); ini.set("j", 0); ini.set("o", shown());
  emit(ini);
  for (const J &e : s["ops"].a) {
    J ev = e;
    int x = 0;
    std::string op = e["op"].s;
    auto &b = regs[e.i("i")];
    auto &d = regs[e.i("j")];
    try {
      if (op == "clear") b.reset(new tfacinfo<P>());
      else if (op == "unit") b->insert_unit(E::make(e["f"], c));
      else if (op == "factor") b->insert_factor(E::make(e["f"], c), (int)e.i("c"));
      else if (op == "factor1") b->insert_factor(E::make(e["f"], c));
      else if (op == "merge") b->merge(*d);
      else if (op == "expall") b->exp_all((int)e.i("c"));
      else if (op == "copy") b.reset(new tfacinfo<P>(*d));
      else if (op == "assign") *b = *d;
      else if (op == "unfactor") ev.set("r", E::dump(b->unfactor(one), c));
      else if (op == "ndivs") ev.set("r", b->get_num_divisors());
      else if (op == "divs") ev.set("r", list(b->get_all_divisors(one)));
      else if (op == "mpds") {
        tvector<P> v;
        bool got = b->get_maximal_proper_divisors(v, one);
        ev.set("got", got ? 1 : 0);
        ev.set("r", got ? list(v) : J::arr());
      } else if (op == "ith") {
        J r = J::arr();
        r.push(E::dump(b->get_ith_factor((int)e.i("c")), c));
        r.push(b->get_ith_count((int)e.i("c")));
        ev.set("r", r);
      } else if (op == "str") {
        std::ostringstream os;
        os << *b;
        J r = J::arr();
        for (unsigned char ch : os.str()) r.push((int)ch);
        ev.set("r", r);
      } else throw std::runtime_error("driver: op " + op);
    } catch (const spffl::exception_t &) { x = 1; }
    ev.set("x", x);
    ev.set("o", shown());
    emit(ev);
  }
}
void go(const J &s) {
  std::string k = s["ring"]["k"].s;
  if (k == "z") run<int>(s);
  else if (k == "f2p") run<f2_poly_t>(s);
  else if (s["ring"]["c"]["k"].s == "zm") run<fp_poly_t>(s);
  else run<f2n_poly_t>(s);
}
Reg r("bag", go);
} // namespace
