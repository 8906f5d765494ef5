// Register machine over one ring type.  The library's behaviour is observed
// only through its public API.
#pragma once
#include "common.h"
#include "spffl/base/spffl_exception.h"
#include "spffl/bits/bit_t.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
#include "spffl/polynomials/q_poly_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"

using spffl::bits::bit_t;
using spffl::intmath::intmod_t;
using spffl::intmath::intrat_t;
using namespace spffl::polynomials;
using namespace spffl::rationals;

// Tr<T>: Ctx = what a ring descriptor carries; make/dump convert values.
template <class T> struct Tr;

template <> struct Tr<intmod_t> {
  using Ctx = int;
  static Ctx ctx(const J &r) { return (int)r.i("m"); }
  static intmod_t make(const J &v, const Ctx &m) { return intmod_t((int)v.n, m); }
  static J dump(const intmod_t &a, const Ctx &m) {
    return a.get_modulus() == m ? J(a.get_residue()) : J(-7);
  }
};
template <> struct Tr<bit_t> {
  using Ctx = int;
  static Ctx ctx(const J &r) { return 2; }
  static bit_t make(const J &v, const Ctx &) { return bit_t((int)v.n); }
  static J dump(const bit_t &a, const Ctx &) { return J(a.get_residue()); }
};
template <> struct Tr<intrat_t> {
  using Ctx = int;
  static Ctx ctx(const J &) { return 0; }
  static intrat_t make(const J &v, const Ctx &) { return intrat_t((int)v.a[0].n, (int)v.a[1].n); }
  static J dump(const intrat_t &a, const Ctx &) {
    J r = J::arr();
    r.push(a.get_numerator()); r.push(a.get_denominator());
    return r;
  }
};
template <> struct Tr<f2_poly_t> {
  using Ctx = int;
  static Ctx ctx(const J &) { return 0; }
  static f2_poly_t make(const J &v, const Ctx &) {
    f2_poly_t r(0);
    for (auto &e : v.a) r.set_bit((int)e.n);
    return r;
  }
  static J dump(const f2_poly_t &a, const Ctx &) {
    J r = J::arr();
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) if (a.bit_at(i)) r.push(i);
    return r;
  }
};
// dense polynomial over S
template <class T, class S> struct TrPoly {
  using Ctx = typename Tr<S>::Ctx;
  static Ctx ctx(const J &r) { return Tr<S>::ctx(r["c"]); }
  static T make(const J &v, const Ctx &c) {
    J z = zero(c);
    T r(Tr<S>::make(v.a.empty() ? z : v.a[0], c));
    for (size_t i = 1; i < v.a.size(); i++) r.set_coeff((int)i, Tr<S>::make(v.a[i], c));
    return r;
  }
  static J dump(const T &a, const Ctx &c) {
    J r = J::arr();
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) r.push(Tr<S>::dump(a.get_coeff(i), c));
    if (d == 0 && r.a[0].str() == zero(c).str()) return J::arr();
    return r;
  }
  static J zero(const Ctx &) {
    if constexpr (std::is_same_v<S, intmod_t>) return J(0);
    else if constexpr (std::is_same_v<S, intrat_t>) { J r = J::arr(); r.push(0); r.push(1); return r; }
    else return J::arr();
  }
};

// residue class ring T of the polynomial ring P
template <class T, class P> struct TrQuot {
  struct Ctx { typename Tr<P>::Ctx c; P m; };
  static Ctx ctx(const J &r) {
    Ctx x; x.c = Tr<P>::ctx(r["c"]); x.m = Tr<P>::make(r["m"], x.c); return x;
  }
  static T make(const J &v, const Ctx &c) { return T(Tr<P>::make(v, c.c), c.m); }
  static J dump(const T &a, const Ctx &c) {
    if (!(a.get_modulus() == c.m)) { J r = J::arr(); r.push(-7); return r; }
    return Tr<P>::dump(a.get_residue(), c.c);
  }
};
template <> struct Tr<f2_polymod_t> : TrQuot<f2_polymod_t, f2_poly_t> {};
template <> struct Tr<fp_poly_t> : TrPoly<fp_poly_t, intmod_t> {};
template <> struct Tr<q_poly_t> : TrPoly<q_poly_t, intrat_t> {};
template <> struct Tr<fp_polymod_t> : TrQuot<fp_polymod_t, fp_poly_t> {};
template <> struct Tr<f2n_poly_t> : TrPoly<f2n_poly_t, f2_polymod_t> {};
template <> struct Tr<fpn_poly_t> : TrPoly<fpn_poly_t, fp_polymod_t> {};
template <> struct Tr<f2n_polymod_t> : TrQuot<f2n_polymod_t, f2n_poly_t> {};
template <> struct Tr<fpn_polymod_t> : TrQuot<fpn_polymod_t, fpn_poly_t> {};

template <class T, class P> struct TrFrac {
  using Ctx = typename Tr<P>::Ctx;
  static Ctx ctx(const J &r) { return Tr<P>::ctx(r["c"]); }
  static T make(const J &v, const Ctx &c) {
    return T(Tr<P>::make(v.a[0], c), Tr<P>::make(v.a[1], c));
  }
  static J dump(const T &a, const Ctx &c) {
    J r = J::arr();
    r.push(Tr<P>::dump(a.get_numerator(), c));
    r.push(Tr<P>::dump(a.get_denominator(), c));
    return r;
  }
};
template <> struct Tr<f2_polyrat_t> : TrFrac<f2_polyrat_t, f2_poly_t> {};
template <> struct Tr<fp_polyrat_t> : TrFrac<fp_polyrat_t, fp_poly_t> {};
template <> struct Tr<f2n_polyrat_t> : TrFrac<f2n_polyrat_t, f2n_poly_t> {};

// the coefficient (scalar) type of a polynomial class, void if none
template <class T> struct Sc { using type = void; };
template <> struct Sc<fp_poly_t> { using type = intmod_t; };
template <> struct Sc<q_poly_t> { using type = intrat_t; };
template <> struct Sc<f2n_poly_t> { using type = f2_polymod_t; };
template <> struct Sc<fpn_poly_t> { using type = fp_polymod_t; };
template <> struct Sc<f2_poly_t> { using type = bit_t; };

inline J chars(const std::string &s) {
  J r = J::arr();
  for (unsigned char c : s) r.push((int)c);
  return r;
}
inline std::string unchars(const J &v) {
  std::string s;
  for (auto &c : v.a) s += (char)c.n;
  return s;
}

// from_string of each class, with the context it needs
template <class T> bool parse_into(T &t, const std::string &s, const typename Tr<T>::Ctx &c) {
  if constexpr (requires { t.from_string(s); }) return t.from_string(s);
  else if constexpr (requires { t.from_string(s, c); }) { typename Tr<T>::Ctx cc = c; return t.from_string(s, cc); }
  else if constexpr (!std::is_same_v<typename Tr<T>::Ctx, int>) { auto m = c.m; return t.from_string(s, m); }
  else throw std::runtime_error("no from_string");
}

template <class T> constexpr bool has_scan = requires(std::istringstream i, T t) { i >> t; };
template <class T> constexpr bool has_iscan = requires(std::istream &i, T t) { i >> t; };

template <class T> void run_ring(const J &sess) {
  using S = typename Sc<T>::type;
  auto c = Tr<T>::ctx(sess["ring"]);
  std::vector<T> R;
  auto snapshot = [&]() {
    J o = J::arr();
    for (auto &x : R) o.push(Tr<T>::dump(x, c));
    return o;
  };
  for (auto &v : sess["init"].a) R.push_back(Tr<T>::make(v, c));
  {
    J ev = J::obj();
    ev.set("op", "init"); ev.set("x", 0); ev.set("v", sess["init"]);
    ev.set("o", snapshot());
    emit(ev);
  }
  for (const J &op0 : sess["ops"].a) {
    J ev = op0;
    const J &e = op0;
    const std::string op = e["op"].s;
    auto reg = [&](const char *f) -> T & { return R.at((size_t)e.i(f) - 1); };
    auto boolean = [&](bool b) { ev.set("r", b); };
    bool done = false;
    int x = 0;
    try {
#define DO(name, cond, ...)                                                   \
  if (!done && op == name) {                                                   \
    if constexpr (cond) { done = true; __VA_ARGS__; }                                 \
  }
#define CAN(...) requires { __VA_ARGS__; }
      T &ra = R[0];
      (void)ra;
      DO("set", true, reg("d") = Tr<T>::make(e["v"], c))
      DO("copy", true, T t(reg("a")); T u(t); reg("d") = u)
      DO("asg", true, reg("d") = reg("a"))
      DO("add", CAN(ra + ra), reg("d") = reg("a") + reg("b"))
      DO("sub", CAN(ra - ra), reg("d") = reg("a") - reg("b"))
      DO("mul", CAN(ra * ra), reg("d") = reg("a") * reg("b"))
      DO("div", CAN(ra / ra), reg("d") = reg("a") / reg("b"))
      DO("mod", CAN(ra % ra), reg("d") = reg("a") % reg("b"))
      DO("iadd", CAN(ra += ra), reg("d") += reg("b"))
      DO("isub", CAN(ra -= ra), reg("d") -= reg("b"))
      DO("imul", CAN(ra *= ra), reg("d") *= reg("b"))
      DO("idiv", CAN(ra /= ra), reg("d") /= reg("b"))
      DO("imod", CAN(ra %= ra), reg("d") %= reg("b"))
      DO("neg", CAN(-ra), reg("d") = -reg("a"))
      DO("exp", CAN(ra.exp(1)), reg("d") = reg("a").exp((int)e.i("n")))
      DO("recip", CAN(ra.recip(ra)), boolean(reg("a").recip(reg("d"))))
      DO("addi", (CAN(ra + 1)) && (std::is_same_v<T, intmod_t>), reg("d") = reg("a") + (int)e.i("n"))
      DO("subi", (CAN(ra - 1)) && (std::is_same_v<T, intmod_t>), reg("d") = reg("a") - (int)e.i("n"))
      DO("muli", CAN(ra * 1), reg("d") = reg("a") * (int)e.i("n"))
      DO("imuli", CAN(ra *= 1), reg("d") *= (int)e.i("n"))
      DO("asgi", CAN(ra = 1), reg("d") = (int)e.i("n"))
      DO("psub", CAN(ra.prime_subfield_element(1)), reg("d") = reg("a").prime_subfield_element((int)e.i("n")))
      DO("char", CAN(ra.get_characteristic()), ev.set("r", reg("a").get_characteristic()))
      DO("cmp", CAN(ra < ra), {
        J r = J::arr();
        const T &p = reg("a"); const T &q = reg("b");
        r.push(p == q); r.push(p != q); r.push(p < q); r.push(p > q); r.push(p <= q); r.push(p >= q);
        ev.set("r", r);
      })
      DO("eqs", true, {
        J r = J::arr();
        r.push(reg("a") == reg("b")); r.push(reg("a") != reg("b"));
        ev.set("r", r);
      })
      DO("cmpi", CAN(ra == 1), {
        J r = J::arr();
        r.push(reg("a") == (int)e.i("n")); r.push(reg("a") != (int)e.i("n"));
        ev.set("r", r);
      })
      DO("qr", CAN(ra.quot_and_rem(ra, ra, ra)), {
        // results go straight into the registers, which may hold the operands
        if (e.i("d") != e.i("d2")) reg("a").quot_and_rem(reg("b"), reg("d"), reg("d2"));
        else { T q, r; reg("a").quot_and_rem(reg("b"), q, r); reg("d") = r; }
      })
      DO("gcd", CAN(ra.gcd(ra)), reg("d") = reg("a").gcd(reg("b")))
      DO("ggcd", (!std::is_void_v<S>) && (CAN(ra = gcd(ra, ra))), reg("d") = gcd(reg("a"), reg("b")))
      DO("egcd", CAN(ra.ext_gcd(ra, ra, ra)), {
        if (e.i("d2") != e.i("d3")) {
          T g = reg("a").ext_gcd(reg("b"), reg("d2"), reg("d3"));
          if (e.i("d") != e.i("d2") && e.i("d") != e.i("d3")) reg("d") = g;
        } else { T m, n; T g = reg("a").ext_gcd(reg("b"), m, n); reg("d") = g; reg("d2") = m; reg("d3") = n; }
      })
      DO("deriv", CAN(ra.deriv()), reg("d") = reg("a").deriv())
      DO("proot", CAN(ra.square_root(ra)), { T z = reg("d"); boolean(reg("a").square_root(reg("d"))); if (!ev.i("r")) reg("d") = z; })
      DO("proot", CAN(ra.pth_root(ra)), { T z = reg("d"); boolean(reg("a").pth_root(reg("d"))); if (!ev.i("r")) reg("d") = z; })
      DO("deg", CAN(ra.find_degree()), ev.set("r", reg("a").find_degree()))
      DO("parity", CAN(ra.zcount_one_bits()), ev.set("r", reg("a").zcount_one_bits()))
      DO("incr", CAN(ra.increment()), reg("d").increment())
      DO("prom", CAN(ra.promote()), reg("d").promote())
      DO("prom", CAN(ra._promote_1()), reg("d")._promote_1())
      DO("promn", CAN(ra._promote_n(1)), reg("d")._promote_n((uint64_t)e.i("n")))
      DO("demote", CAN(ra._demote_1()), reg("d")._demote_1())
      DO("str", true, { std::ostringstream os; os << reg("a"); ev.set("r", chars(os.str())); })
      DO("parse", true, { T t = reg("d"); bool b = parse_into(t, unchars(e["v"]), c); boolean(b); if (b) reg("d") = t; })
#define SCAN(STREAM) \
        std::istringstream is(unchars(e["v"])); \
        STREAM; \
        T t = reg("d"); st >> t; bool b = !st.fail(); boolean(b); \
        if (b) { reg("d") = t; is.clear(); std::ostringstream rest; if (is.peek() != EOF) rest << is.rdbuf(); ev.set("rest", chars(rest.str())); }
      DO("scan", (has_scan<T>), { SCAN(std::istringstream &st = is) })
      DO("scani", (has_iscan<T>), { SCAN(std::istream &st = is) })
      if constexpr (std::is_same_v<T, f2_poly_t>) {
        DO("setc", true, reg("d").set_coeff((int)e.i("n"), bit_t((int)e["v"].n)))
        DO("setb", true, reg("d").set_bit((int)e.i("n")))
        DO("coef", true, ev.set("r", reg("a").bit_at((int)e.i("n"))))
        DO("eval", true, ev.set("r", reg("a").eval((int)e["v"].n)))
        DO("evalb", true, ev.set("r", reg("a").eval(bit_t((int)e["v"].n)).get_residue()))
        DO("base", true, reg("d") = f2_poly_t::from_base_rep((uint64_t)e.i("n")))
      } else if constexpr (!std::is_void_v<S>) {
        using TS = Tr<S>;
        auto sc = [&]() { return TS::make(e["v"], c); };
        DO("setc", true, reg("d").set_coeff((int)e.i("n"), sc()))
        DO("coef", true, ev.set("r", TS::dump(reg("a").get_coeff((int)e.i("n")), c)))
        DO("eval", true, ev.set("r", TS::dump(reg("a").eval(sc()), c)))
        DO("promadd", true, reg("d").promote_and_add(sc()))
        DO("sadd", true, reg("d") = reg("a") + sc())
        DO("ssub", true, reg("d") = reg("a") - sc())
        DO("smul", true, reg("d") = reg("a") * sc())
        DO("sdiv", true, reg("d") = reg("a") / sc())
        DO("isadd", true, reg("d") += sc())
        DO("issub", true, reg("d") -= sc())
        DO("ismul", true, reg("d") *= sc())
        DO("isdiv", true, reg("d") /= sc())
        DO("ctor1", true, reg("d") = T(sc()))
        DO("ctor2", true, reg("d") = T(TS::make(e["v"].a[0], c), TS::make(e["v"].a[1], c)))
        DO("ctor3", true, reg("d") = T(TS::make(e["v"].a[0], c), TS::make(e["v"].a[1], c), TS::make(e["v"].a[2], c)))
        if constexpr (std::is_same_v<T, fp_poly_t>) {
          DO("base", true, reg("d") = fp_poly_t::from_base_rep((int)e.i("n"), c))
        }
        if constexpr (std::is_same_v<T, fpn_poly_t>) {
          DO("zmul", true, reg("d") = reg("a") * intmod_t((int)e.i("n"), reg("a").get_characteristic()))
        }
        if constexpr (requires { T::from_base_rep(1, c.m); }) {
          DO("base", true, reg("d") = T::from_base_rep((int)e.i("n"), c.m))
        }
        if constexpr (std::is_same_v<T, q_poly_t>) {
          DO("binom", true, reg("d") = q_poly_t::binomial(TS::make(e["v"].a[0], 0), (int)e["v"].a[1].n, TS::make(e["v"].a[2], 0), (int)e["v"].a[3].n))
        }
      }
      if constexpr (std::is_same_v<T, fp_polymod_t>) {
        DO("zmul", true, reg("d") = reg("a") * intmod_t((int)e.i("n"), reg("a").get_characteristic()))
        DO("izmul", true, reg("d") *= intmod_t((int)e.i("n"), reg("a").get_characteristic()))
      }
      // an operand from a ring with another modulus must be refused
      DO("mixed", true, {
        auto c2 = Tr<T>::ctx(e["ring2"]);
        T o = Tr<T>::make(e["v"], c2);
        T z = reg("a");
        const std::string w = e["w"].s;
        if (w == "add") z = reg("a") + o;
        else if (w == "sub") z = reg("a") - o;
        else if (w == "mul") z = z * o;
        else if (w == "div") z = z / o;
        else if (w == "iadd") z += o;
        else if (w == "imul") z *= o;
        reg("d") = z;
      })
      if (!done) { ev.set("na", 1); }
    } catch (const spffl::exception_t &) {
      x = 1;
    }
    ev.set("x", x);
    try { ev.set("o", snapshot()); } catch (const spffl::exception_t &) { ev.set("o", J::arr()); }
    emit(ev);
  }
}
