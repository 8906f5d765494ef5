// The vector/matrix machine over one element type.
#pragma once
#include "ring.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tvector.h"
#include <concepts>
#include <unistd.h>

using spffl::bits::bit_matrix_t;
using spffl::bits::bit_vector_t;

template <class Vec, class Mat, class T> struct MatRun {
  static constexpr bool bits = std::is_same_v<Vec, bit_vector_t>;
  using Ctx = typename Tr<T>::Ctx;
  Ctx c;
  std::vector<Vec> V;
  std::vector<Mat> M;

  T mk(const J &v) { return Tr<T>::make(v, c); }
  J du(const T &t) { return Tr<T>::dump(t, c); }
  Vec mkv(const J &v) {
    if (v.a.empty()) return Vec();
    Vec r((int)v.a.size());
    for (size_t i = 0; i < v.a.size(); i++) put(r, (int)i, mk(v.a[i]));
    return r;
  }
  static T at(const Vec &v, int i) {
    if constexpr (bits) return v.get(i); else return v[i];
  }
  static void put(Vec &v, int i, const T &t) {
    if constexpr (bits) v.set(i, t); else v[i] = t;
  }
  Mat mkm(const J &v) {
    if (v.a.empty()) return Mat();
    Mat r((int)v.a.size(), (int)v.a[0].a.size());
    for (size_t i = 0; i < v.a.size(); i++)
      for (size_t j = 0; j < v.a[i].a.size(); j++) put(r[(int)i], (int)j, mk(v.a[i].a[j]));
    return r;
  }
  J duv(const Vec &v) {
    J r = J::arr();
    for (int i = 0; i < v.get_num_elements(); i++) r.push(du(at(v, i)));
    return r;
  }
  J dum(const Mat &m0) {
    Mat &m = const_cast<Mat &>(m0);
    J r = J::arr();
    for (int i = 0; i < m.get_num_rows(); i++) r.push(duv(m[i]));
    return r;
  }
  J snapshot() {
    J v = J::arr(), m = J::arr();
    for (auto &x : V) v.push(duv(x));
    for (auto &x : M) m.push(dum(x));
    return two(v, m);
  }
  static J two(const J &a, const J &b) { J r = J::arr(); r.push(a); r.push(b); return r; }
  static std::vector<char> cstr(const std::string &s) { std::vector<char> b(s.begin(), s.end()); b.push_back(0); return b; }

  void run(const J &sess) {
    c = Tr<T>::ctx(sess["ring"]);
    for (auto &v : sess["init"].a[0].a) V.push_back(mkv(v));
    for (auto &m : sess["init"].a[1].a) M.push_back(mkm(m));
    {
      J ev = J::obj();
      ev.set("op", "init"); ev.set("x", 0);
      ev.set("v", sess["init"].a[0]); ev.set("m", sess["init"].a[1]);
      for (const char *f : {"a", "b", "d", "d2"}) ev.set(f, 1);
      ev.set("n", 0); ev.set("n2", 0); ev.set("s", sess["zero"]);
      ev.set("o", snapshot());
      emit(ev);
    }
    for (const J &e : sess["ops"].a) {
      J ev = e;
      int x = 0;
      try { step(e, ev, e["op"].s); } catch (const spffl::exception_t &) { x = 1; }
      ev.set("x", x);
      ev.set("o", snapshot());
      emit(ev);
    }
  }

  void step(const J &e, J &ev, const std::string &op) {
    auto vr = [&](const char *f) -> Vec & { return V.at((size_t)e.i(f) - 1); };
    auto mr = [&](const char *f) -> Mat & { return M.at((size_t)e.i(f) - 1); };
    auto res = [&](const J &j) { ev.set("r", j); };
    auto sc = [&]() { return mk(e["s"]); };
    auto n = [&]() { return (int)e.i("n"); };
    auto n2 = [&]() { return (int)e.i("n2"); };
    auto txt = [&]() { return unchars(e["v"]); };
    // Calls with a result argument write straight into the register, which may hold an operand;
    // what they leave there when they report failure is nobody's business.
    auto outm = [&](auto f) {
      Mat &d = mr("d"); Mat s(d); bool b = false;
      try { b = f(d); } catch (...) { d = s; throw; }
      res(b); if (!b) d = s;
    };
    Vec &v0 = V[0]; Mat &m0 = M[0]; T t0{}; int i0 = 0;
    (void)v0; (void)m0; (void)t0; (void)i0;
    bool done = false;
    // ---- vectors
    DO("vset", true, vr("d") = mkv(e["v"]); if (e["v"].a.empty()) V[(size_t)e.i("d") - 1] = Vec())
    DO("vnew", true, { std::vector<Vec> W; for (size_t k = 0; k < V.size(); k++) { if ((long long)k == e.i("d") - 1) W.emplace_back(); else W.push_back(V[k]); } V.swap(W); })
    DO("vfill", true, { Vec t(sc(), n()); vr("d") = t; })
    DO("vcopy", true, { Vec t(vr("a")); Vec u(t); vr("d") = u; })
    DO("vasg", true, vr("d") = vr("a"))
    DO("vasgs", true, vr("d") = sc())
    DO("vlen", true, res(vr("a").get_num_elements()))
    DO("vget", true, res(du(at(vr("a"), n()))))
    DO("vput", true, put(vr("d"), n(), sc()))
    DO("vtog", CAN(v0.toggle_element(0)), vr("d").toggle_element(n()))
    DO("vadd", true, vr("d") = vr("a") + vr("b"))
    DO("vsub", true, vr("d") = vr("a") - vr("b"))
    DO("vmul", true, vr("d") = vr("a") * vr("b"))
    if constexpr (!bits) DO("vdiv", CAN(v0 / v0), vr("d") = vr("a") / vr("b"))
    DO("viadd", true, vr("d") += vr("b"))
    DO("visub", true, vr("d") -= vr("b"))
    DO("vacc1", CAN(v0.accum_row(v0)), vr("d").accum_row(vr("b")))
    DO("vimul", true, vr("d") *= vr("b"))
    if constexpr (!bits) DO("vneg", true, vr("d") = -vr("a"))
    DO("vsmul", true, vr("d") = vr("a") * sc())
    DO("vismul", true, vr("d") *= sc())
    DO("vmultby", CAN(v0.mult_by(t0)), vr("d").mult_by(sc()))
    if constexpr (!bits) {
      DO("visdiv", true, vr("d") /= sc())
      DO("vismulself", true, vr("d") *= vr("d")[n()])
      DO("visdivself", true, vr("d") /= vr("d")[n()])
      if constexpr (CAN(t0.exp(1))) DO("vexp", true, vr("d") = vr("a").exp(n()))
      if constexpr (requires { { gcd(t0, t0) } -> std::same_as<T>; }) DO("vgcd", true, res(du(vr("a").vgcd())))
      if constexpr (CAN(t0 < t0)) DO("vsort", true, vr("d").sort())
      DO("vtrim", true, vr("d").trim_num_elements(n()))
      DO("vaccum", true, vr("d").accum_row_mul(sc(), mk(e["s2"]), vr("b")))
      DO("vmat", true, vr("d") = vr("a") * mr("b"))
      DO("vload", true, {
        std::string f = "vec-" + std::to_string(getpid()) + ".txt"; { std::ofstream o(f); o << txt(); }
        Vec t; auto nm = cstr(f); bool b = t.load_from_file(nm.data(), mk(e["s"])); unlink(f.c_str());
        res(b); if (b) vr("d") = t; })
      DO("vbrk", true, { Vec t(mk(e["s"]), 1); auto b = cstr(txt()); bool ok = t.bracket_in(b.data()); res(ok); if (ok) vr("d") = t; })
      DO("vlead", true, { int p = -9; J r = J::arr(); bool b = vr("a").find_leader_pos(mk(e["s"]), p); r.push(b); if (b) r.push(p); res(r); })
    } else {
      DO("vlead", true, { int p = -9; J r = J::arr(); bool b = vr("a").find_leader_pos(p); r.push(b); if (b) r.push(p); res(r); })
      DO("vzero", true, res(vr("a").is_zero()))
    }
    DO("vdot", true, res(du(vr("a").dot(vr("b")))))
    DO("veq", true, res(two(vr("a") == vr("b"), vr("a") != vr("b"))))
    DO("veqs", true, res(two(vr("a") == sc(), vr("a") != sc())))
    DO("vswap", true, vr("d").ptrswap(vr("a")))
    DO("vstr", true, { std::ostringstream os; os << vr("a"); res(chars(os.str())); })
    DO("vsqz", true, { std::ostringstream os; vr("a").sqzout(os); res(chars(os.str())); })
    DO("vcr", true, { std::ostringstream os; vr("a").crout(os); res(chars(os.str())); })
    DO("vparse", true, {
      std::stringstream is(txt()); Vec t(mk(e["s"]), 1);
      static_cast<std::istream &>(is) >> t;
      bool b = !is.fail(); res(b); if (b) vr("d") = t; })
    // ---- matrices
    DO("mset", true, mr("d") = mkm(e["v"]))
    DO("mnew", true, { std::vector<Mat> W; for (size_t k = 0; k < M.size(); k++) { if ((long long)k == e.i("d") - 1) W.emplace_back(); else W.push_back(M[k]); } M.swap(W); })
    DO("mfill", true, { Mat t(sc(), n(), n2()); mr("d") = t; })
    DO("mcopy", true, { Mat t(mr("a")); Mat u(t); mr("d") = u; })
    DO("masg", true, mr("d") = mr("a"))
    DO("masgs", true, mr("d") = sc())
    DO("mdims", true, { J r = two(mr("a").get_num_rows(), mr("a").get_num_cols()); r.push(mr("a").is_square()); res(r); })
    DO("mget", true, res(du(at(mr("a")[n()], n2()))))
    DO("mput", true, put(mr("d")[n()], n2(), sc()))
    DO("mrow", true, vr("d") = mr("a")[n()])
    DO("mputrow", true, mr("d")[n()] = vr("a"))
    DO("madd", true, mr("d") = mr("a") + mr("b"))
    DO("msub", true, mr("d") = mr("a") - mr("b"))
    DO("miadd", true, mr("d") += mr("b"))
    DO("misub", true, mr("d") -= mr("b"))
    DO("mneg", true, mr("d") = -mr("a"))
    DO("madds", true, mr("d") = mr("a") + sc())
    DO("msubs", true, mr("d") = mr("a") - sc())
    DO("miadds", true, mr("d") += sc())
    DO("misubs", true, mr("d") -= sc())
    DO("mmul", true, mr("d") = mr("a") * mr("b"))
    DO("mimul", true, mr("d") *= mr("b"))
    DO("mvec", true, vr("d") = mr("a") * vr("b"))
    DO("outer", true, mr("d") = Mat::outer(vr("a"), vr("b")))
    DO("transp", true, mr("d") = mr("a").transpose())
    DO("mswap", true, mr("d").swap(n(), n2()))
    DO("meq", true, res(two(mr("a") == mr("b"), mr("a") != mr("b"))))
    DO("meqs", true, res(two(mr("a") == sc(), mr("a") != sc())))
    DO("paste", true, mr("d") = mr("a").paste(mr("b")))
    DO("split", true, {
      if (e.i("d") != e.i("d2")) { Mat s(mr("d")), s2(mr("d2")); try { mr("a").split(mr("d"), mr("d2"), n()); } catch (...) { mr("d") = s; mr("d2") = s2; throw; } }
      else { Mat l; Mat r; mr("a").split(l, r, n()); mr("d") = r; } })
    DO("mpred", true, { J r = two(mr("a").is_zero(), mr("a").is_square()); r.push(mr("a").is_I()); res(r); })
    DO("mstr", true, { std::ostringstream os; os << mr("a"); res(chars(os.str())); })
    DO("mparse", true, {
      std::istringstream is(txt()); Mat t; t = mk(e["s"]); static_cast<std::istream &>(is) >> t;
      bool b = !is.fail(); res(b); if (b) mr("d") = t; })
    DO("mparse2", true, {
      std::istringstream iss(txt()); std::istream &is = iss;
      Mat t; Mat u; t = mk(e["s"]); u = mk(e["s"]); is >> t; bool b = !is.fail();
      if (b) { is >> u; b = !is.fail(); }
      res(b); if (b) { mr("d") = t; mr("d2") = u; } })
    DO("mload", true, {
      std::string f = "mat-" + std::to_string(getpid()) + ".txt"; { std::ofstream o(f); o << txt(); }
      Mat t; t = mk(e["s"]); auto nm = cstr(f); bool b = t.load_from_file(nm.data()); unlink(f.c_str());
      res(b); if (b) mr("d") = t; })
    if constexpr (!bits) {
      DO("msmul", true, mr("d") = mr("a") * sc())
      DO("mismul", true, mr("d") *= sc())
      DO("mismulself", true, mr("d") *= mr("d")[n()][n2()])
      DO("miaddself", true, mr("d") += mr("d")[n()][n2()])
      DO("misubself", true, mr("d") -= mr("d")[n()][n2()])
      DO("masgself", true, mr("d") = mr("d")[n()][n2()])
      DO("vasgself", true, vr("d") = vr("d")[n()])
      DO("vaccself", true, vr("d").accum_row_mul(vr("d")[n()], vr("d")[n2()], vr("d")))
      DO("mputrowself", true, mr("d")[n()] = mr("d")[n2()])
      DO("mcol", true, vr("d") = mr("a").get_column(n()))
      DO("mputcol", true, mr("d").put_column(n(), vr("a")))
      DO("fliph", true, mr("d") = mr("a").flip_horiz())
      DO("flipv", true, mr("d") = mr("a").flip_vert())
      DO("fliphv", true, mr("d") = mr("a").flip_horiz_vert())
      DO("findrow", true, { int p = -9; J r = J::arr(); bool b = mr("a").find_row(vr("b"), p); r.push(b); if (b) r.push(p); res(r); })
      DO("pastev", true, mr("d") = mr("a").paste_vector(vr("b")))
      DO("trimrows", true, mr("d").trim_num_rows(n()))
      DO("mbrk", true, { Mat t; t = mk(e["s"]); auto b = cstr(txt()); bool ok = t.bracket_in(b.data()); res(ok); if (ok) mr("d") = t; })
      DO("mfile", true, {
        std::string f = "mat2-" + std::to_string(getpid()) + ".txt"; auto nm = cstr(f); mr("a").store_to_file_or_die(nm.data());
        Mat t; bool b = t.load_from_file(nm.data(), mk(e["s"])); unlink(f.c_str()); res(b); if (b) mr("d") = t; })
      DO("makeI", true, mr("d") = mr("a").make_I(mk(e["s"]), mk(e["s2"])))
      if constexpr (CAN(t0 / t0)) {
        DO("findone", true, { T o = mk(e["s"]); bool b = mr("a").find_one(o); if (b) res(du(o)); else res(0); })
        DO("rrnz", true, outm([&](Mat &t) { return mr("a").get_rr_non_zero_rows(t); }))
        DO("rechnz", true, outm([&](Mat &t) { return mr("a").get_rech_non_zero_rows(t); }))
        DO("solve", true, {
          Vec t = vr("d"); bool b = false;
          try { b = mr("a").solve_unique(vr("d"), vr("b"), mk(e["s"]), mk(e["s2"])); } catch (...) { vr("d") = t; throw; }
          res(b); if (!b) vr("d") = t; })
        DO("kerbas", true, outm([&](Mat &t) { return mr("a").get_kernel_basis(t, mk(e["s"]), mk(e["s2"])); }))
      }
      if constexpr (requires { { gcd(t0, t0) } -> std::same_as<T>; }) {
        DO("eddet", true, res(du(mr("a").ed_det())))
        DO("edinv", true, outm([&](Mat &t) { return mr("a").ed_inverse(t); }))
      }
    } else {
      DO("makeI", true, mr("d") = mr("a").make_I())
      DO("kerbas", true, outm([&](Mat &t) { return mr("a").get_kernel_basis(t); }))
    }
    DO("rr", true, mr("d").row_reduce_below())
    DO("rech", true, mr("d").row_echelon_form())
    DO("rank", true, res(mr("a").get_rank()))
    DO("inv", true, outm([&](Mat &t) { return mr("a").inverse(t); }))
    DO("det", true, res(du(mr("a").det())))
    DO("mexp", CAN(m0.exp(1, m0)), outm([&](Mat &t) { return mr("a").exp(n(), t); }))
    DO("chkinv", true, mr("a").check_inverse(mr("b")))
    DO("chkker", true, mr("a").check_kernel_basis(mr("b")))
    if (!done) throw std::runtime_error("driver: op " + op);
  }
};

template <class Vec, class Mat, class T> void run_mat(const J &sess) { MatRun<Vec, Mat, T> r; r.run(sess); }
