// The psdes generator and random ring elements (C17).
#include "calls.h"
#include "ring.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/int_random.h"
#include "spffl/random/intmod_random.h"
using namespace spffl::bitrand;
using namespace spffl::random;

static J word(uint32_t w) { return jlist({J((long long)(w >> 16)), J((long long)(w & 0xffff))}); }
static J pair(uint32_t a, uint32_t b) { return jlist({word(a), word(b)}); }
static uint32_t unword(const J &j) { return (uint32_t)j.a[0].n << 16 | (uint32_t)j.a[1].n; }
static J bitlist(uint64_t v) {
  J r = J::arr();
  for (int i = 0; i < 64; i++) if (v >> i & 1) r.push(i);
  return r;
}
static J unit(float f) {  // f as a multiple of 2^-23, exactly
  double d = (double)f * 8388608.0;
  if (d < 0 || d >= 8388608.0 || d != (double)(long long)d) return J(-1);
  return J((long long)d);
}
template <class T, class F> static J many(const J &R, int N, F f) {
  J r = J::arr();
  auto c = Tr<T>::ctx(R);
  for (int i = 0; i < N; i++) r.push(Tr<T>::dump(f(), c));
  return r;
}
static J draws(const std::string &f, const J &R, int n, int N) {
  J r = J::arr();
  if (f == "u32") { for (int i = 0; i < N; i++) r.push(bitlist(get_random_uint32())); return r; }
  if (f == "u64") { for (int i = 0; i < N; i++) r.push(bitlist(get_random_uint64())); return r; }
  if (f == "int") { for (int i = 0; i < N; i++) r.push(bitlist((uint32_t)get_random_int())); return r; }
  std::string k = R["k"].s;
  if (f == "poly") {
    if (k == "f2p") return many<f2_poly_t>(R, N, [&] { return f2_poly_random(n); });
    if (R["c"]["k"].s == "zm") return many<fp_poly_t>(R, N, [&] { return fp_poly_random((int)R["c"].i("m"), n); });
    auto m = Tr<f2_poly_t>::make(R["c"]["m"], 0);
    return many<f2n_poly_t>(R, N, [&] { return f2n_poly_random(m, n); });
  }
  if (k == "zm") return many<intmod_t>(R, N, [&] { return intmod_random((int)R.i("m")); });
  const J &C = R["c"];
  if (C["k"].s == "f2p") {
    auto m = Tr<f2_poly_t>::make(R["m"], 0);
    return many<f2_polymod_t>(R, N, [&] { return f2_polymod_random(m); });
  }
  if (C["c"]["k"].s == "zm") {
    auto m = Tr<fp_poly_t>::make(R["m"], Tr<fp_poly_t>::ctx(C));
    return many<fp_polymod_t>(R, N, [&] { return fp_polymod_random(m); });
  }
  auto im = Tr<f2_poly_t>::make(C["c"]["m"], 0);
  auto om = Tr<f2n_poly_t>::make(R["m"], Tr<f2n_poly_t>::ctx(C));
  return many<f2n_polymod_t>(R, N, [&] { return f2n_polymod_random(im, om); });
}

static void run(const J &s) {
  uint32_t reg[2][2] = {};
  run_calls(s, [&](const std::string &op, const J &e, J &ev) {
    auto w = [&](int i) { return unword(e["w"].a[i]); };
    auto *q = e.has("a") ? reg[e.i("a") - 1] : nullptr;
    if (op == "seed") sran32(w(1));
    else if (op == "seedb") sran32b(w(0), w(1));
    else if (op == "seedtod") sran32_timeofday();
    else if (op == "i32") ev.set("r", word(iran32()));
    else if (op == "i64") { uint32_t x = 0, y = 0; iran64(x, y); ev.set("r", pair(x, y)); }
    else if (op == "f32") ev.set("r", unit(fran32()));
    else if (op == "hash") { uint32_t x = w(0), y = w(1); psdes_hash_64(x, y); ev.set("r", pair(x, y)); }
    else if (op == "rset") { q[0] = w(0); q[1] = w(1); }
    else if (op == "rtod") sran32_timeofday_r(q[0], q[1]);
    else if (op == "ri32") ev.set("r", word(iran32_r(q[0], q[1])));
    else if (op == "ri64") { uint32_t x = 0, y = 0; iran64_r(x, y, q[0], q[1]); ev.set("r", pair(x, y)); }
    else if (op == "rf32") ev.set("r", unit(fran32_r(q[0], q[1])));
    else if (op == "draw") ev.set("r", draws(e["f"].s, e["ring"], (int)e.i("n"), (int)e.i("N")));
    else throw std::runtime_error("driver: op " + op);
    if (q) ev.set("st", pair(q[0], q[1]));
  });
}
static Reg r("rand", run);
