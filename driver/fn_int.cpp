// Integer number theory (C01).
#include "calls.h"
#include "spffl/bits/count_bits.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
using namespace spffl::intmath;

static void run(const J &s) {
  run_calls(s, [](const std::string &op, const J &e, J &ev) {
    auto a = [&]() { return (int)e.i("a"); };
    auto b = [&]() { return (int)e.i("b"); };
    auto u = [&]() { return ubits(e["u"]); };
    if (op == "gcd") ev.set("r", int_gcd(a(), b()));
    else if (op == "gcd2") ev.set("r", spffl::intmath::gcd(a(), b()));
    else if (op == "lcm") ev.set("r", int_lcm(a(), b()));
    else if (op == "egcd") {
      int m = 0, n = 0;
      int d = int_ext_gcd(a(), b(), m, n);
      ev.set("r", jlist({J(d), J(m), J(n)}));
    } else if (op == "power") ev.set("r", int_power(a(), b()));
    else if (op == "sqrtf") ev.set("r", int_sqrt_floor(a()));
    else if (op == "sqrtc") ev.set("r", int_sqrt_ceil(a()));
    else if (op == "totient") ev.set("r", int_totient(a()));
    else if (op == "isprime") ev.set("r", is_prime(a()));
    else if (op == "nthprime") ev.set("r", nth_prime(a()));
    else if (op == "log10") ev.set("r", (long long)calc_log10_unsigned_floor((unsigned)u()));
    else if (op == "msb16") ev.set("r", (long long)find_msb_16((unsigned short)u()));
    else if (op == "msb32") ev.set("r", (long long)find_msb_32((unsigned)u()));
    else if (op == "msb64") ev.set("r", (long long)find_msb_64(u()));
    else if (op == "lsb32") ev.set("r", (long long)find_lsb_32((unsigned)u()));
    else if (op == "lsb64") ev.set("r", (long long)find_lsb_64(u()));
    else if (op == "log2f") ev.set("r", (long long)calc_log2_unsigned_floor((unsigned)u()));
    else if (op == "log2c") ev.set("r", (long long)calc_log2_unsigned_ceil((unsigned)u()));
    else if (op == "log2llf") ev.set("r", (long long)calc_log2_unsigned_ll_floor(u()));
    else if (op == "log2llc") ev.set("r", (long long)calc_log2_unsigned_ll_ceil(u()));
    else if (op == "ones") {  // the set bits of a string of a bytes
      std::vector<unsigned char> p(a() + 1);
      p[a()] = 0xff;  // beyond the string
      for (size_t k = 0; k < e["u"].a.size(); k++) {
        int v = (int)e["u"].a[k].n;
        p[v / 8] |= 1 << (v % 8);
      }
      ev.set("r", spffl::bits::count_one_bits(p.data(), a()));
    } else throw std::runtime_error("driver: op " + op);
  });
}
static Reg r("int", run);
