"""C01: integer number theory."""
import random
from . import core, tlagen

EDGE = [0, 1, -1, 2, -2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 97, 100, 127, 128, 255, 256, 257,
        1000, 46339, 46340, 46341, 65535, 65536, 65537, 2**20, 2**24 - 3, 2**30 - 1, 2**30, 2**30 + 1, 2**31 - 2, 2**31 - 1,
        1073741789, 2147483629, 1836311903, 1134903170, 2147483646, 2147395600, 2147395599, 2147395601]


def ubits(n):
    return [i for i in range(n.bit_length()) if n >> i & 1]


def gcd(a, b):
    while b: a, b = b, a % b
    return abs(a)


def op(o, a=0, b=0, u=None):
    return {"op": o, "a": a, "b": b, "u": ubits(u or 0)}


def int_sessions(rng, n):
    out = []
    def big():
        t = rng.random()
        v = rng.choice(EDGE) if t < .4 else rng.randrange(2**31) >> rng.randint(0, 30)
        return -v if rng.random() < .3 else v
    def pair():
        t = rng.random()
        if t < .5: return big(), big()
        g = rng.randint(1, 2000)     # a common factor
        return g * rng.randint(-2000, 2000), g * rng.randint(-2000, 2000)
    for _ in range(n):
        ops = []
        for _ in range(12):
            o = rng.choice("gcd gcd2 lcm egcd egcd power sqrtf sqrtc totient isprime isprime nthprime log10 msb16 msb32 msb64 lsb32 lsb64 log2f log2c log2llf log2llc".split())
            a, b = pair()
            if o in ("gcd", "gcd2", "egcd"): ops.append(op(o, a, b))
            elif o == "lcm":
                while a and b and abs(a) // gcd(a, b) * abs(b) > 2**31 - 1: a, b = pair()
                ops.append(op(o, a, b))
            elif o == "power":
                b = rng.randint(0, 32)
                a = rng.randint(-12, 12) if b > 3 else rng.choice([big(), rng.randint(-1290, 1290)])
                while abs(a) ** b > 2**31 - 1: a = int(a / 2)
                ops.append(op(o, a, b))
            elif o in ("sqrtf", "sqrtc"):
                r = rng.randint(0, 46340)
                a = rng.choice([abs(a), abs(a), a, r * r, r * r + 1, max(0, r * r - 1)])
                ops.append(op(o, min(a, 2**31 - 1)))
            elif o == "totient": ops.append(op(o, rng.choice([rng.randint(2, 300), rng.randint(2, 20000), rng.choice([4, 8, 9, 25, 27, 1024, 6561, 2310, 4096, 30030])])))
            elif o == "isprime":
                ps = [2, 3, 5, 7, 11, 251, 257, 65519, 65521, 46337, 46327, 1009, 32749]
                p, q = rng.choice(ps), rng.choice(ps)
                ops.append(op(o, rng.choice([a, rng.randint(-50, 5000), p * q if p * q < 2**31 else p, 2**31 - 1, 2147483629, p])))
            elif o == "nthprime": ops.append(op(o, rng.choice([rng.randint(-3, 6545), 0, 1, 6541, 6542, 6543, a])))
            else:
                w = {"msb16": 16, "msb64": 64, "lsb64": 64, "log2llf": 64, "log2llc": 64}.get(o, 32)
                v = rng.getrandbits(w) >> rng.randint(0, w - 1)
                if rng.random() < .4: v = 1 << rng.randint(0, w - 1)
                elif rng.random() < .3: v = (1 << rng.randint(1, w)) - rng.choice([1, 1, 2])
                elif rng.random() < .3: v = (v << rng.randint(0, w)) & ((1 << w) - 1)
                if o == "log10" and rng.random() < .5: v = min(2**32 - 1, max(0, 10 ** rng.randint(0, 9) + rng.randint(-1, 1)))
                ops.append(op(o, 0, 0, v or (0 if o == "log10" else 1)))
        out.append({"k": "int", "ops": ops})
    return out


def c01(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["fn_int"])
    q = tier == "quick"
    ss, g, d = tlagen.enum("IntGen", {"SIZE": "small" if q else "big"}, core.JOBS)
    ck.states += d
    ck.trans += g
    ck.models.append({"module": "IntGen", "distinct_states": d, "sessions": len(ss)})
    # the whole prime table
    ss += [{"k": "int", "ops": [op("nthprime", i) for i in range(k, min(k + 60, 6550))]} for k in range(-10, 6550, 60)]
    # every byte value, at every position of a short string
    ss += [{"k": "int", "ops": [op("ones", n, 0, v << 8 * p) for n in (1, 3) for p in range(n)]} for v in range(256)]
    rng = random.Random("c01-%d" % core.SEED)
    for _ in range(20 if q else 200):
        n = rng.randint(0, 40)
        ss.append({"k": "int", "ops": [op("ones", n, 0, rng.getrandbits(8 * n)) if n else op("ones")]})
    ss += int_sessions(rng, 1500 if q else 20000)
    ss += [{"k": "int", "ops": [op(o, a, b) for b in EDGE for o in ("gcd", "egcd")]} for a in EDGE]
    ck.conform("IntTrace", exe, ss)
    return ck.finish(["Arguments are kept where the result is representable (|arguments| < 2^31)."])
