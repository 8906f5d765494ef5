"""Sessions of calls for FinTrace (C09, C10, C11, C16)."""
import random
from . import rings, polyq
from .fn_checks import EDGE, gcd

Z = {"k": "z"}
PRIMES = rings.PRIMES


def sess(R, ops): return {"k": "fin", "ring": R, "ops": ops}


def poly_rings(rng):
    f2n = rings.poly(rings.f2n(rng.choice([7, 11, 13, 19, 25, 31, 37, 67])))
    fp = rings.fp(rng.choice([2, 3, 3, 5, 5, 7, 7, 11, 13]))
    return rng.choice([rings.F2P, rings.F2P, fp, fp, f2n])


def maxdeg(P):                     # keep Berlekamp and TLC quick
    if P.R["k"] == "f2p": return 26
    return {2: 14, 3: 12, 4: 8, 5: 10, 7: 9, 8: 7, 11: 7, 13: 6, 16: 6, 32: 5, 64: 4}.get(P.q, 5)


def scaled(P, rng, f):
    c = rng.randrange(1, P.q)
    return [P.F.mul(c, a) for a in f]


def cert(P, fs): return [[P.wire(g), e] for g, e in fs]


def c09(rng, n, big=False):
    out = []
    for _ in range(n):
        R = poly_rings(rng)
        P = polyq.PR(R)
        ops = []
        md = maxdeg(P)
        for _ in range(6):
            t = rng.random()
            f, fs = P.product(rng, md)
            if R["k"] == "f2p" and rng.random() < .12: f, fs = P.product(rng, rng.choice([33, 40, 64, 70]), 3)
            if t < .35: ops.append({"op": "factor", "a": P.wire(scaled(P, rng, f))})
            elif t < .45: ops.append({"op": "factor", "a": P.wire(P.trim(P.rand(rng, rng.randint(0, md), False)))})
            elif t < .47: ops.append({"op": "factor", "a": rng.choice([[], P.wire([rng.randrange(1, P.q)])])})
            elif t < .55: ops.append({"op": "irred", "a": P.wire(P.rand(rng, rng.randint(0, md), False))})
            elif t < .62: ops.append({"op": "irred", "a": P.wire(scaled(P, rng, P.irr(rng, rng.randint(1, md))))})
            elif t < .68:
                d = rng.randint(1, md // 2)
                ops.append({"op": "irred", "a": P.wire(P.mul(P.irr(rng, d), P.irr(rng, rng.choice([d, rng.randint(1, md // 2)]))))})
            elif t < .76: ops.append({"op": "findirr", "n": rng.choice([-1, 0, 1, 2, rng.randint(1, md if R["k"] != "f2p" else 16)])})
            elif t < .84: ops.append({"op": "randirr", "n": rng.choice([-1, 0, 1, 2, rng.randint(1, md)])})
            elif R["k"] == "poly" and R["c"]["k"] == "quot":
                g, _ = P.product(rng, min(md, 6), 5)
                if rng.random() < .7:   # linear factors
                    g = [1]
                    for _ in range(rng.randint(1, 5)): g = P.mul(g, [rng.randrange(P.q), 1])
                ops.append({"op": "roots", "a": P.wire(scaled(P, rng, g))})
            else: ops.append({"op": "factor", "a": P.wire(f)})
        out.append(sess(R, ops))
    return out


def ints(rng):
    t = rng.random()
    if t < .35: v = rng.choice(EDGE)
    elif t < .6: v = rng.randrange(2**31) >> rng.randint(0, 30)
    else:
        v = 1
        while True:
            p = rng.choice(PRIMES[:rng.choice([3, 6, 26])])
            if v * p > 2**31 - 1 or rng.random() < .08: break
            v *= p
    return -v if rng.random() < .25 else v


def c10(rng, n):
    out = []
    for _ in range(n):
        ops = []
        if rng.random() < .45:
            for _ in range(6):
                a = ints(rng)
                o = rng.choice(["factor", "factor", "ndivs", "divs", "mpds"])
                if o != "factor" and a == 0: a = 12
                if o in ("divs", "mpds", "ndivs") and abs(a) > 10**8 and rng.random() < .7: a = a // 1000
                if o == "divs": a = abs(a)
                ops.append({"op": o, "a": a, "fs": []})
            out.append(sess(Z, ops))
            continue
        R = poly_rings(rng)
        P = polyq.PR(R)
        bits = (P.q - 1).bit_length()
        for _ in range(5):
            o = rng.choice(["totient", "totient", "ndivs", "divs", "mpds"])
            f, fs = P.product(rng, min(maxdeg(P), 28 // bits), rng.choice([2, 3, 4]))
            if o == "totient" and P.q ** (len(f) - 1) >= 2**30: continue
            g = scaled(P, rng, f) if o != "divs" or rng.random() < .5 else f
            ops.append({"op": o, "a": P.wire(g), "fs": cert(P, fs)})
        if rng.random() < .2: ops.append({"op": "totient", "a": P.wire([rng.randrange(1, P.q)]), "fs": []})
        out.append(sess(R, ops))
    return out


def cyc_mod(P, rng, md):
    """a modulus: irreducible, power of an irreducible, or composite"""
    t = rng.random()
    d = rng.randint(1, md)
    if t < .5:
        f = P.irr(rng, d)
        return f, [(f, 1)]
    return P.product(rng, d, 3)


def c11(rng, n):
    out = []
    for _ in range(n):
        ops = []
        t = rng.random()
        if t < .3:
            for _ in range(6):
                m = rng.choice([rng.choice(PRIMES), rng.randint(2, 120), rng.choice([4, 8, 9, 16, 25, 27, 49, 12, 15, 18, 50, 54]),
                                rng.choice([257, 509, 1009, 2003, 65537, 46337, 30011, 2**16, 3**9, 2 * 5**5])])
                a = rng.choice([0, 1, m - 1, rng.randrange(m), rng.randrange(m)])
                o = rng.choice(["order", "order", "gen", "log", "log"])
                if o == "order": ops.append({"op": o, "m": m, "a": a})
                elif o == "gen": ops.append({"op": o, "m": m if m < 3000 else 257, "fs": []})
                else:
                    m = m if m < 3000 else 1009
                    g = rng.choice([rng.randrange(m), rng.randrange(m), 1, m - 1])
                    a = pow(g, rng.randrange(2 * m), m) if rng.random() < .7 else rng.randrange(m)
                    ops.append({"op": o, "m": m, "g": g, "a": a})
            out.append(sess(Z, ops))
            continue
        R = rings.F2P if t < .7 else rings.poly(rings.f2n(rng.choice([7, 7, 11, 19])))
        P = polyq.PR(R)
        f2 = R["k"] == "f2p"
        for _ in range(6):
            small, fs = cyc_mod(P, rng, 8 if f2 else {4: 4, 8: 3, 16: 2}[P.q])
            m, mfs = cyc_mod(P, rng, 16) if f2 else (small, fs)
            o = rng.choice(["order", "order", "gen", "log", "log"] + (["period", "prim", "prim", "findprim", "randprim"] if f2 else []))
            el = lambda f: P.trim([rng.randrange(P.q) for _ in range(len(f) - 1)])
            if o == "order": ops.append({"op": o, "m": P.wire(m), "a": P.wire(rng.choice([el(m), el(m), [1], []]))})
            elif o == "gen": ops.append({"op": o, "m": P.wire(small), "fs": cert(P, fs)})
            elif o == "log":
                g = el(small)
                a = P.powmod(g, rng.randrange(P.q ** (len(small) - 1)), small) if rng.random() < .7 and g else el(small)
                ops.append({"op": o, "m": P.wire(small), "g": P.wire(g), "a": P.wire(a)})
            elif o == "period": ops.append({"op": o, "m": P.wire(m)})
            elif o == "prim": ops.append({"op": o, "m": P.wire(m), "fs": cert(P, mfs)})
            elif o == "findprim":
                irr = rng.choice([0, 1])
                ops.append({"op": o, "irr": irr, "n": rng.choice([0, -1, rng.randint(1, 14 if irr else 8)])})
            else:
                irr = rng.choice([0, 1])
                ops.append({"op": o, "irr": irr, "n": rng.choice([0, rng.randint(1, 14 if irr else 8)])})
        out.append(sess(R, ops))
    return out


def c16(rng, n):
    out = []
    for _ in range(n):
        ops = []
        t = rng.random()
        if t < .25:
            for _ in range(6):
                m = rng.choice([rng.randint(2, 150), rng.choice(PRIMES)])
                if rng.random() < .6: ops.append({"op": "mlist", "m": m, "t": rng.choice(["all", "units", "nonunits"])})
                else: ops.append({"op": "glist", "m": m, "a": rng.choice([0, 1, rng.randrange(m), rng.randrange(m)]), "t": rng.choice(["multiples", "relprime"])})
            out.append(sess(Z, ops))
            continue
        R = rng.choice([rings.F2P, rings.F2P, rings.fp(rng.choice([2, 3, 5, 7])), rings.poly(rings.f2n(rng.choice([7, 11, 13])))])
        P = polyq.PR(R)
        f2, fp = R["k"] == "f2p", R["k"] == "poly" and R["c"]["k"] == "zm"
        md = {2: 7, 3: 4, 4: 3, 5: 3, 7: 2, 8: 2}[P.q]
        for _ in range(4):
            m, _fs = P.product(rng, rng.randint(1, md), 3)
            o = rng.choice(["plist", "mlist", "mlist"] + (["glist", "An", "Pn"] if f2 else []) + (["An", "Pn"] if fp else []))
            if o == "plist": ops.append({"op": o, "n": rng.randint(0, md - 1)})
            elif o == "mlist": ops.append({"op": o, "m": P.wire(scaled(P, rng, m)), "t": rng.choice(["all", "units", "nonunits"])})
            elif o == "glist":
                a = P.trim([rng.randrange(P.q) for _ in range(len(m) - 1)])
                ops.append({"op": o, "m": P.wire(m), "a": P.wire(a), "t": rng.choice(["multiples", "relprime"])})
            else:
                d = rng.choice([1, 1, 2]) if P.q < 5 else 1
                m = P.irr(rng, d)
                qq = P.q ** d
                k = rng.randint(1, max(1, [i for i in range(1, 8) if qq ** i <= 90][-1]))
                if o == "Pn" and qq ** (k + 1) > 260: k = max(1, k - 1)
                ops.append({"op": o, "m": P.wire(m), "n": k})
        out.append(sess(R, ops))
    return out
