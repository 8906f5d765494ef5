"""Histories of tfacinfo objects (C10)."""
from . import rings, polyq


def sessions(rng, n, nops=18):
    out = []
    for _ in range(n):
        R = rng.choice([{"k": "z"}, {"k": "z"}, rings.F2P, rings.fp(rng.choice([3, 5, 11])), rings.poly(rings.f2n(rng.choice([7, 11])))])
        P = polyq.PR(R) if R["k"] != "z" else None
        pool = [2, 3, 5, 7, 11] if P is None else [P.wire(P.irr(rng, rng.randint(1, 3))) for _ in range(5)]
        unit = lambda: rng.choice([1, -1]) if P is None else P.wire([rng.randrange(1, P.q)])
        ops = []
        many = rng.random() < .12          # more distinct factors than the initial capacity
        tot = [0, 0, 0]                    # counts, to keep products small
        nreg = 3
        fs = [{} for _ in range(nreg)]
        cap = 9 if P is None else 14
        for _ in range(45 if many else nops):
            o = rng.choice("unit factor factor factor factor1 merge merge expall copy assign assign clear unfactor ndivs divs mpds ith str".split())
            if many: o = rng.choice(["factor1", "factor1", "factor1", "factor1", "str", "ith", "copy", "assign"])
            i, j = rng.randrange(nreg), rng.randrange(nreg)
            c, f = 0, 0
            if o in ("factor", "factor1"):
                f = rng.choice(pool)
                if many: f = rng.choice(rings.PRIMES * 1 + list(range(103, 200, 2))) if P is None else P.wire(P.rand(rng, rng.randint(1, 3)))
                c = 1 if o == "factor1" else rng.randint(1, 3)
                if not many and tot[i] + c > cap: o = "clear"
                else: tot[i] += c
            if o == "unit": f = unit()
            if o == "merge":
                if tot[i] + tot[j] > cap: o = "str"
                else: tot[i] += tot[j]
            if o == "expall":
                c = rng.randint(1, 3)
                if tot[i] * c > cap: o = "str"
                else: tot[i] *= c
            if o in ("copy", "assign"): tot[i] = tot[j]
            if o == "clear": tot[i] = 0
            if o in ("unfactor", "divs", "mpds", "ndivs") and (tot[i] > cap or (many and tot[i] > 4)): o = "str"
            if o == "ith": c = rng.randint(-1, 6)
            ops.append({"op": o, "i": i, "j": j, "f": f, "c": c})
        out.append({"k": "bag", "ring": R, "n": nreg, "ops": ops})
    return out
