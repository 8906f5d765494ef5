"""Sessions for stacks and tokens (C21) and cyclotomic polynomials (C22)."""
import math
from . import rings


def stack(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(3, 30)):
            t = rng.random()
            o = "push" if t < .42 else "pop" if t < .75 else "copy" if t < .83 else "asg" if t < .95 else "new"
            k = rng.choice([1, 1, 2, 3, 9, 10, 11, 20, 21, 35]) if rng.random() < .6 else 1
            ops.append({"op": o, "d": rng.randint(1, 3), "a": rng.randint(1, 3), "v": rng.randint(0, 400000), "n": k, "r": 0, "x": 0})
        ops += [{"op": "pop", "d": d, "a": d, "v": 0, "n": 130, "r": 0, "x": 0} for d in (1, 2, 3)]
        out.append({"k": "stack", "t": rng.choice(["int", "str", "poly"]), "ops": ops})
    return out


def toks(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(8):
            al = [rng.choice("ab,; \t[]x1\r\x0b\x0c\n.") for _ in range(rng.randint(1, 5))]
            line = [ord(rng.choice(al)) for _ in range(rng.choice([0, 1, 2, 5, 12, 40, 90]))]
            if rng.random() < .3: line = [rng.choice([9, 10, 11, 12, 13, 32]) for _ in line]
            seps = [ord(c) for c in rng.choice([" ", ",", " \t", ",; ", "", "[", ":"])]
            ops.append({"op": rng.choice(["tok", "tok", "tok", "count", "chomp", "white"]), "line": line, "seps": seps,
                        "max": rng.choice([0, 1, 2, 3, 5, 50, 100]), "r": 0, "x": 0})
        out.append({"k": "tok", "ops": ops})
    return out


def crings(rng):
    t = rng.randint(0, 4)
    p = rng.choice([2, 3, 5, 7, 11, 97, 46337, 1000003])
    if t == 0: return rings.F2P
    if t in (1, 2): return rings.fp(p)
    if t == 3: return rings.poly(rings.f2n(rng.choice([0b11, 0b111, 0b1011, 0b10011, 0b110])))
    p = rng.choice([2, 3, 5, 7])
    return rings.poly(rings.fpn(p, [rng.randrange(p) for _ in range(rng.randint(1, 3))] + [1]))


def char(R):
    if R["k"] == "f2p": return 2
    R = R["c"]
    while "c" in R: R = R["c"]
    return R["m"] if R["k"] == "zm" else 2


def rat(rng, p):
    n, d = rng.choice([0, 0, 1, -1, p, -p, 2 * p, rng.randint(-50, 50), rng.randint(-10**6, 10**6)]), rng.choice([1, 1, 1, 2, 3, 4, rng.randint(1, 60)])
    if rng.random() < .9 and d % p == 0: d = 1
    g = math.gcd(n, d) or 1
    return [n // g, d // g]


def cyc(rng, n):
    Q = rings.poly({"k": "q"})
    out = []
    for _ in range(n):
        ops = []
        for _ in range(6):
            t = rng.random()
            R = crings(rng)
            p = char(R)
            e = {"op": "cyc", "n": rng.choice([rng.randint(-1, 20), rng.randint(1, 60), rng.choice([15, 16, 17, 30, 32, 64, 105, 81, 49, 60, 90])]),
                 "ring": R if t < .7 else Q, "v": [], "r": 0, "x": 0}
            if t < .35:
                v = [rat(rng, p) for _ in range(rng.randint(0, 6))]
                while v and v[-1][0] == 0: v.pop()
                e.update(op="conv", v=v)
            elif t < .45:
                q = rng.choice([0, 2, 3, 5, 7, 101, 46337, 1000003])
                e.update(op="rat", n=q, v=rat(rng, q or 2), ring=Q)
            ops.append(e)
        out.append({"k": "cyc", "ops": ops})
    return out
