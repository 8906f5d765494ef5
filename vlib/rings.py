"""Ring descriptors and random elements, in the wire format of the drivers."""
import random

def zm(m): return {"k": "zm", "m": m}
F2P = {"k": "f2p"}
Q = {"k": "q"}
Z = {"k": "z"}
def poly(c): return {"k": "poly", "c": c}
def quot(c, m): return {"k": "quot", "c": c, "m": m}
def frac(c): return {"k": "frac", "c": c}
def fp(p): return poly(zm(p))
def bits(n): return [i for i in range(n.bit_length()) if n >> i & 1]
def f2n(m): return quot(F2P, bits(m))            # F2[x]/m, m as an integer
def fpn(p, m): return quot(fp(p), list(m))

def zero(R):
    if R["k"] == "frac": return [[], one(R["c"])]
    return {"zm": 0, "q": [0, 1], "z": 0}.get(R["k"], [])

def one(R):
    k = R["k"]
    if k == "zm": return 1 % R["m"]
    if k == "z": return 1
    if k == "q": return [1, 1]
    if k == "f2p": return [0]
    if k == "poly": return [one(R["c"])]
    if k == "quot": return one(R["c"])
    if k == "frac": return [one(R["c"]), one(R["c"])]

def norm(C, s):
    s = list(s)
    while s and s[-1] == zero(C): s.pop()
    return s

def gcd(a, b):
    while b: a, b = b, a % b
    return abs(a)

class Gen:
    """Random elements with the shapes that matter: zero, one, monomials,
    word-boundary degrees, sparse, dense, products of small things."""
    def __init__(self, rng, maxdeg=6, qmax=9):
        self.r, self.maxdeg, self.qmax = rng, maxdeg, qmax

    def deg(self, maxdeg=None):
        return self.r.randint(0, self.maxdeg if maxdeg is None else maxdeg)

    def el(self, R, maxdeg=None):
        r, k = self.r, R["k"]
        if k == "zm":
            m = R["m"]
            return r.choice([0, 1 % m, m - 1, m // 2, r.randrange(m), r.randrange(m), r.randrange(m)])
        if k == "q":
            if r.random() < .15: return [0, 1]
            n, d = r.randint(-self.qmax, self.qmax), r.randint(1, self.qmax)
            g = gcd(n, d) or 1
            return [n // g, d // g]
        if k == "f2p": return self.f2(maxdeg)
        if k == "poly":
            C = R["c"]
            t = r.random()
            if t < .06: return []
            d = self.deg(maxdeg)
            if t < .14: return norm(C, [self.el(C)])
            if t < .22: return [zero(C)] * d + [self.nz(C)]
            if t < .32:
                s = [zero(C)] * (d + 1)
                for _ in range(2): s[r.randint(0, d)] = self.el(C)
                return norm(C, s)
            return norm(C, [self.el(C) for _ in range(d)] + [self.nz(C)])
        if k == "quot":
            P = R["c"]
            d = (max(R["m"]) if P["k"] == "f2p" else len(R["m"]) - 1)
            if d == 0: return []
            x = self.el(P, d - 1)
            return x
        if k == "frac":
            a = self.el(R["c"], maxdeg)
            b = self.nz(R["c"], maxdeg)
            return [a, b]

    def nz(self, R, maxdeg=None):
        for _ in range(50):
            x = self.el(R, maxdeg)
            if R["k"] == "frac":
                if x[0] != []: return x
            elif x != zero(R): return x
        return one(R)

    def f2(self, maxdeg=None):
        r = self.r
        md = self.maxdeg if maxdeg is None else maxdeg
        t = r.random()
        if t < .05: return []
        if t < .10: return [0]
        if md > 40 and t < .35:
            d = r.choice([31, 32, 33, 62, 63, 64, 65, 95, 127, 128, 129, 191, 192])
            d = min(d, md)
        elif t < .6: d = r.randint(0, min(md, 12))
        else: d = r.randint(0, md)
        u = r.random()
        if u < .15: return [d]
        if u < .3: return sorted(set([d] + [r.randint(0, d) for _ in range(3)]))
        if u < .4: return list(range(d + 1))
        if u < .5 and d > 40:   # a hole of zero words
            return sorted(set([d] + [i for i in range(0, min(d, 30)) if r.random() < .5]))
        return [i for i in range(d) if r.random() < .5] + [d]

    def irr_f2(self, n):
        return IRR2[n]

def pmul(R, a, b):
    """product in poly over zm or f2p (for building structured inputs)"""
    if R["k"] == "f2p":
        s = set()
        for i in a:
            s ^= {i + j for j in b}
        return sorted(s)
    if R["c"]["k"] == "zm":
        m = R["c"]["m"]
        if not a or not b: return []
        o = [0] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                o[i + j] = (o[i + j] + x * y) % m
        return norm(R["c"], o)
    raise ValueError

IRR2 = {1: 2, 2: 7, 3: 11, 4: 19, 5: 37, 6: 67, 7: 131, 8: 283, 9: 515, 10: 1033}
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101]
