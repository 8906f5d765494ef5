"""Polynomials over small finite fields, used only to build interesting inputs
(products of known irreducibles, with their factorization as a certificate
that the specification verifies)."""
from . import rings


class Field:
    """F_p (ring zm) or F_2^n (ring quot f2p); elements are 0..q-1."""
    def __init__(self, C):
        self.C = C
        if C["k"] == "zm":
            self.q = self.p = C["m"]
            self.n = 1
        else:
            self.p = 2
            self.m = sum(1 << i for i in C["m"])
            self.n = self.m.bit_length() - 1
            self.q = 1 << self.n

    def add(self, a, b): return (a + b) % self.p if self.n == 1 and self.C["k"] == "zm" else a ^ b
    def neg(self, a): return (-a) % self.p if self.C["k"] == "zm" else a

    def mul(self, a, b):
        if self.C["k"] == "zm": return a * b % self.p
        r = 0
        while b:
            if b & 1: r ^= a
            b >>= 1
            a <<= 1
            if a >> self.n & 1: a ^= self.m
        return r

    def inv(self, a):
        r, e = 1, self.q - 2
        while e:
            if e & 1: r = self.mul(r, a)
            a = self.mul(a, a)
            e >>= 1
        return r

    def wire(self, a): return a if self.C["k"] == "zm" else rings.bits(a)


class PR:
    """F[x]; polynomials are coefficient lists, low first, no trailing zero."""
    def __init__(self, R):
        self.R = R
        self.F = Field(rings.zm(2) if R["k"] == "f2p" else R["c"])
        self.q = self.F.q

    def wire(self, f):
        if self.R["k"] == "f2p": return [i for i, c in enumerate(f) if c]
        return [self.F.wire(c) for c in f]

    @staticmethod
    def trim(f):
        f = list(f)
        while f and not f[-1]: f.pop()
        return f

    def add(self, f, g):
        n = max(len(f), len(g))
        f, g = list(f) + [0] * (n - len(f)), list(g) + [0] * (n - len(g))
        return self.trim([self.F.add(a, b) for a, b in zip(f, g)])

    def mul(self, f, g):
        if not f or not g: return []
        o = [0] * (len(f) + len(g) - 1)
        F = self.F
        for i, a in enumerate(f):
            if a:
                for j, b in enumerate(g):
                    if b: o[i + j] = F.add(o[i + j], F.mul(a, b))
        return self.trim(o)

    def mod(self, f, g):
        f = list(f)
        F = self.F
        li = F.inv(g[-1])
        while len(f) >= len(g):
            c = F.mul(f[-1], li)
            if c:
                s = len(f) - len(g)
                for i, b in enumerate(g): f[s + i] = F.add(f[s + i], F.neg(F.mul(c, b)))
            f.pop()
        return self.trim(f)

    def gcd(self, f, g):
        while g: f, g = g, self.mod(f, g)
        return f

    def powmod(self, f, e, m):
        r = [1]
        f = self.mod(f, m)
        while e:
            if e & 1: r = self.mod(self.mul(r, f), m)
            f = self.mod(self.mul(f, f), m)
            e >>= 1
        return r

    def irred(self, f):
        n = len(f) - 1
        if n < 1: return False
        if n == 1: return True
        x = [0, 1]
        xs = [x]
        for _ in range(n): xs.append(self.powmod(xs[-1], self.q, f))
        if xs[n] != x: return False
        for p in range(2, n + 1):
            if n % p == 0 and all(p % d for d in range(2, p)):
                g = self.gcd(f, self.add(xs[n // p], [self.F.neg(c) for c in x]))
                if len(g) != 1: return False
        return True

    def rand(self, rng, d, monic=True):
        return [rng.randrange(self.q) for _ in range(d)] + [1 if monic else rng.randrange(1, self.q)]

    def irr(self, rng, d):
        while True:
            f = self.rand(rng, d)
            if self.irred(f): return f

    def product(self, rng, maxdeg, parts=4, maxexp=None):
        """-> (monic f, [(irreducible, exponent)...]) of degree <= maxdeg"""
        f, fs, left = [1], {}, maxdeg
        for _ in range(rng.randint(1, parts)):
            if left < 1: break
            d = rng.randint(1, min(left, rng.choice([1, 2, 3, 5, left])))
            g = self.irr(rng, d)
            e = rng.randint(1, max(1, min(left // d, maxexp or rng.choice([1, 1, 2, 3, self.F.p, 2 * self.F.p]))))
            fs[tuple(g)] = fs.get(tuple(g), 0) + e
            left -= d * e
            for _ in range(e): f = self.mul(f, g)
        return f, [(list(g), e) for g, e in fs.items()]
