"""Sessions of calls for LpTrace (C15)."""
from . import rings, polyq

F2M = [7, 11, 13, 19, 25, 31, 37, 41, 67, 73, 131, 2, 3]


def ring(rng):
    t = rng.random()
    if t < .35: return rings.F2P
    if t < .65: return rings.fp(rng.choice([2, 3, 3, 5, 5, 7, 11, 13]))
    return rings.poly(rings.f2n(rng.choice(F2M)))


def similar(P, rng, A):
    """Conjugate A by random elementary matrices."""
    F, n = P.F, len(A)
    for _ in range(2 * n if n > 1 else 0):
        i, j = rng.sample(range(n), 2)
        c = rng.randrange(P.q)
        for k in range(n): A[i][k] = F.add(A[i][k], F.mul(c, A[j][k]))
        for k in range(n): A[k][j] = F.add(A[k][j], F.neg(F.mul(c, A[k][i])))
    return A


def matrix(P, rng, n):
    F = P.F
    A = [[0] * n for _ in range(n)]
    t = rng.random()
    if t < .3:
        dens = rng.choice([.3, .7, 1])
        return [[rng.randrange(P.q) if rng.random() < dens else 0 for _ in range(n)] for _ in range(n)]
    i = 0
    pool = [rng.randrange(P.q) for _ in range(2)]
    while i < n:                                 # Jordan and companion blocks
        b = rng.randint(1, min(3, n - i))
        if t < .5: b = 1
        if t < .75:
            lam = rng.choice(pool)
            for k in range(b):
                A[i + k][i + k] = lam
                if k + 1 < b: A[i + k][i + k + 1] = 1
        else:
            f = P.rand(rng, b) if rng.random() < .5 else P.irr(rng, b)
            for k in range(1, b): A[i + k][i + k - 1] = 1
            for k in range(b): A[i][i + b - 1 - k] = F.neg(f[k] if k < len(f) else 0)
        i += b
    return similar(P, rng, A) if rng.random() < .8 else A


def wm(P, A): return [[P.F.wire(x) for x in r] for r in A]


def primefac(n):
    r, d = [], 2
    while d * d <= n:
        if n % d == 0:
            r.append(d)
            while n % d == 0: n //= d
        d += 1
    return r + ([n] if n > 1 else [])


def primitive(P, rng, m):
    n = len(m) - 1
    N = 2 ** n - 1
    if N == 1: return [1]
    qs = primefac(N)
    while True:
        g = P.trim([rng.randrange(2) for _ in range(n)])
        if g and all(P.powmod(g, N // q, m) != [1] for q in qs): return g


def subfield_el(P, rng, m):
    """An element of R/m, often of a proper subfield."""
    n = len(m) - 1
    a = P.trim([rng.randrange(P.q) for _ in range(n)])
    if rng.random() < .5 and a:
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = rng.choice(ds)
        a = P.powmod(a, (P.q ** n - 1) // (P.q ** d - 1), m)
    return a


def sessions(rng, n, big=False):
    out = []
    for _ in range(n):
        R = ring(rng)
        P = polyq.PR(R)
        f2 = R["k"] == "f2p"
        ext = not f2 and R["c"]["k"] == "quot"
        ops = []
        for _ in range(5):
            t = rng.random()
            if t < .3:
                k = rng.randint(1, (6 if big else 5) if P.q <= 5 else 4)
                ops.append({"op": "mchar", "A": wm(P, matrix(P, rng, k))})
                if rng.random() < .04: ops.append({"op": "mchar", "A": wm(P, [r[:-1] for r in matrix(P, rng, k + 1)])})
            elif t < .4:
                ops.append({"op": "comp", "f": P.wire(P.rand(rng, rng.randint(1, 7)))})
            elif t < .7:
                d = rng.choice([1, 2, 3, 4, 4, 6, 6, 8, 12 if f2 else 5, 9 if f2 else 3, 16 if f2 else 4]) if P.q <= 4 else rng.randint(1, 4)
                if ext and P.q ** d > 2 ** 12 or P.q ** d > 2 ** 18: d = 2
                m = P.irr(rng, d)
                ops.append({"op": "el", "m": P.wire(m), "a": P.wire(subfield_el(P, rng, m))})
            elif t < .8:
                q, ln = P.q, rng.randint(1, 6)
                k = rng.choice([rng.randrange(min(q ** ln, 2 ** 31 - 1)), min(q ** ln, 2 ** 31 - 1) - 1, rng.randrange(2 ** 31 - 1), 0])
                if ext and P.R["c"]["m"] in ([1], [0, 1]): k, ln = k % 2 ** 20, ln
                ops.append({"op": "vec", "n": k, "len": ln})
                if f2: ops.append({"op": "matrep", "n": k, "rows": rng.randint(1, 6), "cols": rng.randint(1, 5)})
            elif f2:
                n1 = rng.randint(1, 6 if not big else 8)
                n2 = n1 if rng.random() < .5 else rng.choice([n1 * rng.randint(1, 4), rng.randint(1, 9)])
                if n2 > 8: n2 = n1
                m1, m2 = P.irr(rng, n1), P.irr(rng, n2)
                g = primitive(P, rng, m1)
                el = lambda: P.wire(P.trim([rng.randrange(2) for _ in range(n1)]))
                ops.append({"op": "conv", "m": P.wire(m1), "m2": P.wire(m2), "g": P.wire(g),
                            "as": [el() for _ in range(12)] if n1 > 3 else [rings.bits(i) for i in range(2 ** n1)],
                            "p": [el() for _ in range(rng.randint(0, 4))] + [[0]], "A": [[el(), el()], [el(), el()]][:rng.randint(1, 2)]})
            elif ext and P.q <= 16:
                k = rng.randint(1, {2: 5, 4: 4, 8: 3}.get(P.q, 2))
                ops.append({"op": "diag", "A": wm(P, matrix(P, rng, k))})
        if ops: out.append({"k": "lp", "ring": R, "ops": ops})
    return out
