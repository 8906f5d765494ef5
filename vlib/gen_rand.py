"""Sessions for the generator and the random elements (C17)."""
from . import rings

E0 = [0xffff, 0xffff]


def word(rng):
    t = rng.random()
    if t < .5: return [rng.getrandbits(16), rng.getrandbits(16)]
    if t < .7: return [0xffff, 0xffff - rng.randint(0, 4)]
    return rng.choice([[0, 0], [0, 1], E0, [0x8000, 0], [0x7fff, 0xffff], [0, rng.getrandbits(8)], [0xffff, 0], [0, 0xfffe]])


def ev(op, **k):
    d = {"op": op, "a": 1, "w": [[0, 0], [0, 0]], "f": "", "ring": 0, "n": 0, "N": 0, "r": 0, "x": 0}
    d.update(k)
    return d


F2M = [0b10, 0b11, 0b111, 0b110, 0b1011, 0b1000, 0b10011, 0b100101, 0b1000011]


def target(rng):
    """(f, ring, n)"""
    t = rng.randint(0, 9)
    if t == 0: return rng.choice(["u32", "u64", "int"]), 0, 0
    if t == 1: return "el", rings.zm(rng.choice([2, 3, 4, 5, 6, 7, 10, 16, 97, 65536, 2**31 - 1, 2147483629, 1000003])), 0
    if t == 2: return "poly", rings.F2P, rng.choice([0, 1, 2, 3, 7, 15, 31, 32, 33, 63, 64, 65])
    if t in (3, 4): return "el", rings.f2n(rng.choice(F2M)), 0
    if t == 5: return "poly", rings.fp(rng.choice([2, 3, 5, 7, 101])), rng.randint(0, 5)
    if t == 6:
        p = rng.choice([2, 3, 5, 7])
        return "el", rings.fpn(p, [rng.randrange(p) for _ in range(rng.randint(1, 3))] + [rng.randint(1, p - 1)]), 0
    C = rings.f2n(rng.choice(F2M[1:6]))
    if t in (7, 8): return "poly", rings.poly(C), rng.randint(0, 4)
    C = rings.f2n(rng.choice([0b111, 0b1011, 0b11]))     # the outer modulus has a unit leader
    d = rng.randint(1, 3)
    el = lambda: rings.bits(rng.getrandbits(4) % (1 << max(C["m"])))
    return "el", rings.quot(rings.poly(C), [el() for _ in range(d)] + [[0]]), 0


def base(f, R):
    if f in ("u32", "u64", "int"): return 2
    while R["k"] != "zm":
        if R["k"] == "f2p": return 2
        R = R["c"]
    return R["m"]


def bad(rng):
    t = rng.randint(0, 5)
    if t == 0: return "el", rings.zm(rng.choice([1, 0, -1, -7])), 0
    if t == 1: return "poly", rings.F2P, -rng.randint(1, 3)
    if t == 2: return "poly", rings.fp(rng.choice([1, 0, -3])), rng.randint(0, 3)
    if t == 3: return "el", rings.f2n(rng.choice([0, 1])), 0
    if t == 4: return "poly", rings.fp(3), -1
    return "poly", rings.poly(rings.f2n(0b111)), -rng.randint(1, 3)


def sessions(rng, n, bulk):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(14):
            t = rng.random()
            a = rng.randint(1, 2)
            w = [word(rng), word(rng)]
            if t < .08: ops.append(ev("hash", w=w))
            elif t < .16: ops.append(ev("seed", w=w))
            elif t < .24: ops.append(ev("seedb", w=w))
            elif t < .28: ops.append(ev(rng.choice(["seedtod", "rtod"]), a=a))
            elif t < .36: ops.append(ev("rset", a=a, w=w))
            elif t < .60: ops.append(ev(rng.choice(["ri32", "ri64", "rf32"]), a=a))
            else: ops.append(ev(rng.choice(["i32", "i64", "i64", "f32"])))
        out.append({"k": "rand", "ops": ops})
    for _ in range(n):                       # the same calls after the same seed
        w = [word(rng), word(rng)]
        body = []
        for _ in range(rng.randint(2, 7)):
            if rng.random() < .7:
                f, R, d = target(rng)
                body.append(ev("draw", f=f, ring=R, n=d, N=rng.randint(1, 4)))
            else: body.append(ev(rng.choice(["i32", "i64", "f32"])))
        s = ev("seed", w=[[0, 0], w[1]]) if rng.random() < .5 else ev("seedb", w=w)
        mid = [ev("seed", w=[[0, 0], word(rng)])] + body[:2] if rng.random() < .5 else []
        out.append({"k": "rand", "ops": [s] + body + mid + [s] + body})
    for _ in range(n // 6):
        f, R, d = bad(rng)
        g, Q, c = target(rng)
        out.append({"k": "rand", "ops": [ev("seed", w=[[0, 0], word(rng)]), ev("draw", f=f, ring=R, n=d, N=1),
                                         ev("draw", f=g, ring=Q, n=c, N=2)]})
    for _ in range(bulk):                    # long draws: every value is reached
        f, R, d = target(rng)
        b = base(f, R)
        N = 20 * b * b + 10 if b <= 5 else 20 * b + 10 if b <= 20 else 30
        if f == "poly" and d > 20: N = 90
        out.append({"k": "rand", "ops": [ev("seed", w=[[0, 0], word(rng)]), ev("draw", f=f, ring=R, n=d, N=N)]})
    return out
