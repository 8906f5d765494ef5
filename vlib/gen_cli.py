"""Random calculator expressions (C19): input generation only."""
import random
import re
from . import gen_ring
from .rings import *
from .texts import print_text


def codes(s): return [ord(c) for c in s]


def etext(R, x): return print_text(R, x)


def gel(g, R):
    return g.r.choice([0, 1, -1, 2, -3, 5]) if R["k"] == "z" else g.el(R, 1 if R["k"] == "frac" else 2)


def vtext(g, R, n): return "[" + " ".join(etext(R, gel(g, R)) for _ in range(n)) + "]"


def mtext(g, R, m, n):
    rng = g.r
    rows = []
    for _ in range(m):
        if rows and rng.random() < .15: rows.append(rng.choice(rows))
        else: rows.append(" ".join(etext(R, zero(R) if rng.random() < .2 else gel(g, R)) for _ in range(n)))
    sep = rng.choice(["", " "])
    return "[" + sep.join("[" + r + "]" for r in rows) + "]"


FUNS = "inv det rank kerbas rr rech rechr rrnz rechnz transpose".split()


class Expr:
    def __init__(self, rng, R, mode, g, fld, kind):
        self.r, self.R, self.mode, self.g, self.fld, self.kind = rng, R, mode, g, fld, kind
        self.n = rng.choice([1, 2, 2, 3])
        if R["k"] == "frac" and mode == "mat": self.n = rng.choice([1, 2])
        self.small = R["k"] in ("z", "q") or (R["k"] == "poly" and R["c"]["k"] == "q")

    def lit(self):
        r, R, g = self.r, self.R, self.g
        if self.mode == "vec": return vtext(g, R, self.n if r.random() < .93 else r.choice([1, 2, 3]))
        if self.mode == "mat":
            if r.random() < .9: return mtext(g, R, self.n, self.n)
            return mtext(g, R, r.choice([1, 2, 3]), r.choice([1, 2, 3]))
        if R["k"] == "z": return str(r.choice([0, 1, -1, 2, 7, 12, r.randint(-99, 99), r.randint(-9999, 9999)]))
        if R["k"] == "poly" and R["c"]["k"] == "q":
            d = r.randint(0, 2)
            return ",".join(str(r.randint(0, 3)) for _ in range(d + 1)) if d else str(r.randint(0, 9))
        if R["k"] == "zm" and r.random() < .2: return str(r.randint(-3 * min(R["m"], 10**6), 3 * min(R["m"], 10**6)))
        x = g.el(R)
        if R["k"] == "frac" and r.random() < .5: return etext(R["c"], g.el(R["c"], 4))
        return etext(R, x)

    def power(self):
        r = self.r
        if self.mode == "el" and self.R["k"] in ("zm", "quot"): return r.choice([0, 1, 2, 3, -1, -2, 5, 17, 255, 1000003, -7, 123456789])
        if self.mode == "el" and self.small: return r.choice([0, 1, 2, 2, 3, -1, 4])
        if self.mode == "el": return r.choice([0, 1, 2, 2, 3, 5, 7, -1])
        if self.mode == "mat" and not self.fld: return r.choice([1, 2, 2, 3])   # powers need a field's inverse
        if self.small: return r.choice([1, 2, 2, 0, -1])
        return r.choice([0, 1, 2, 3, -1, 5, -2, 8])

    def atom(self, d):
        r = self.r
        if d <= 0 or r.random() < .4: return [self.lit()]
        o, c = r.choice([("(", ")"), ("(", ")"), ("[", "]")])
        return [o] + self.e(d - 1) + [c]

    def u(self, d):
        r = self.r
        t = self.atom(d)
        if r.random() < (.15 if self.small and self.mode == "mat" else .25):
            p = [str(self.power())]
            if r.random() < .2: p = ["("] + p + [")"]
            t = t + ["^"] + p
            if r.random() < .1: t = t + ["^", str(r.choice([1, 2, 3]))]
        return t

    def f(self, d):
        r = self.r
        x = r.random()
        if x < .15: return [r.choice("+--")] + self.u(d)
        if self.mode == "mat" and x < .55:
            fs = FUNS if self.fld else ["transpose"]
            return [r.choice(fs)] + self.u(d)
        return self.u(d)

    def t(self, d):
        r = self.r
        t = self.f(d)
        ops = ["*", "*", ".", "/", "%"] if self.mode == "el" else ["*", "."]
        while r.random() < .4: t = t + [r.choice(ops)] + self.f(d - 1)
        return t

    def e(self, d):
        r = self.r
        t = self.t(d)
        while r.random() < .45: t = t + [r.choice("+-")] + self.t(d - 1)
        return t

    def top(self, d):
        r = self.r
        t = self.e(d)
        x = r.random()
        if x < .15: t = t + [r.choice(["==", "!=", "/="])] + self.e(d - 1)
        elif x < .3 and self.mode == "el": t = t + [r.choice(["<", "<=", ">", ">="])] + self.e(d - 1)
        elif x < .33 and self.mode == "el": t = t + ["<"] + self.e(d - 1) + [r.choice(["<", "=="])] + self.e(d - 1)
        return t

    def mutate(self, t):
        r = self.r
        t = list(t)
        k = r.random()
        i = r.randrange(len(t) + 1)
        toks = ["+", "-", "*", "^", "(", ")", "==", "zz", self.lit(), "[", "]", "2"]
        if self.mode == "el": toks += ["/", "%", "<", ">="]
        else: toks += ["inv", "det", "rank"] if self.mode == "mat" and self.fld else ["q", "x"]
        if k < .35 and t: del t[min(i, len(t) - 1)]
        elif k < .7: t.insert(i, r.choice(toks))
        elif t:
            t[min(i, len(t) - 1)] = r.choice(toks)
        return t


ELS = ["z", "im", "bit", "q", "f2p", "fpp", "qp", "f2np", "fpnp", "f2pm", "fppm", "f2npm", "fpnpm", "f2pr", "fppr", "f2npr"]
VECS = ["im", "bit", "q", "f2pm", "fppm", "f2npm"]
MATS = ["z", "im", "bit", "q", "f2pm", "fppm", "f2npm", "fpnpm", "f2p", "fpp", "f2np", "fpnp", "f2pr", "fppr", "f2npr"]
FIELDS = {"im": [zm(p) for p in (2, 3, 5, 7, 101, 46337)], "bit": [zm(2)], "q": [Q], "f2pm": [f2n(7), f2n(11), f2n(19), f2n(0x11b)],
          "fppm": [fpn(3, [1, 0, 1]), fpn(5, [2, 0, 1]), fpn(2, [1, 1, 1]), fpn(7, [1, 0, 1])],
          "f2npm": [quot(poly(f2n(7)), [[0, 1], [0], [0]])], "fpnpm": [quot(poly(fpn(3, [1, 0, 1])), [[0, 1], [], [0]])]}


def rings(kind, mode):
    if kind == "z": return [Z]
    if mode == "el": return gen_ring.rings_for(kind, random.Random("calc"), "quick")
    if mode == "mat" and kind == "fpnpm": return [FIELDS["fppm"][0]] and gen_ring.rings_for(kind, random.Random("calc"), "quick")
    return FIELDS.get(kind) or gen_ring.rings_for(kind, random.Random("calc"), "quick")


def gen(kind, R, mode, rng, i):
    if mode != "el": return Gen(rng, 2, 3)
    if kind == "z": return Gen(rng)
    if kind == "f2p": return Gen(rng, [8, 20, 40][i % 3])
    return gen_ring.gen_for(kind, R, rng, i) if kind not in ("q",) else Gen(rng, 3, 9)


def expr(rng, kind, mode, i):
    rs = rings(kind, mode)
    R = rs[i % len(rs)]
    fld = mode != "el" and kind in FIELDS and kind != "fpnpm"
    x = Expr(rng, R, mode, gen(kind, R, mode, rng, i), fld, kind)
    small = (x.small or R["k"] == "frac") and mode != "el"
    t = x.top(rng.choice([0, 1] if small else [0, 1, 2, 2, 3] if mode == "el" else [0, 1, 1, 2]))
    lim = 7 if small else 40
    t = t[:lim]
    while rng.random() < .25: t = x.mutate(t)
    return R, fld, tame(t)


def tame(t):
    """Keep exponents small: a mutation may put any literal after a caret."""
    t, arm, prod = list(t), False, 1
    for i, w in enumerate(t):
        if w == "^": arm = True
        elif arm and w not in "([+-":
            m = re.match(r"-?\d+", w)
            if m and len(m.group()) > 2: t[i] = m = "2"
            if m and prod * max(1, abs(int(t[i] if m == "2" else m.group()))) > 40: t[i] = m = "1"
            elif m: prod *= max(1, abs(int(t[i] if m == "2" else m.group())))
            arm = False
    return t


def sessions(rng, per, nops=12):
    """In-process calculators: sessions of several expressions over one ring."""
    out = []
    for mode, kinds in (("el", ELS), ("vec", VECS), ("mat", MATS)):
        for kind in kinds:
            rs = rings(kind, mode)
            for i in range(per if mode == "el" else max(1, per // 2)):
                ops = []
                for _ in range(nops):
                    R, fld, t = expr(rng, kind, mode, i)
                    ops.append({"op": "calc", "v": [codes(w) for w in t]})
                out.append({"k": "calc_" + kind, "ring": R, "mode": mode, "fld": int(fld), "ops": ops})
    return out
