"""Sessions for the register machine (RingMachine.tla)."""
import random
from .rings import *

B_ARITH = "add sub mul iadd isub imul".split()
B_DIV = "div idiv".split()
COMMON = "set set copy asg add sub mul div iadd isub imul idiv neg exp eqs str".split()
SCAL = "sadd ssub smul sdiv isadd issub ismul isdiv ctor1 ctor2 ctor3 setc coef eval promadd prom".split()
POLY = "mod imod cmp qr gcd egcd deriv deg".split()
OPS = {
    "im": COMMON + "mod imod recip addi subi muli psub cmp cmpi mixed".split(),
    "bit": COMMON + "mod imod muli imuli asgi cmp cmpi".split(),
    "q": COMMON + "mod imod muli imuli asgi cmp cmpi".split(),
    "f2p": COMMON + POLY + "muli imuli asgi psub char cmpi ggcd proot parity incr prom promn demote setc setb coef eval evalb base".split(),
    "fpp": COMMON + POLY + SCAL + "psub char cmpi ggcd proot base incr".split(),
    "qp": COMMON + POLY + SCAL + "muli imuli binom cmpi".split(),
    "f2np": COMMON + POLY + SCAL + "psub char ggcd proot cmpi incr".split(),
    "fpnp": COMMON + POLY + SCAL + "psub char ggcd proot cmpi zmul".split(),
    "f2pm": COMMON + "mod imod recip muli imuli psub char cmp cmpi mixed".split(),
    "fppm": COMMON + "mod imod recip muli imuli psub char cmp cmpi mixed zmul izmul".split(),
    "f2npm": COMMON + "mod imod recip muli imuli psub char cmp cmpi mixed".split(),
    "fpnpm": COMMON + "mod imod recip muli imuli psub char cmp cmpi mixed".split(),
    "f2pr": COMMON + "mod imod muli imuli psub char cmp".split(),
    "fppr": COMMON + "mod imod psub char".split(),
    "f2npr": COMMON + "mod imod psub char".split(),
}
UNIT = {"im": "ring_a", "bit": "ring_a", "q": "ring_a", "f2p": "ring_a", "fpp": "ring_b", "qp": "ring_b",
        "f2np": "ring_c", "fpnp": "ring_c", "f2pm": "ring_d", "fppm": "ring_d", "f2npm": "ring_e", "fpnpm": "ring_e",
        "f2pr": "ring_f", "fppr": "ring_f", "f2npr": "ring_f"}
NREG = 4


def coef_ring(R):
    return zm(2) if R["k"] == "f2p" else R.get("c", R)


def session(rng, kind, R, nops, g=None, ops=None, small=False):
    """One random session.  `small`: sources are only registers freshly set
    (the rationals, where results may not fit an int)."""
    g = g or Gen(rng)
    ops = ops or OPS[kind]
    C = coef_ring(R)
    init = [g.el(R) for _ in range(NREG)]
    out, heavy = [], 0
    src = (lambda: rng.randint(1, 2)) if small else (lambda: rng.randint(1, NREG))
    dst = (lambda: rng.randint(3, 4)) if small else (lambda: rng.randint(1, NREG))
    for _ in range(nops):
        o = rng.choice(ops)
        if rng.random() < .12: o = "set"
        e = {"op": o, "d": dst(), "a": src(), "b": src()}
        if o == "set":
            e["d"] = rng.randint(1, 2) if small else rng.randint(1, NREG)
            e["v"] = g.el(R)
            if R["k"] == "frac" and rng.random() < .15:
                e["v"] = [e["v"][0], []]
        elif o == "exp":
            if kind == "bit": e["n"] = rng.randint(1, 9)  # bit_t's zeroth and negative powers of zero are left open
            elif kind in ("im", "f2pm", "fppm", "f2npm", "fpnpm"):
                e["n"] = rng.choice([0, 1, 2, 3, -1, -2, rng.randint(-40, 40), rng.randint(0, 3000)])
            elif R["k"] in ("q",): e["n"] = rng.randint(-3, 4)
            elif R["k"] == "frac": e["n"] = rng.choice([0, 1, 2, -1, -2, 3])
            else: e["n"] = rng.choice([0, 1, 2, 3, -1] + ([] if small else [5]))
        elif o in ("addi", "subi", "muli", "imuli", "asgi", "psub", "zmul", "izmul"):
            e["n"] = rng.choice([0, 1, 2, -1, rng.randint(-12, 12)])
            if kind == "im": e["n"] = rng.choice([0, 1, -1, R["m"] - 1, -R["m"], rng.randint(-2 * 10**9, 2 * 10**9), rng.randint(-50, 50)])
            if o in ("zmul", "izmul"): e["n"] = rng.randint(-9, 20)
            if o == "asgi" and kind not in ("q",): e["n"] = rng.randint(0, 1)
            if o == "asgi" and kind == "f2p": e["n"] = rng.randint(0, 1)
            if kind == "qp" and o in ("muli", "imuli"): e["n"] = rng.randint(-5, 5)
        elif o == "cmpi":
            ch = 2 if kind in ("bit", "f2p", "f2pm", "f2np", "f2npm") else R["m"] if kind == "im" else 10 if R["k"] == "q" or kind == "qp" else None
            if ch is None:
                x = R
                while x["k"] != "zm": x = x["c"]
                ch = x["m"]
            e["n"] = rng.randint(0, min(ch - 1, 5))
        elif o in ("qr", "egcd", "gcd", "ggcd"):
            d = rng.sample([1, 2, 3, 4], 4)
            if small: d = [3, 4, 3, 4] if o != "egcd" else [3, 4, 1, 2]
            e["d"], e["d2"], e["d3"] = d[0], d[1], d[2]
            if small and o != "qr":
                # small integer polynomials: the remainders must fit an int
                for q in (1, 2):
                    out.append({"op": "set", "d": q, "a": 1, "b": 1, "v": norm(Q, [[rng.randint(-2, 2), 1] for _ in range(rng.randint(0, 3))])})
        elif o in ("setc", "setb", "coef"):
            e["n"] = rng.choice([0, 1, rng.randint(0, g.maxdeg + 2), -1 if rng.random() < .3 else 2])
            if kind == "f2p" and g.maxdeg > 40: e["n"] = rng.choice([0, 31, 32, 33, 63, 64, 65, 127, 128, rng.randint(0, g.maxdeg), e["n"]])
            e["v"] = g.el(C)
        elif o in ("eval", "evalb", "sadd", "ssub", "smul", "sdiv", "isadd", "issub", "ismul", "isdiv", "ctor1", "promadd"):
            e["v"] = g.el(C)
            if small and o in ("eval",):
                e["v"] = [rng.randint(-2, 2), 1]
        elif o in ("ctor2", "ctor3"):
            e["v"] = [g.el(C) for _ in range(2 if o == "ctor2" else 3)]
        elif o == "promn":
            e["n"] = rng.choice([0, 1, 2, 31, 32, 33, 63, 64, 65, 100]) if g.maxdeg > 40 else rng.randint(0, 4)
        elif o == "base":
            e["n"] = rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, 1000)])
        elif o == "binom":
            e["v"] = [g.el(C), rng.randint(0, 5), g.el(C), rng.randint(0, 5)]
            if e["v"][1] == e["v"][3]: e["v"][3] += 1
        elif o == "mixed":
            R2 = dict(R)
            if kind == "im": R2["m"] = R["m"] + rng.choice([1, 2, 3])
            else:
                m = [list(x) if isinstance(x, list) else x for x in R["m"]]
                if kind == "f2pm": m = sorted(set(m) ^ {rng.choice([0, 1])}) ; m = m if m and max(m) == max(R["m"]) else sorted(set(R["m"]) | {max(R["m"]) + 1})
                else: m = [zero(R["c"]["c"])] + m
                R2["m"] = m
            e["ring2"] = R2
            e["v"] = g.el(R2)
            e["w"] = rng.choice(["add", "sub", "mul", "div", "iadd", "imul"])
        if o in ("mul", "imul", "exp", "promn", "add") and kind in ("f2p", "fpp", "f2np", "fpnp", "f2pr", "fppr", "f2npr", "qp"):
            heavy += {"exp": 3, "mul": 1, "imul": 1}.get(o, 0)
            if R["k"] == "frac": heavy += 1 if o == "add" else 0
            if heavy > 4 and o != "add":
                e = {"op": "set", "d": dst() if not small else rng.randint(1, 2), "v": g.el(R), "a": 1, "b": 1}
                heavy -= 2
        if small and e["op"] in ("iadd", "isub", "imul", "idiv", "imod", "incr", "prom", "promadd", "isadd", "issub", "ismul", "isdiv", "imuli", "demote"):
            # in-place on a copy, so that operands stay small
            out.append({"op": "asg", "d": e["d"], "a": src(), "b": 1})
        if e["op"] == "exp" and R["k"] in ("f2p", "poly", "frac"):
            # raise small things only
            out.append({"op": "set", "d": e["a"], "v": g.el(R, min(g.maxdeg, 20)) if R["k"] != "frac" else g.el(R), "a": 1, "b": 1})
        out.append(e)
    # the machine records every field
    return {"k": kind, "ring": R, "init": init, "ops": out}


def rings_for(kind, rng, tier):
    """Ring descriptors worth visiting for a kind."""
    if kind == "im":
        ms = [1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 30, 97, 100, 256, 1001, 32767, 46337, 46341, 65521, 65536, 65537, 99991,
              1000003, 1073741824, 1073741827, 2147483629, 2147483647, 2147483646]
        return [zm(m) for m in ms] + [zm(rng.randint(2, 2**31 - 1)) for _ in range(6)] + [zm(rng.randint(2, 200)) for _ in range(6)]
    if kind == "bit": return [zm(2)]
    if kind == "q": return [Q]
    if kind == "f2p": return [F2P]
    if kind == "fpp": return [fp(p) for p in (2, 3, 5, 7, 11, 13, 101, 46337, 65537)]
    if kind == "qp": return [poly(Q)]
    if kind == "f2np": return [poly(f2n(m)) for m in (2, 7, 11, 13, 19, 31, 0x11b)]
    if kind == "fpnp": return [poly(fpn(p, m)) for p, m in ((2, [1, 1, 1]), (3, [1, 0, 1]), (3, [2, 1, 1]), (5, [2, 0, 1]), (7, [1, 0, 1]), (3, [1, 2, 0, 1]), (11, [1, 0, 1]))]
    if kind == "f2pm":
        return [f2n(m) for m in (2, 3, 4, 5, 6, 7, 11, 12, 13, 16, 19, 21, 31, 0x11b, 0x100, (1 << 32) | 0x8d, (1 << 33) + 9, (1 << 63) + 3, (1 << 64) | 0x1b, (1 << 65) + 5, (1 << 100) + 7)]
    if kind == "fppm":
        return [fpn(p, m) for p, m in ((2, [1, 1, 1]), (2, [0, 0, 1]), (3, [1, 0, 1]), (3, [2, 0, 1]), (5, [2, 0, 1]), (5, [0, 3]), (5, [1, 2, 3]), (7, [0, 1, 0, 2]), (3, [1, 2, 0, 1]), (13, [1, 2, 3, 4]), (11, [1, 1, 0, 0, 1]), (10007, [3, 0, 5]))]
    if kind == "f2npm":
        return [quot(poly(f2n(m)), mm) for m, mm in ((2, [[0], [0], [0]]), (7, [[1], [0], [0]]), (7, [[0, 1], [0], [1]]), (7, [[0], [1]]), (11, [[1], [1], [0, 2]]), (19, [[0], [], [0], [0]]), (7, [[], [], [0]]), (11, [[0], [0], [0]]))]
    if kind == "fpnpm":
        return [quot(poly(fpn(p, m)), mm) for p, m, mm in ((3, [1, 0, 1], [[1], [1], [1]]), (3, [1, 0, 1], [[0, 1], [], [1]]), (2, [1, 1, 1], [[1], [0, 1], [1]]), (5, [2, 0, 1], [[1, 1], [2, 3]]), (3, [1, 0, 1], [[1], [2], [1, 2]]), (5, [2, 0, 1], [[], [], [1]]))]
    if kind == "f2pr": return [frac(F2P)]
    if kind == "fppr": return [frac(fp(p)) for p in (2, 3, 5, 7, 13)]
    if kind == "f2npr": return [frac(poly(f2n(m))) for m in (7, 11, 2)]


def gen_for(kind, R, rng, i):
    if kind == "f2p": return Gen(rng, [8, 40, 70, 140, 200][i % 5])
    if kind == "f2pm": return Gen(rng, 8)
    if kind in ("fpp",): return Gen(rng, [3, 6, 10][i % 3])
    if kind == "qp": return Gen(rng, 3, 3)
    if kind == "q": return Gen(rng, 3, [4, 12, 100][i % 3])
    if kind in ("f2np", "fpnp"): return Gen(rng, [2, 3, 5][i % 3])
    if R["k"] == "frac": return Gen(rng, [2, 3, 5][i % 3] if kind != "f2pr" else [3, 6, 12][i % 3])
    return Gen(rng, 6)


def sessions(kind, seed, n, nops=14, tier="quick"):
    rng = random.Random("%s-%s" % (seed, kind))
    rs = rings_for(kind, rng, tier)
    out = []
    for i in range(n):
        R = rs[i % len(rs)]
        out.append(session(rng, kind, R, nops, gen_for(kind, R, rng, i // len(rs)), small=kind in ("q", "qp")))
    return out
