"""Histories with coinciding operands (C20), instantiated per class."""
import random
from . import gen_ring
from .rings import *


def pool(rng, kind, R, i):
    """Values of different sizes: zero, one, constants, small, spanning words."""
    g = gen_ring.gen_for(kind, R, rng, i)
    if kind == "f2p": g = Gen(rng, [6, 40, 75][i % 3])
    vs = [g.el(R) for _ in range(4)]
    if kind == "f2p": vs += [[], [0], [rng.choice([31, 32, 33, 63, 64, 65, 70])], sorted({0, 64, rng.randint(1, 63)})]
    elif R["k"] == "poly": vs += [[], norm(R, [one(R["c"])]), g.el(R, 1)]
    elif R["k"] == "frac": vs += [[zero(R["c"]), one(R["c"])], [one(R["c"]), one(R["c"])]]
    elif R["k"] == "zm": vs += [0, 1 % R["m"], R["m"] - 1]
    elif R["k"] == "q": vs += [[0, 1], [1, 1], [-1, 2]]
    elif R["k"] == "quot": vs += [zero(R["c"]), one(R["c"])] if not (R["c"]["k"] == "f2p" and R["m"] == [0]) else []
    return vs


def sessions(rng, kind, hists, per):
    out = []
    rs = gen_ring.rings_for(kind, rng, "quick")
    legal = set(gen_ring.OPS[kind])
    hists = [h for h in hists if all(e["op"] in legal for e in h)]
    # a fraction's or rational's parts grow with every product
    cheap = kind in ("q", "qp") or rs[0]["k"] == "frac"
    rng.shuffle(hists)
    for i in range(0, len(hists), per):
        R = rs[(i // per) % len(rs)]
        vs = pool(rng, kind, R, i // per)
        ops = []
        for h in hists[i:i + per]:
            if cheap and sum(e["op"] in ("imul", "mul", "idiv", "div", "imod", "mod") for e in h) > (1 if R["k"] == "poly" else 2): continue
            ops += [{"op": "set", "d": r, "a": 1, "b": 1, "v": rng.choice(vs)} for r in (1, 2)]
            ops += [dict(e) for e in h]
            ops.append({"op": "eqs", "d": 1, "a": 1, "b": 2})
        out.append({"k": kind, "ring": R, "init": [vs[0], vs[1]], "ops": ops})
    return out
