"""Texts to read and values to print (C18): input generation only."""
import random
from . import gen_ring
from .rings import *
from .texts import print_text

STREAM_ONLY = ("fppm", "f2npm", "fpnpm")
NO_STRING = ()


def mutate(rng, s, alphabet):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        k = rng.random()
        if k < .35 and s: del s[min(i, len(s) - 1)]
        elif k < .75: s.insert(i, rng.choice(alphabet))
        elif s: s[min(i, len(s) - 1)] = rng.choice(alphabet)
    return "".join(s)


def text(rng, R, v):
    s = print_text(R, v)
    if rng.random() < .2: s = s.upper()
    if rng.random() < .2: s = rng.choice(["0", "00", "0:", "0,", "-"]) + s
    return s


def sessions(rng, kind, n, nops=14):
    out = []
    rs = gen_ring.rings_for(kind, rng, "quick")
    alpha = "0123456789" + {"q": "-/ ", "qp": "-/, ", "im": "- x"}.get(kind, "abfF,:/- gz\t")
    for i in range(n):
        R = rs[i % len(rs)]
        g = gen_ring.gen_for(kind, R, rng, i // len(rs))
        if R["k"] == "zm" and R["m"] > 2: el = lambda: rng.choice([0, 1, R["m"] - 1, rng.randrange(R["m"])])
        else: el = lambda: g.el(R)
        ops = []
        for _ in range(nops):
            e = {"op": rng.choice(["str", "set"] + (["parse", "parse"] if kind not in NO_STRING else []) + ["scan"] + ([] if kind in STREAM_ONLY else ["scani"])),
                 "d": rng.randint(1, 4), "a": rng.randint(1, 4), "b": 1}
            if e["op"] == "set": e["v"] = el()
            elif e["op"] != "str":
                s = text(rng, R, el())
                # a doubtful text may be taken for any value: print it back
                if rng.random() < .3: s = mutate(rng, s, alpha)
                digits = max([0] + [len(w) for w in __import__("re").findall(r"\d+", s)])
                if kind in ("im", "q", "qp", "fpp", "fppm", "fppr") and digits > 9 and print_text(R, el()) != s:
                    # beyond int: keep what the type can hold
                    s = print_text(R, el())
                if e["op"] != "parse": s = rng.choice(["", "", " ", "\n\t "]) + s + rng.choice(["", "", " 1", "\n", " zz", ") 3"])
                elif rng.random() < .1: s = rng.choice([" ", "\t"]) + s
                e["v"] = [ord(c) for c in s]
            ops.append(e)
            if e["op"] in ("parse", "scan", "scani"): ops.append({"op": "str", "a": e["d"], "b": 1, "d": 1})
        out.append({"k": kind, "ring": R, "init": [el() for _ in range(4)], "ops": ops})
    return out
