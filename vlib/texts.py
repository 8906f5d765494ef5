"""Canonical text of values (input generation only; the judge is Text.tla)."""


def f2hex(a):
    return "%x" % sum(1 << i for i in a)


def print_text(R, v):
    k = R["k"]
    if k in ("zm", "z"): return str(v)
    if k == "q": return str(v[0]) if v[1] == 1 else "%d/%d" % tuple(v)
    if k == "f2p": return f2hex(v)
    if k == "poly":
        C = R["c"]
        if C["k"] == "zm": sep = "," if C["m"] > 9 else ""
        elif C["k"] == "q": sep = ","
        else: sep = ":"
        if not v: v = [0 if C["k"] == "zm" else [0, 1] if C["k"] == "q" else []]
        return sep.join(print_text(C["c"] if C["k"] == "quot" else C, c) for c in reversed(v))
    if k == "quot": return print_text(R["c"], v)
    if k == "frac": return print_text(R["c"], v[0]) + "/" + print_text(R["c"], v[1])
