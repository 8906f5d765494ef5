"""Sessions for the vector/matrix machine (MatMachine.tla)."""
import random
from .rings import *
from .texts import print_text

UNIT = {"bits": "mat_a", "t_im": "mat_b", "t_bit": "mat_b", "t_q": "mat_b", "t_f2pm": "mat_c", "t_fppm": "mat_c",
        "t_f2p": "mat_d", "t_fpp": "mat_d", "t_f2npm": "mat_e"}

VEC = ("vset vset vnew vfill vcopy vasg vasg vasgs vlen vget vput vadd vsub vmul vdiv viadd visub vimul vneg vsmul vismul "
       "vmultby visdiv vismulself visdivself vexp vdot veq veqs vgcd vlead vsort vswap vtrim vaccum vmat vstr vsqz vcr "
       "vparse vload vbrk mrow vasgself vaccself").split()
MAT = ("mset mset mnew mfill mcopy masg masg masgs mdims mget mput mrow mputrow mcol mputcol madd msub miadd misub mneg "
       "miaddself misubself masgself mputrowself madds msubs miadds misubs msmul mismul mismulself mmul mimul mvec outer transp fliph flipv fliphv findrow makeI "
       "mpred mswap meq meqs paste pastev split trimrows mstr mparse mparse2 mload mbrk mfile").split()
FIELD = "rr rech rrnz rechnz rank kerbas solve inv det mexp chkinv chkker findone".split()
ED = "eddet edinv".split()
TEXT = "vstr vsqz vcr vparse vload vbrk mstr mparse mparse2 mload mbrk mfile".split()
ALIAS = ("vset vcopy vasg vasg vasgself viadd visub vimul visdivself vismulself vaccself vaccum vadd vsub vput vswap mset mcopy masg masg "
         "masgself miadd misub miaddself misubself mimul mimul mismul mismulself mputrowself mputrow mputcol mswap transp paste split mput madd mmul vmat mvec").split()
BITS_NO = set("miaddself misubself masgself mputrowself vasgself vaccself vdiv vneg vmultby visdiv vismulself visdivself vexp vgcd vsort vtrim vaccum vmat vload vbrk msmul mismul "
              "mismulself mcol mputcol fliph flipv fliphv findrow pastev trimrows mbrk mfile rrnz rechnz solve findone".split())
BITS = [o for o in VEC + MAT + FIELD if o not in BITS_NO] + ["vtog", "vzero", "vacc1"]


def ops_for(kind, R, focus=None):
    o = ops_all(kind, R)
    if focus == "containers": return [x for x in o if x not in FIELD + ED]
    if focus == "text": return [x for x in o if x in TEXT] * 2 + [x for x in o if x in ("mset", "vset", "transp", "vcopy")]
    if focus == "alias": return [x for x in o if x in ALIAS]
    if focus == "linalg": return [x for x in o if x in FIELD + ED] * 2 + [x for x in o if x in ("mset", "mmul", "mimul", "mcopy", "transp", "mswap", "paste", "mputrow", "madds")]
    return o


def ops_all(kind, R):
    if kind == "bits": return BITS
    o = VEC + MAT
    if kind in ("t_f2p", "t_fpp"):
        o = [x for x in o if x not in ("vexp",)] + ED + ED + ["vgcd"]
        return o
    if kind == "t_bit": o = [x for x in o if x not in ("vexp",)]
    o = [x for x in o if x != "vgcd"]
    return o + FIELD + FIELD


def vec(g, R, n, zero_p=.35):
    z = zero(R)
    return [z if g.r.random() < zero_p else g.el(R) for _ in range(n)]


def lin(R, rows, rng, F):
    return rows


def mat(g, R, m, n):
    """Matrices of every kind of rank: sparse, repeated rows, triangular, identity."""
    r = g.r
    t = r.random()
    if t < .06: return [[zero(R)] * n for _ in range(m)]
    if t < .14: return [[one(R) if i == j else zero(R) for j in range(n)] for i in range(m)]
    if t < .3:   # few distinct rows
        base = [vec(g, R, n) for _ in range(r.randint(1, 2))]
        return [list(r.choice(base)) for _ in range(m)]
    if t < .45:  # echelon-like with gaps
        return [[zero(R) if j < i + (i > 0) * r.randint(0, 1) else g.el(R) for j in range(n)] for i in range(m)]
    if t < .6:   # permutation-like: needs row exchanges
        p = list(range(max(m, n))); r.shuffle(p)
        return [[g.nz(R) if p[i] == j else zero(R) for j in range(n)] for i in range(m)]
    return [vec(g, R, n, r.choice([0, .2, .5])) for i in range(m)]


def session(rng, kind, R, nops, dims, g=None, wide=None, cap=12, focus=None):
    g = g or Gen(rng, 3)
    ops = ops_for(kind, R, focus)
    sz = lambda: rng.choice(dims)
    d0, d1 = sz(), sz()
    mdim = lambda: rng.choice([(d0, d0), (d0, d0), (d0, d1), (d1, d0), (sz(), sz())])
    vdim = lambda: rng.choice([d0, d0, d1, sz()])
    if wide:      # few rows, many columns: word boundaries at a bearable cost
        w0, w1 = rng.choice(wide), rng.choice(wide)
        mdim = lambda: rng.choice([(d0, w0), (d0, w0), (d1, w0), (d0, w1), (w0, d1), (d0, d0)])
        vdim = lambda: rng.choice([w0, w0, w1, d0])
    def sq(k): return k if k <= cap else rng.choice(dims) if rng.random() < .9 or k > 66 else k
    # shapes of the registers, as far as the generator needs to know them
    V = [vec(g, R, vdim()) for _ in range(3)]
    M = [mat(g, R, *mdim()) for _ in range(3)]
    out = []
    vlen = [len(v) for v in V]
    mdm = [(len(m), len(m[0])) for m in M]
    ch = lambda: rng.randint(1, 3)

    def text_el(x): return print_text(R, x)

    def vtext(v):
        return "".join(text_el(x) + (" " * rng.choice([1, 1, 2]) if i < len(v) - 1 else "") for i, x in enumerate(v))

    def mtext(m, fancy=True):
        s = ""
        if fancy and rng.random() < .3: s += "\n"
        for i, r_ in enumerate(m):
            s += vtext(r_)
            if fancy and kind != "bits" and rng.random() < .2: s += "  # note"
            elif fancy and kind == "bits" and rng.random() < .2: s += "# note"
            if i < len(m) - 1 or rng.random() < .7: s += "\n"
        return s

    def setm(q, A):
        out.append({"op": "mset", "d": q, "v": A}); mdm[q - 1] = (len(A), len(A[0]))

    def setv(q, v):
        out.append({"op": "vset", "d": q, "v": v}); vlen[q - 1] = len(v)

    for _ in range(nops):
        o = rng.choice(ops)
        e = {"op": o, "d": ch(), "a": ch(), "b": ch(), "d2": 1, "n": 0, "n2": 0, "s": zero(R)}
        a, b, d = e["a"] - 1, e["b"] - 1, e["d"] - 1
        # an object that holds nothing is only assigned, compared or filled
        empties = (o.startswith("v") and o not in ("vset", "vnew", "vfill", "vcopy", "vasg", "vasgs", "vlen", "veq", "veqs", "vparse", "vload", "vbrk"))
        if empties or o in ("outer", "mvec", "pastev", "solve", "findrow", "mputcol"):
            for q in (a, b, d):
                if vlen[q] == 0: setv(q + 1, vec(g, R, sz()))
        if o[0] != "v" and o not in ("mset", "mnew", "mfill", "mcopy", "masg", "masgs", "mdims"):
            for q in (a, b, d):
                if mdm[q][0] == 0: setm(q + 1, mat(g, R, sz(), sz()))
        if o in ("vmat",) and mdm[b][0] == 0: setm(b + 1, mat(g, R, vlen[a] or 2, sz()))
        # operands that fit, most of the time
        if rng.random() < .75:
            if o in ("vadd", "vsub", "vmul", "vdiv", "vdot", "veq") and vlen[a] != vlen[b]:
                setv(b + 1, vec(g, R, vlen[a] or 2))
                if not vlen[a]: setv(a + 1, vec(g, R, 2))
            if o in ("viadd", "visub", "vacc1", "vimul", "vaccum") and vlen[d] != vlen[b]:
                setv(b + 1, vec(g, R, vlen[d] or 2))
                if not vlen[d]: setv(d + 1, vec(g, R, 2))
            if o == "vswap" and vlen[a] != vlen[d]: setv(a + 1, vec(g, R, vlen[d] or 2))
            if o in ("madd", "msub", "meq", "paste") and mdm[a] != mdm[b]:
                setm(b + 1, mat(g, R, *(mdm[a] if o != "paste" else (mdm[a][0], sz()))))
            if o in ("miadd", "misub") and mdm[d] != mdm[b]: setm(b + 1, mat(g, R, *mdm[d]))
            if o == "mmul" and mdm[a][1] != mdm[b][0]: setm(b + 1, mat(g, R, mdm[a][1], sz()))
            if o == "mimul" and mdm[d][1] != mdm[b][0]: setm(b + 1, mat(g, R, mdm[d][1], sz()))
            if o == "mvec" and mdm[a][1] != vlen[b]: setv(b + 1, vec(g, R, mdm[a][1]))
            if o == "solve":
                n_ = mdm[a][1]
                if mdm[a][0] < n_: setm(a + 1, mat(g, R, n_ + rng.randint(0, 2), n_))
                if rng.random() < .5 and len(out): setv(b + 1, vec(g, R, mdm[a][0]))
                else:      # a consistent right-hand side
                    setv(b + 1, vec(g, R, n_))
                    out.append({"op": "mvec", "d": b + 1, "a": a + 1, "b": b + 1}); vlen[b] = mdm[a][0]
            if o == "vmat" and mdm[b][0] != vlen[a]: setv(a + 1, vec(g, R, mdm[b][0]))
            if o == "pastev" and mdm[a][0] != vlen[b]: setv(b + 1, vec(g, R, mdm[a][0]))
            if o == "mputcol" and mdm[d][0] != vlen[a]: setv(a + 1, vec(g, R, mdm[d][0]))
            if o == "findrow" and rng.random() < .7 :
                out.append({"op": "mrow", "d": b + 1, "a": a + 1, "n": rng.randrange(mdm[a][0])}); vlen[b] = mdm[a][1]
            if o in ("inv", "det", "mexp", "eddet", "edinv", "madds", "msubs", "makeI", "mpred") and mdm[a][0] != mdm[a][1]:
                k_ = sq(min(mdm[a])); setm(a + 1, mat(g, R, k_, k_))
            if o in ("miadds", "misubs", "miaddself", "misubself") and mdm[d][0] != mdm[d][1]: k_ = sq(mdm[d][0]); setm(d + 1, mat(g, R, k_, k_))
            if o == "vlead" and rng.random() < .3: setv(a + 1, [zero(R)] * (vlen[a] or 1))
        if o in ("inv", "det", "mexp", "eddet", "edinv", "rr", "rech", "kerbas", "rank", "rrnz", "rechnz") and rng.random() < .6:
            q = (d if o in ("rr", "rech") else a)
            dm = mdm[q] if o in ("rr", "rech", "kerbas", "rank", "rrnz", "rechnz") else (sq(max(mdm[q])),) * 2
            if o in ("eddet", "edinv"): dm = (min(3, dm[0]),) * 2
            setm(q + 1, mat(g, R, *dm))
        if o == "chkinv":
            k_ = sq(max(1, mdm[a][0]))
            setm(a + 1, mat(g, R, k_, k_)); setm(b + 1, mat(g, R, k_, k_))
            if a != b: out.append({"op": "inv", "d": b + 1, "a": a + 1})
        if o == "chkker":
            if a == b: b = a % 3; b = (a + 1) % 3; e["b"] = b + 1
            setm(a + 1, [[zero(R)] * mdm[a][1]] + mat(g, R, mdm[a][0], mdm[a][1])[1:])
            if rng.random() < .5: setm(b + 1, mat(g, R, rng.randint(1, 2), mdm[a][1]))
            else:
                setm(b + 1, [[zero(R)] * mdm[a][1]])
                out.append({"op": "kerbas", "d": b + 1, "a": a + 1})
                mdm[b] = None
        if o in ("mputrow",) and vlen[a] != mdm[d][1]: setv(a + 1, vec(g, R, mdm[d][1]))
        # arguments and shape bookkeeping
        if o in ("vset",): e["v"] = vec(g, R, vdim()); vlen[d] = len(e["v"])
        elif o == "vnew": vlen[d] = 0
        elif o == "vfill":
            e["n"] = rng.choice([1, 2, sz(), sz(), 0, -1]); e["s"] = g.el(R)
            if e["n"] > 0: vlen[d] = e["n"]
        elif o in ("vcopy", "vasg"): vlen[d] = vlen[a]
        elif o == "vasgs": e["s"] = g.el(R); vlen[d] = vlen[d] or 1
        elif o == "vget": e["n"] = rng.choice([0, -1, vlen[a] - 1, vlen[a], rng.randrange(vlen[a]), vlen[a] + 70])
        elif o in ("vput", "vtog"): e["n"] = rng.choice([0, -1, vlen[d] - 1, vlen[d], rng.randrange(vlen[d])]); e["s"] = g.el(R)
        elif o in ("vadd", "vsub", "vmul", "vdiv"):
            if vlen[a] == vlen[b]: vlen[d] = vlen[a]
        elif o in ("vneg", "vsmul", "vexp"):
            e["s"] = g.el(R); e["n"] = rng.choice([0, 1, 2, 3, -1]); vlen[d] = None
        elif o in ("vismul", "vmultby", "visdiv", "veqs", "vaccum"): e["s"] = g.el(R); e["s2"] = g.el(R)
        elif o in ("vismulself", "visdivself", "vasgself"): e["n"] = rng.randrange(vlen[d])
        elif o == "vaccself": e["n"], e["n2"] = rng.randrange(vlen[d]), rng.randrange(vlen[d])
        elif o == "mputrowself": e["n"], e["n2"] = rng.randrange(mdm[d][0]), rng.randrange(mdm[d][0])
        elif o == "vtrim":
            e["n"] = rng.choice([1, vlen[d], vlen[d] + 1, 0, rng.randint(1, vlen[d])])
            if 1 <= e["n"] <= vlen[d]: vlen[d] = e["n"]
        elif o == "vmat":
            if vlen[a] == mdm[b][0]: vlen[d] = mdm[b][1]
        elif o in ("vparse", "vload", "vbrk"):
            long = rng.random() < .35        # longer than the scanner's first buffers
            v = vec(g, R, rng.choice([9, 10, 11, 12, 19, 20, 21, 22, 31, 45]) if long else vdim()); s = vtext(v)
            if rng.random() < .15: s = rng.choice(["?" + s, s + " ?", ""]); bad = True
            else: bad = False; vlen[d] = len(v)
            if o == "vbrk":
                s = rng.choice(["[%s]", " [%s] "]) % s
                if not bad and rng.random() < .1: s = s.replace("[", ""); vlen[d] = None
            elif rng.random() < .3: s = s + "\n" + ("junk" if o != "vload" else "")
            e["v"] = [ord(c) for c in s]
            if bad or long: vlen[d] = None
        elif o in ("mrow",):
            e["n"] = rng.choice([0, -1, mdm[a][0], mdm[a][0] - 1, rng.randrange(mdm[a][0])])
            if 0 <= e["n"] < mdm[a][0]: vlen[d] = mdm[a][1]
        elif o == "mset": e["v"] = mat(g, R, *mdim()); mdm[d] = (len(e["v"]), len(e["v"][0]))
        elif o == "mnew": mdm[d] = (0, 0)
        elif o == "mfill":
            e["n"], e["n2"] = rng.choice([sz(), sz(), sz(), 0]), rng.choice([sz(), sz(), sz(), -1]); e["s"] = g.el(R)
            if e["n"] > 0 and e["n2"] > 0: mdm[d] = (e["n"], e["n2"])
        elif o in ("mcopy", "masg"): mdm[d] = mdm[a]
        elif o == "masgs":
            e["s"] = g.el(R)
            if mdm[d][0] == 0: mdm[d] = (1, 1)
        elif o in ("mget", "mput", "mismulself", "miaddself", "misubself", "masgself"):
            q = a if o == "mget" else d
            e["n"] = rng.choice([0, -1, mdm[q][0], mdm[q][0] - 1, rng.randrange(mdm[q][0]), rng.randrange(mdm[q][0])])
            e["n2"] = rng.choice([0, -1, mdm[q][1], mdm[q][1] - 1, rng.randrange(mdm[q][1]), rng.randrange(mdm[q][1])])
            e["s"] = g.el(R)
        elif o == "mputrow": e["n"] = rng.choice([0, -1, mdm[d][0], rng.randrange(mdm[d][0])])
        elif o == "mcol":
            e["n"] = rng.choice([0, -1, mdm[a][1], rng.randrange(mdm[a][1])])
            if 0 <= e["n"] < mdm[a][1]: vlen[d] = mdm[a][0]
        elif o == "mputcol": e["n"] = rng.choice([0, -1, mdm[d][1], rng.randrange(mdm[d][1])])
        elif o in ("madd", "msub"):
            if mdm[a] == mdm[b]: mdm[d] = mdm[a]
        elif o in ("mneg", "msmul", "fliph", "flipv", "fliphv", "mfile"): e["s"] = g.el(R) if o == "msmul" else zero(R); mdm[d] = mdm[a]
        elif o in ("madds", "msubs", "makeI"):
            e["s"] = g.el(R) if o != "makeI" else zero(R); e["s2"] = one(R)
            if mdm[a][0] == mdm[a][1]: mdm[d] = mdm[a]
        elif o in ("miadds", "misubs", "mismul", "meqs"): e["s"] = g.el(R)
        elif o == "mmul":
            if mdm[a][1] == mdm[b][0]: mdm[d] = (mdm[a][0], mdm[b][1])
        elif o == "mimul":
            if mdm[d][1] == mdm[b][0]: mdm[d] = (mdm[d][0], mdm[b][1])
        elif o == "mvec":
            if mdm[a][1] == vlen[b]: vlen[d] = mdm[a][0]
        elif o == "outer": mdm[d] = (vlen[a], vlen[b])
        elif o == "transp": mdm[d] = (mdm[a][1], mdm[a][0])
        elif o in ("mswap",):
            e["n"] = rng.choice([0, mdm[d][0] - 1, rng.randrange(mdm[d][0]), -1 if rng.random() < .3 else 0])
            e["n2"] = rng.choice([0, mdm[d][0] - 1, rng.randrange(mdm[d][0]), mdm[d][0] if rng.random() < .3 else 0])
        elif o == "paste":
            if mdm[a][0] == mdm[b][0]: mdm[d] = (mdm[a][0], mdm[a][1] + mdm[b][1])
        elif o == "pastev":
            if mdm[a][0] == vlen[b]: mdm[d] = (mdm[a][0], mdm[a][1] + 1)
        elif o == "split":
            e["d"], e["d2"] = rng.sample([1, 2, 3], 2); d = e["d"] - 1
            e["n"] = rng.choice([0, -1, mdm[a][1], rng.randint(0, mdm[a][1]), rng.randint(1, mdm[a][1])])
            if 0 < e["n"] < mdm[a][1]:
                da = mdm[a]
                mdm[d] = (da[0], e["n"]); mdm[e["d2"] - 1] = (da[0], da[1] - e["n"])
        elif o == "trimrows":
            e["n"] = rng.choice([0, 1, mdm[d][0], mdm[d][0] + 1, rng.randint(1, mdm[d][0])])
            if 1 <= e["n"] <= mdm[d][0]: mdm[d] = (e["n"], mdm[d][1])
        elif o in ("mparse", "mload", "mparse2"):
            long = rng.random() < .35
            A = mat(g, R, *(rng.choice([(9, 1), (10, 2), (11, 1), (12, 2), (20, 1), (21, 2), (32, 1), (2, 11), (1, 21)]) if long else mdim()))
            s = mtext(A); bad = False
            if o == "mparse2":
                B = mat(g, R, *mdim())
                if not s.endswith("\n"): s += "\n"
                s += rng.choice(["\n", "\n\n", "  \n" if kind != "bits" else "\n"]) + mtext(B)
                e["d"], e["d2"] = rng.sample([1, 2, 3], 2); d = e["d"] - 1
            if rng.random() < .15:
                bad = True
                s = rng.choice(["", "\n\n", "?\n", s + ("" if s.endswith("\n") else "\n") + vtext(vec(g, R, len(A[0]) + 1)) if o != "mparse2" else "?"])
            e["v"] = [ord(c) for c in s]
            mdm[d] = None if bad or long else (len(A), len(A[0]))
            if o == "mparse2": mdm[e["d2"] - 1] = None if bad else (len(B), len(B[0]))
        elif o == "mbrk":
            A = mat(g, R, *mdim())
            if rng.random() < .3: s = "[" + vtext([r_[0] for r_ in A]) + "]"; mdm[d] = (len(A), 1)
            else: s = "[" + rng.choice(["", " "]).join("[" + vtext(r_) + "]" for r_ in A) + "]"; mdm[d] = (len(A), len(A[0]))
            e["v"] = [ord(c) for c in s]
        elif o in ("rrnz", "rechnz"): mdm[d] = None
        elif o == "kerbas": mdm[d] = None; e["s2"] = one(R)
        elif o == "solve": vlen[d] = None; e["s2"] = one(R)
        elif o in ("inv", "edinv"): mdm[d] = None
        elif o == "mexp": e["n"] = rng.choice([0, 1, 2, 3, -1, -2, 5]); mdm[d] = None
        out.append(e)
        # shapes that depend on values: pin them down again
        for q in range(3):
            if vlen[q] is None: setv(q + 1, vec(g, R, sz())) if rng.random() < .6 else out.append({"op": "vasg", "d": q + 1, "a": (q + 1) % 3 + 1}) or vlen.__setitem__(q, vlen[(q + 1) % 3]) if vlen[(q + 1) % 3] is not None else setv(q + 1, vec(g, R, sz()))
            if mdm[q] is None: setm(q + 1, mat(g, R, *mdim()))
    for e in out:
        for f, dflt in (("a", 1), ("b", 1), ("d", 1), ("d2", 1), ("n", 0), ("n2", 0), ("s", zero(R)), ("s2", one(R))):
            e.setdefault(f, dflt)
    return {"k": kind, "ring": R, "zero": zero(R), "init": [V, M], "ops": out}


def rings_for(kind):
    if kind in ("bits", "t_bit"): return [zm(2)]
    if kind == "t_im": return [zm(p) for p in (2, 3, 5, 7, 101, 46337)]
    if kind == "t_q": return [Q]
    if kind == "t_f2pm": return [f2n(7), f2n(11), f2n(19), f2n(2)]
    if kind == "t_fppm": return [fpn(3, [1, 0, 1]), fpn(5, [2, 0, 1]), fpn(2, [1, 1, 1]), fpn(7, [0, 1])]
    if kind == "t_f2p": return [F2P]
    if kind == "t_fpp": return [fp(3), fp(5), fp(2)]
    if kind == "t_f2npm": return [quot(poly(f2n(7)), [[0, 1], [0], [0]])]


def sessions(kind, seed, n, nops=14, focus=None):
    rng = random.Random("%s-mat-%s" % (seed, kind))
    rs = rings_for(kind)
    out = []
    for i in range(n):
        R = rs[i % len(rs)]
        wide = None
        if kind == "bits":
            dims = [[1, 2, 3], [1, 2, 3, 4, 5], [3, 4, 8]][i % 3]
            if i % 10 > (8 if focus == "linalg" else 5): dims, wide = [1, 2, 3, 5], [[63, 64, 65], [31, 64, 127, 128, 129], [2, 64, 66, 191, 192, 193]][i % 3]
        elif kind in ("t_q",): dims = [1, 2]
        elif kind in ("t_f2p", "t_fpp"): dims = [1, 2, 3]
        elif kind == "t_f2npm": dims = [1, 2, 2, 3]
        else: dims = [[1, 2, 3], [1, 2, 3, 4], [2, 3, 5]][i % 3]
        g = Gen(rng, 2, 3)
        out.append(session(rng, kind, R, nops, dims, g, wide, focus=focus))
    return out
