"""C09, C10, C11, C16: factorization, divisors, unit groups, lists."""
import concurrent.futures as cf
import random
from . import cli, core, gen_spiff, tlagen, gen_alias, gen_bag, gen_cli, gen_fin, gen_lp, gen_rand, gen_misc, gen_mat, gen_ring, gen_text

OPS = {"C09": {"factor", "irred", "findirr", "randirr", "roots"},
       "C10": {"factor", "totient", "ndivs", "divs", "mpds"},
       "C11": {"order", "gen", "log", "period", "prim", "findprim", "randprim"},
       "C16": {"plist", "mlist", "glist", "An", "Pn"}}
KINDS = {"C09": ["f2p", "f3p", "f5p", "f4p"], "C10": ["z", "f2p", "f3p", "f4p"], "C11": ["z", "f2p", "f4p"], "C16": ["z", "f2p", "f3p", "f4p"]}
RANDOM = {"C09": (gen_fin.c09, 160, 3000), "C10": (gen_fin.c10, 160, 3000), "C11": (gen_fin.c11, 160, 3000), "C16": (gen_fin.c16, 120, 1500)}


def only(prop, s):
    ops = [o for o in s["ops"] if o["op"] in OPS[prop] and not (prop == "C10" and o["op"] == "factor" and s["ring"]["k"] != "z")]
    return dict(s, ops=ops) if ops else None


def explore(ck, module, envs):
    """Run the exhaustive generators side by side; -> their sessions."""
    out = []
    with cf.ThreadPoolExecutor(4) as ex:
        for env, (ss, g, d) in zip(envs, ex.map(lambda e: tlagen.enum(module, e, 2, 3000), envs)):
            ck.states += d
            ck.trans += g
            ck.models.append(dict(env, module=module, distinct_states=d, sessions=len(ss)))
            out.append(ss)
    return out


def fin(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["fin", "bag"] if prop == "C10" else ["fin"])
    q = tier == "quick"
    groups = explore(ck, "FinGen", [{"KIND": k, "SIZE": "small" if q else "big"} for k in KINDS[prop]])
    gen, nq, nt = RANDOM[prop]
    ss = [t for g in groups for t in (only(prop, s) for s in g) if t]
    ss += gen(random.Random("%s-%d" % (prop, core.SEED)), nq if q else nt)
    ck.conform("FinTrace", exe, ss)
    if prop == "C10":
        (bs,) = explore(ck, "BagGen", [{"SIZE": "small" if q else "big"}])
        if len(bs) > 6000: bs = random.Random(1).sample(bs, 6000)
        bs += gen_bag.sessions(random.Random("bag-%d" % core.SEED), 300 if q else 4000)
        ck.conform("BagTrace", exe, bs)
    return ck.finish(["Group sizes and totients fit in 31 bits; moduli have positive degree."])


CHECKS = {p: fin for p in OPS}


def lp(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["lp"])
    q = tier == "quick"
    groups = explore(ck, "LpGen", [{"KIND": k, "SIZE": "small" if q else "big"} for k in ["f2p", "f3p", "f4p", "f5p"] + ([] if q else ["g2p"])])
    ss = []
    for g in groups:
        ss += random.Random(core.SEED).sample(g, min(len(g), 220)) if q else g
    ss += gen_lp.sessions(random.Random("C15-%d" % core.SEED), 400 if q else 6000, not q)
    ck.conform("LpTrace", exe, ss)
    return ck.finish(["Moduli are irreducible and companion/minimal polynomials have degree at least one."])


CHECKS["C15"] = lp


def rand(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["rand"])
    q = tier == "quick"
    (ss,) = explore(ck, "PsdesGen", [{"SIZE": "small" if q else "big"}])
    full = {k: v for k, v in gen_rand.ev("").items()}
    for s in ss: s["ops"] = [dict(full, **e) for e in s["ops"]]
    ss += gen_rand.sessions(random.Random("C17-%d" % core.SEED), 250 if q else 4000, 120 if q else 1500)
    ck.conform("RandTrace", exe, ss)
    return ck.finish(["Outer moduli of F_2^n polynomial residue rings are monic of degree at least one.",
                      "Time-of-day seeds are read back from the caller-owned state or inferred from a 64-bit output."])


CHECKS["C17"] = rand


def stacks(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["misc"])
    q = tier == "quick"
    (ss,) = explore(ck, "StackGen", [{"SIZE": "small" if q else "big"}])
    rng = random.Random("C21-%d" % core.SEED)
    lim = 9000 if q else 60000
    if len(ss) > lim: ss = rng.sample(ss, lim)
    for i, s in enumerate(ss):
        if s["k"] == "stack": s["t"] = ("int", "str", "poly")[i % 3]
    ss += gen_misc.stack(rng, 400 if q else 8000) + gen_misc.toks(rng, 400 if q else 8000)
    ck.conform("StackTrace", exe, ss)
    return ck.finish(["Lines hold no NUL character; stack text operators are not instantiable and not covered."])


def cyclo(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["misc"])
    q = tier == "quick"
    (ss,) = explore(ck, "CycGen", [{"SIZE": "small" if q else "big"}])
    rng = random.Random("C22-%d" % core.SEED)
    rng.shuffle(ss)                       # the memo is filled in any order
    ss += gen_misc.cyc(rng, 300 if q else 5000)
    ck.conform("CycTrace", exe, ss)
    return ck.finish(["n up to 120; coefficients of rational polynomials below 10^6."])


CHECKS["C21"] = stacks
CHECKS["C22"] = cyclo


CALC_KINDS = {"z": "z", "zm": "im", "q": "q", "f2p": "f2p", "f2pm": "f2pm", "vec": "im", "mat": "im"}


def calc(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build(["calc_a", "calc_b", "calc_c", "calc_d"])
    q = tier == "quick"
    rng = random.Random("C19-%d" % core.SEED)
    ss = []
    for (kind, drv), g in zip(CALC_KINDS.items(),
                              explore(ck, "CalcGen", [{"KIND": k, "SIZE": "small" if q else "big"} for k in CALC_KINDS])):
        if len(g) > (600 if q else 8000): g = rng.sample(g, 600 if q else 8000)
        for s in g: s["k"] = "calc_" + drv
        ss += g
    ss += gen_cli.sessions(rng, 20 if q else 200)
    ck.conform("CalcTrace", exe, ss)
    return ck.finish(["Expressions evaluated in-process; exponents up to 64; the meaning of fields' operations over non-fields is left open."])


CHECKS["C19"] = calc


SPIFF_KINDS = "z q q_p f2 f2_p f2_pm f2_pr f2n_p f2n_pm f2n_pr fp fp_p fp_pm fp_pr fpn_p fpn_pm nest".split()


def spiff(prop, tier):
    ck = core.Check(prop, tier)
    exe = core.build_spiff()
    q = tier == "quick"
    rng = random.Random("C23-%d" % core.SEED)
    ss = []
    for g in explore(ck, "SpiffGen", [{"KIND": k, "SIZE": "small" if q else "big"} for k in SPIFF_KINDS]):
        n = 60 if q else 2500
        ss += rng.sample(g, n) if len(g) > n else g
    ss += gen_spiff.sessions(rng, 4 if q else 60)
    cli.conform(ck, exe, ss)
    return ck.finish(["One process per call in a scratch directory, at most 6 s of processor time each; a call that takes longer is accepted only where nothing is promised.",
                      "Left open: composite moduli where the action needs a field, values beyond 30000, matrices beyond 5x5, exponents beyond the small bounds of Spiff.tla."])


CHECKS["C23"] = spiff


TEXT_KINDS = "im bit q f2p fpp3 fpp11 qp f2np fpnp f2pm fppm f2npm fpnpm f2pr fppr f2npr".split()
TEXT_MATS = ["bits", "t_im", "t_q", "t_f2pm", "t_fppm", "t_f2npm", "t_f2p", "t_fpp"]


def text(prop, tier):
    ck = core.Check(prop, tier)
    q = tier == "quick"
    rng = random.Random("C18-%d" % core.SEED)
    ss = []
    for g in explore(ck, "TextGen", [{"KIND": k, "SIZE": "small" if q else "big"} for k in TEXT_KINDS]):
        ss += rng.sample(g, 150) if q and len(g) > 150 else g
    kinds = sorted(gen_ring.UNIT)
    for k in kinds: ss += gen_text.sessions(rng, k, 60 if q else 1500)
    ck.conform("RingTrace", core.build(sorted({gen_ring.UNIT[k] for k in kinds})), ss)
    ms = []
    for k in TEXT_MATS: ms += gen_mat.sessions(k, "%d-C18" % core.SEED, 40 if q else 1200, 10, focus="text")
    ck.conform("MatTrace", core.build(sorted({gen_mat.UNIT[k] for k in TEXT_MATS})), ms)
    return ck.finish(["Integers in texts fit an int; a value followed by other characters may be accepted or refused by from_string."])


CHECKS["C18"] = text


def alias(prop, tier):
    ck = core.Check(prop, tier)
    q = tier == "quick"
    rng = random.Random("C20-%d" % core.SEED)
    (hs,) = explore(ck, "AliasGen", [{"SIZE": "small" if q else "big"}])
    hs = sorted((h["ops"] for h in hs), key=str)
    ss, kinds = [], sorted(gen_ring.UNIT)
    for k in kinds:
        ss += gen_alias.sessions(rng, k, rng.sample(hs, min(len(hs), 400 if q else 12000)), 5)
        ss += gen_ring.sessions(k, "%d-C20" % core.SEED, 40 if q else 600)
    ck.conform("RingTrace", core.build(sorted({gen_ring.UNIT[k] for k in kinds})), ss)
    ms = []
    for k in TEXT_MATS: ms += gen_mat.sessions(k, "%d-C20" % core.SEED, 40 if q else 1200, 16, focus="alias")
    ck.conform("MatTrace", core.build(sorted({gen_mat.UNIT[k] for k in TEXT_MATS})), ms)
    ck.conform("BagTrace", core.build(["fin", "bag"]), gen_bag.sessions(random.Random("C20-bag-%d" % core.SEED), 150 if q else 3000))
    ck.conform("StackTrace", core.build(["misc"]), gen_misc.stack(rng, 200 if q else 4000))
    return ck.finish(["Objects are compared through their public accessors after every call; the build is address-sanitized."])


CHECKS["C20"] = alias
