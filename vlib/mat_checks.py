"""C12 (bits), C13 (vector and matrix containers), C14 (linear algebra)."""
import concurrent.futures as cf
import random
from . import core, gen_mat, tlagen

FIELD = ["t_im", "t_bit", "t_q", "t_f2pm", "t_fppm", "t_f2npm"]
KINDS = {"C12": ["bits"], "C13": FIELD + ["t_f2p", "t_fpp"], "C14": ["bits"] + FIELD + ["t_f2p", "t_fpp"]}
#        random sessions per kind, replayed generated sessions per kind
QUICK = {"C12": (160, 500), "C13": (200, 90), "C14": (100, 70)}
THOROUGH = {"C12": (3000, 10 ** 6), "C13": (4000, 10 ** 6), "C14": (4000, 10 ** 6)}


def run(prop, tier):
    ck = core.Check(prop, tier)
    kinds = KINDS[prop]
    nrand, ngen = (QUICK if tier == "quick" else THOROUGH)[prop]
    exe = core.build(sorted({gen_mat.UNIT[k] for k in kinds}))
    rng = random.Random("%s-%s" % (core.SEED, prop))
    gen = []
    with cf.ThreadPoolExecutor(4) as ex:
        g = {k: ex.submit(tlagen.enum, "MatGen", {"KIND": k, "SIZE": "small" if tier == "quick" else "big"}, 2, 3000, "4g")
             for k in kinds}
        for k in kinds:
            ss, states, dist = g[k].result()
            ck.states += dist
            ck.trans += states
            ck.models.append({"module": "MatGen", "KIND": k, "distinct_states": dist, "sessions": len(ss)})
            gen += ss if len(ss) <= ngen else rng.sample(ss, ngen)
    ck.conform("MatTrace", exe, gen)
    focus = {"C12": None, "C13": "containers", "C14": "linalg"}[prop]
    for rd in range(1 if tier == "quick" else 4):
        ss = []
        for k in kinds:
            ss += gen_mat.sessions(k, "%s-%s-%d" % (core.SEED, prop, rd), nrand // (1 if tier == "quick" else 4), focus=focus)
        ck.conform("MatTrace", exe, ss)
    return ck.finish([
        "Entries are kept small enough for exact results in the C++ int types (rationals).",
        "Vectors and matrices hold rows of equal length; text rows stay below the classes' line buffers.",
    ], "all matrices of small shapes over small rings with determinant, rank, inverse, kernel and echelon laws as "
       "invariants, replayed; random sessions of up to 193 columns; every event judged by MatMachine!MatStep")
