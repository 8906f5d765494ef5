"""C02..C08: the number, polynomial, residue and fraction classes."""
import concurrent.futures as cf
from . import core, gen_ring, tlagen

KINDS = {
    "C02": ["im"],
    "C03": ["q"],
    "C04": ["f2p"],
    "C05": ["fpp"],
    "C06": ["f2np", "fpnp", "qp"],
    "C07": ["f2pm", "fppm", "f2npm", "fpnpm"],
    "C08": ["f2pr", "fppr", "f2npr"],
}
QUICK = {"C02": 1500, "C03": 1500, "C04": 1500, "C05": 1200, "C06": 500, "C07": 260, "C08": 200}
THOROUGH = 8


def generated(ck, kinds, big, walks, seed):
    """Sessions printed by TLC: every pair of elements of the small rings (the
    algebra laws are invariants of that exploration), and random walks."""
    w = max(1, core.JOBS // len(kinds))
    out = []
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        g = {k: ex.submit(tlagen.enum, "RingGen", {"KIND": k, "SIZE": "big" if big else "small"}, w, 3000, "4g")
             for k in kinds}
        r = {k: ex.submit(tlagen.walk, "RingWalk", {"KIND": k, "SIZE": "small"}, walks, seed) for k in kinds}
        for k in kinds:
            ss, gen, dist = g[k].result()
            ck.states += dist
            ck.trans += gen
            ck.models.append({"module": "RingGen", "KIND": k, "distinct_states": dist, "sessions": len(ss)})
            out += ss
            ws = r[k].result()
            ck.models.append({"module": "RingWalk", "KIND": k, "behaviours": len(ws)})
            out += ws
    return out


def run(prop, tier):
    ck = core.Check(prop, tier)
    kinds = KINDS[prop]
    exe = core.build(sorted({gen_ring.UNIT[k] for k in kinds}))
    ck.conform("RingTrace", exe, generated(ck, kinds, tier == "thorough", 40 if tier == "quick" else 1500, core.SEED))
    rounds = 1 if tier == "quick" else THOROUGH
    for rd in range(rounds):
        ss = []
        for k in kinds:
            ss += gen_ring.sessions(k, core.SEED * 1000 + rd, QUICK[prop] * (1 if rounds == 1 else 4), 14)
        ck.conform("RingTrace", exe, ss)
    return ck.finish([
        "Arguments are kept where the exact result fits the C++ int types (rationals, exponents).",
        "Values are observed through the public accessors of the classes.",
    ], "exhaustive element pairs of small rings with the ring laws as invariants; TLC random walks; "
       "random sessions over large moduli and degrees; every event judged by RingMachine!Step")
