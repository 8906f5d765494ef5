"""Sessions generated by TLC from the specifications (exhaustive or random)."""
import concurrent.futures as cf
import json
from . import core


def parse(out):
    ss = []
    for l in out.splitlines():
        if l.startswith('"SESSION ') and l.endswith('"'):
            t = l[9:-1]
            try:
                ss.append(json.loads(t))
            except ValueError:
                ss.append(json.loads(t.replace('\\"', '"').replace("\\\\", "\\")))
    return ss


def enum(module, env, workers=2, timeout=600, heap="3g"):
    """Exhaustive exploration: checks the laws on every state, returns the
    sessions it printed and the state counts."""
    rc, out = core.tlc(module, module + ".cfg", env, workers=workers, timeout=timeout, heap=heap)
    if "Model checking completed. No error has been found." not in out:
        raise core.Infra("%s %s: %s" % (module, env, out[-2500:]))
    gen, dist = core.tlc_counts(out)
    return parse(out), gen, dist


def walk(module, env, num, seed, depth=22, timeout=300):
    """Random behaviours (TLC simulation mode)."""
    rc, out = core.tlc(module, module + ".cfg", env, workers=1, timeout=timeout,
                       extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    ss = parse(out)
    if not ss or "Error:" in out:
        raise core.Infra("%s %s: %s" % (module, env, out[-2500:]))
    return ss
