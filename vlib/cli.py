"""Running the spiff program itself: one process per call, in a scratch directory."""
import concurrent.futures as cf
import os, resource, shutil, subprocess, tempfile
from . import core

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97", LC_ALL="C")


def codes(s): return [ord(c) for c in s]


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (6, 8))


def run1(exe, wd, args, inp=""):
    """-> exit status (negative or 97: crash; -99: hang), standard output, standard error."""
    with open(os.path.join(wd, ".out"), "w+b") as o, open(os.path.join(wd, ".err"), "w+b") as er:
        p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=o, stderr=er, cwd=wd, env=ENV, preexec_fn=_limits)
        try:
            p.communicate(inp.encode(), timeout=90)
            rc = -99 if p.returncode in (-25, -24, -9) else p.returncode      # SIGXFSZ, SIGXCPU
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        o.seek(0)
        er.seek(0)
        return rc, o.read(60000).decode("latin1"), er.read(4000).decode("latin1")


def flat_runs(exe, wd, args, runs):
    """Make the innermost calls one after another (SpiffPermit checks the order and the words)."""
    a = list(args)
    while True:
        close = next((i for i, x in enumerate(a) if x == "}" and "{" in a[:i]), None)
        if close is None: break
        op = max(i for i in range(close) if a[i] == "{")
        inner = a[op + 1:close]
        r = run1(exe, wd, inner)
        runs.append((inner, r))
        a = a[:op] + r[1].split() + a[close + 1:]
        if len(a) > 400: break
    runs.append((a, run1(exe, wd, a)))


def events(exe, sess):
    evs = []
    wd = tempfile.mkdtemp(prefix="verif-cli-")
    try:
        for name, text in sess.get("files", {}).items():
            with open(os.path.join(wd, name), "w") as f: f.write(text)
        files = [[codes(n), codes(t)] for n, t in sess.get("files", {}).items()]

        def cli(a, inp, r):
            evs.append({"op": "cli", "a": a, "v": [codes(x) for x in a], "in": codes(inp), "files": files, "rc": r[0], "out": codes(r[1]),
                        "err": int(bool(r[2])), "msg": "" if r[0] in (0, 1) else r[2][:600]})
        for o in sess["ops"]:
            if o["op"] == "cli": cli(o["a"], o.get("in", ""), run1(exe, wd, o["a"], o.get("in", "")))
            elif o["op"] == "listing":
                rc, out, _ = run1(exe, wd, ["-l"])
                evs.append({"op": "listing", "rc": rc, "names": [l.strip() for l in out.splitlines() if l.startswith("  ")]})
            elif o["op"] == "nest":
                rc, out, er = run1(exe, wd, o["a"])
                runs = []
                flat_runs(exe, wd, o["a"], runs)
                for a, r in runs: cli(a, "", r)
                evs.append({"op": "nest", "v": [codes(x) for x in o["a"]], "rc": rc, "out": codes(out), "err": int(bool(er)),
                            "runs": [[[codes(x) for x in a], codes(r[1])] for a, r in runs]})
        return evs
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def conform(ck, exe, sessions):
    for n, s in enumerate(sessions): s["s"] = n + 1
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        evs = list(ex.map(lambda s: events(exe, s), sessions))
    return ck.judge("SpiffTrace", sessions, evs)
