#!/usr/bin/env python3
"""seedtool.py verify ID... | run ID [CHECK...]
Confirms a seeded change in a scratch copy of /repo: it applies, builds, keeps
the stable tests passing, and its demonstration fails only with it; then runs
the property's own check against the changed copy."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(STABLE.get("stable") or STABLE.get("tests") or STABLE.get("passed"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    checks = None
    if mode == "run":
        ids, checks = ids[:1], ids[1:]
    w = "/tmp/seedwt.%d" % os.getpid()
    env = dict(os.environ, SPFFL_REPO=w + "/repo")
    os.makedirs(w)
    try:
        r = w + "/repo"
        sh("mkdir %s && git -C /repo archive HEAD | tar x -C %s" % (r, r))
        for f in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", w + "/build.sh").replace("/repo", r)
            open(w + "/" + f, "w").write(s)
        sh("git -C %s init -q && git -C %s add -A && git -C %s -c user.name=x -c user.email=x@x commit -qm x" % (r, r, r))
        if mode == "verify":
            b = sh("bash %s/build.sh" % w)
        for i in ids:
            d = "%s/seeded/%s" % (V, i)
            t0 = time.time()
            meta = json.load(open(d + "/meta.json"))
            res = []
            if mode == "verify":
                p = sh("cd %s && timeout 300 bash %s/demo.sh" % (r, d))
                res.append("clean=%d" % p.returncode)
                if p.returncode: print(p.stdout[-1500:])
            p = sh("git -C %s apply %s/patch.diff" % (r, d))
            if p.returncode: print(i, "PATCH DOES NOT APPLY", p.stdout); continue
            if mode == "verify":
                p = sh("bash %s/build.sh" % w)
                res.append("build=%d" % p.returncode)
                if p.returncode: print(p.stdout[-2500:])
                sh("bash %s/test.sh %s/o.json" % (w, w))
                o = json.load(open(w + "/o.json"))
                bad = STABLE - set(o["passed"])
                res.append("tests=%s" % ("ok" if not bad else sorted(bad)))
                p = sh("cd %s && timeout 300 bash %s/demo.sh" % (r, d))
                res.append("demo=%d" % p.returncode)
            for c in checks if checks else [meta["property"]]:
                t1 = time.time()
                p = sh("cd %s && timeout 900 python3 run.py %s" % (V, c), env=env)
                res.append("%s=%d (%.0fs)" % (c, p.returncode, time.time() - t1))
                v = [l for l in p.stdout.splitlines() if "VIOLATION" in l or l.startswith("ERROR")]
                if mode == "run" or p.returncode not in (0, 1): print(p.stdout[-3000:])
            sh("git -C %s checkout -q -- ." % r)
            print(i, meta["property"], *res, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
