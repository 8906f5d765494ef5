"""Build, drive, record, and validate: the plumbing shared by every check."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPFFL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "driver")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=c++20", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]


class Infra(Exception):
    """The machinery could not give an answer (never a violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def lib_sources():
    return sorted(glob.glob(REPO + "/spffl/*/*.cpp"))


def headers():
    return sorted(glob.glob(REPO + "/spffl/**/*.h", recursive=True) + glob.glob(DRV + "/*.h"))


def _compile(src, hdr, extra_flags=()):
    key = hashlib.sha256((hdr + _digest([src], " ".join(CXX) + " ".join(extra_flags))).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(CXX + list(extra_flags) + ["-I" + REPO, "-I" + DRV, "-c", src, "-o", tmp])
        if r.returncode:
            raise Infra("compile %s failed:\n%s" % (src, r.stderr[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(units):
    """Link the library (from /repo's working tree) with the named driver units."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    prune()
    hdr = _digest(headers())
    drv = [os.path.join(DRV, u + ".cpp") for u in units] + [os.path.join(DRV, "main.cpp")]
    # driver units first: they are the slow ones
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: _compile(s, hdr), drv + lib_sources()))
    exe = os.path.join(BUILD, "bin", hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(CXX + objs + ["-o", tmp])
        if r.returncode:
            raise Infra("link failed:\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def build_spiff():
    """The spiff program itself, built from /repo's working tree."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    prune()
    hs = headers() + glob.glob(REPO + "/cli/**/*.h", recursive=True)
    hdr = _digest(hs)
    srcs = sorted(glob.glob(REPO + "/cli/spiff/*.cpp"))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: _compile(s, hdr, ("-I" + REPO + "/cli/spiff",)), srcs))
        hdr2 = _digest(headers())
        objs += list(ex.map(lambda s: _compile(s, hdr2), lib_sources()))
    exe = os.path.join(BUILD, "bin", "spiff-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(CXX + objs + ["-o", tmp])
        if r.returncode:
            raise Infra("link failed:\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def prune(limit=1 << 30):
    fs = [f for f in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*") if os.path.isfile(f)]
    try:
        st = sorted(((os.path.getatime(f), os.path.getsize(f), f) for f in fs))
        tot = sum(s[1] for s in st)
        for _, sz, f in st:
            if tot < limit:
                break
            os.unlink(f)
            tot -= sz
    except OSError:
        pass


# --------------------------------------------------------------------------
# driving the real code
# --------------------------------------------------------------------------
def _drive_chunk(exe, sessions, wd, k, timeout):
    """Run sessions through the driver; a crash or hang becomes an event."""
    inp, out = os.path.join(wd, "in%d" % k), os.path.join(wd, "out%d" % k)
    with open(inp, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    open(out, "w").close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:exitcode=97")
    skip, crashes = 0, {}
    while skip < len(sessions):
        with open(os.path.join(wd, "err%d" % k), "w+") as ef:
            p = subprocess.run([exe, inp, out, str(skip), str(timeout)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                               env=env, cwd=wd)
            ef.seek(0)
            err = ef.read()
        if p.returncode == 0:
            break
        if p.returncode in (2, 3):
            raise Infra("driver: " + err[-500:])
        ended = sum(1 for l in open(out) if l.rstrip().endswith(" END"))
        bad = sessions[skip_count(out) - 1]
        what = "hang" if p.returncode == 99 else "crash"
        m = re.search(r"(ERROR: AddressSanitizer: \S+|terminate called[^\n]*\n[^\n]*|what\(\):[^\n]*)", err)
        crashes[bad["s"]] = (what, (m.group(0) if m else "status %d" % p.returncode)[:200])
        if "driver: " in err:
            raise Infra("driver: " + err[-300:])
        skip = skip_count(out)
    evs = {}
    for l in open(out):
        sid, _, rest = l.rstrip("\n").partition(" ")
        if rest in ("BEGIN", "END"):
            evs.setdefault(int(sid), [])
            continue
        try:
            evs[int(sid)].append(json.loads(rest))
        except ValueError:
            pass  # a line cut short by a crash
    res = []
    for s in sessions:
        ev = evs.get(s["s"], [])
        if s["s"] in crashes:
            what, det = crashes[s["s"]]
            ops = s["ops"]
            at = ops[len(ev) - 1] if 0 < len(ev) <= len(ops) else {}
            ev.append({"op": what, "x": 0, "o": ev[-1].get("o", []) if ev else [], "at": at, "det": det})
        elif len(ev) < 1:
            raise Infra("driver lost session %d" % s["s"])
        res.append(ev)
    return res


def skip_count(out):
    return sum(1 for l in open(out) if l.rstrip().endswith(" BEGIN"))


def drive(exe, sessions, timeout=10, jobs=None):
    """-> list of event lists, one per session."""
    jobs = jobs or JOBS
    wd = tempfile.mkdtemp(prefix="verif-drv-")
    try:
        n = max(1, min(jobs * 2, len(sessions)))
        # interleave so that heavy groups spread out
        idx = [list(range(i, len(sessions), n)) for i in range(n)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(_drive_chunk, exe, [sessions[i] for i in ix], wd, k, timeout) for k, ix in enumerate(idx)]
            out = [None] * len(sessions)
            for ix, f in zip(idx, fs):
                for i, ev in zip(ix, f.result()):
                    out[i] = ev
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=int(os.environ.get("TLC_TIMEOUT","800")), extra=(), parse_dir=SPEC):
    meta = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m",
               "-Djava.io.tmpdir=" + meta, "-cp", TLA, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=parse_dir, env=e,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on " + module)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def _validate_chunk(module, recs, wd, k, limit=240):
    """recs: list of session records with 'ev'. -> (rejects, states, transitions)."""
    rejects, states, trans = [], 0, 0
    live = list(recs)
    rnd = 0
    while live:
        rnd += 1
        path = os.path.join(wd, "t%s_%d.ndjson" % (k, rnd))
        with open(path, "w") as f:
            for r in live:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        try:
            rc, out = tlc(module, module + ".cfg", {"TRACE": path}, timeout=limit)
        except Infra:
            if len(live) == 1:
                return rejects + [(live[0]["s"], len(live[0]["ev"]) - 1, "EVAL does not terminate")], states, trans
            h = len(live) // 2
            for part, kk in ((live[:h], "%sa" % k), (live[h:], "%sb" % k)):
                a, b, c = _validate_chunk(module, part, wd, kk, max(30, limit // 3))
                rejects += a
                states += b
                trans += c
            return rejects, states, trans
        want = sum(len(r["ev"]) + 1 for r in live)
        sizes = {r["s"]: len(r["ev"]) for r in live}
        rej = [(int(a), int(b), c) for a, b, c in re.findall(r'"REJECT (\d+) (\d+) ([^"]*)"', out)]
        # a session stopped at an ill-formed value has fewer states
        for sid, i, why in rej:
            if why.endswith("STOP"):
                want -= sizes[sid] - (i + 1)
        gen, dist = tlc_counts(out)
        if "Model checking completed. No error has been found." in out and dist == want:
            rejects += rej
            return rejects, states + dist, trans + dist - len(live)
        # an event the specification cannot even evaluate: reject it, drop the session
        st = re.findall(r"State \d+:[\s\S]*?(?=State \d+:|\Z)", out)
        if not st or rnd > 40:
            raise Infra("TLC failed on %s:\n%s" % (module, out[-3000:]))
        last = st[-1]
        si = re.search(r"(?m)^/\\ s = (\d+)", last)
        ii = re.search(r"(?m)^/\\ i = (\d+)", last)
        if not si or not ii:
            raise Infra("TLC failed on %s:\n%s" % (module, out[-3000:]))
        rec = live[int(si.group(1)) - 1]
        why = re.search(r"Error: ([^\n]*(?:\n[^\n]+){0,4})", out)
        rejects.append((rec["s"], int(ii.group(1)), "EVAL " + (why.group(1).replace("\n", " ") if why else "")[:300]))
        live = [r for r in live if r is not rec]
    return rejects, states, trans


def validate(module, recs, jobs=None):
    jobs = jobs or JOBS
    wd = tempfile.mkdtemp(prefix="verif-val-")
    try:
        n = max(1, min(jobs, len(recs)))
        # balance by size
        order = sorted(range(len(recs)), key=lambda i: -len(json.dumps(recs[i])))
        chunks = [[] for _ in range(n)]
        for j, i in enumerate(order):
            chunks[j % n].append(recs[i])
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(_validate_chunk, module, c, wd, k) for k, c in enumerate(chunks)]
            rej, st, tr = [], 0, 0
            for f in fs:
                a, b, c = f.result()
                rej += a
                st += b
                tr += c
        return rej, st, tr
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# --------------------------------------------------------------------------
# a check run
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.violations, self.known_hit = [], [], []
        self.models, self.ops, self.distinct = [], {}, set()
        self.notes = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf)) if k.get("property") == prop and not k.get("fixed")] if os.path.exists(kf) else []

    def conform(self, module, exe, sessions, timeout=10):
        """Drive the real code through sessions and validate every recorded trace."""
        for n, s in enumerate(sessions):
            s["s"] = n + 1
        return self.judge(module, sessions, drive(exe, sessions, timeout))

    def judge(self, module, sessions, evs):
        """Validate recorded traces against the specification."""
        recs = []
        for s, ev in zip(sessions, evs):
            r = {"s": s["s"], "ev": ev}
            for k in s:
                if k not in ("ops", "init", "s"):
                    r[k] = s[k]
            recs.append(r)
        rej, st, tr = validate(module, recs)
        self.states += st
        self.trans += tr
        self.traces += len(recs)
        by = {r["s"]: (r, s) for r, s in zip(recs, sessions)}
        for r in recs:
            self.events += len(r["ev"])
            for e in r["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        if len(self.samples) < 4 and recs:
            r = recs[len(recs) // 2]
            self.samples.append(json.dumps(r)[:900])
        for sid, i, why in sorted(rej):
            rec, sess = by[sid]
            e = rec["ev"][i]
            self.report(module, sess, rec, i, why)
        return recs

    def report(self, module, sess, rec, i, why):
        e = rec["ev"][i]
        at = e["at"] if e["op"] in ("crash", "hang") and e.get("at") else e
        pre = rec["ev"][i - 1].get("o") if i else None
        sig = {"module": module, "k": sess.get("k"), "op": at.get("op"), "outcome": e["op"]}
        for k in self.known:
            if self.match_known(k, sess, at, pre, e):
                self.known_hit.append(k["id"])
                return
        n = len(self.violations)
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.prop, n))
        if n < 50:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": self.prop, "module": module, "session": sess, "event_index": i, "event": e,
                       "before": pre, "why": why}, open(path, "w"))
        self.violations.append((sig, why, path, e))

    @staticmethod
    def match_known(k, sess, at, pre, e):
        m = k["match"]
        for f, v in m.items():
            if f == "k" and sess.get("k") != v: return False
            if f == "op" and at.get("op") != v: return False
            if f == "event":
                for a, b in v.items():
                    if at.get(a) != b: return False
            if f == "observed":
                for a, b in v.items():
                    if e.get(a) != b: return False
            if f == "outcome" and e["op"] != v: return False
        return True

    def model(self, module, cfg, workers=None, timeout=700, expect=None, heap="8g", extra=()):
        """Exhaustive TLC check of a design-level model."""
        rc, out = tlc(module, cfg, workers=workers or JOBS, heap=heap, timeout=timeout, extra=extra)
        gen, dist = tlc_counts(out)
        if "Model checking completed. No error has been found." not in out:
            raise Infra("model %s/%s: %s" % (module, cfg, out[-3000:]))
        self.states += dist
        self.trans += gen
        self.models.append({"module": module, "cfg": cfg, "distinct_states": dist, "generated": gen})
        return out

    def finish(self, assumptions, notes=""):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.events:
            raise Infra("no events were recorded")
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "ops": self.ops,
                           "models": self.models, "samples": self.samples or ["-"], "exhaustive": False,
                           "known_findings_hit": len(self.known_hit), "notes": notes},
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for sig, why, path, e in self.violations:
            key = json.dumps(sig, sort_keys=True)
            if key in seen and os.environ.get("VERIF_VERBOSE") != "2":
                continue
            seen.add(key)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s %s" % (key, why, json.dumps(e)[:400]))
        print("%s %s: %d sessions, %d events, %d states, %d violations, %.1fs" %
              (self.prop, self.tier, self.traces, self.events, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
