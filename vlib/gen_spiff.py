"""Random argument lists for the spiff program (C23): input generation only."""
import random
from .rings import *
from .texts import print_text
from . import gen_cli

F2IRR = [0x7, 0xb, 0xd, 0x13, 0x19, 0x25, 0x11b]
F2RED = [0x6, 0x5, 0x15, 0x9, 0xf, 0x1b]
POLY = "list op deg gcd lcm totient test find factor divisors eval random qp mat_op comp_mx".split()
PM = "list op tbl ord find_gen log ch_pol min_pol random mat_op mat_random".split()
CMDS = {"z": ["z_" + x for x in "op gcd lcm totient test_prime nth_prime list factor divisors mat_op".split()],
        "q": ["q_op", "q_mat_op", "q_vec_op", "q_p_op", "q_cyclotomic"],
        "f2": ["f2_" + x for x in "op random mat_op vec_op mat_ch_pol mat_ord mat_random".split()],
        "f2_p": ["f2_p_" + x for x in POLY + ["period"]],
        "f2_pm": ["f2_pm_" + x for x in PM + "convert vec_op mat_solve mat_ch_pol mat_diagonalizable mat_ord".split()],
        "f2_pr": ["f2_pr_" + x for x in "op mat_op random mat_random".split()],
        "f2n_p": ["f2n_p_" + x for x in POLY],
        "f2n_pm": ["f2n_pm_" + x for x in PM + ["vec_op"]],
        "f2n_pr": ["f2n_pr_op", "f2n_pr_mat_op"],
        "fp": ["fp_" + x for x in "list op tbl ord max_ord orbit find_gen log random mat_op vec_op mat_ch_pol mat_ord mat_random".split()],
        "fp_p": ["fp_p_" + x for x in POLY],
        "fp_pm": ["fp_pm_" + x for x in "list op tbl ord ch_pol min_pol random mat_op vecop mat_ord mat_random".split()],
        "fp_pr": ["fp_pr_op", "fp_pr_mat_op"],
        "fpn_p": ["fpn_p_" + x for x in "op mat_op gcd qp".split()],
        "fpn_pm": ["fpn_pm_op", "fpn_pm_mat_op"]}
ALL = [(f, c) for f in CMDS for c in CMDS[f]]


class G:
    def __init__(self, rng): self.r = rng

    def ring(self, fam):
        """-> ring arguments, ring of the elements"""
        r = self.r
        if fam == "z": return [], Z
        if fam == "q": return [], Q
        if fam == "f2": return [], zm(2)
        if fam == "f2_p": return [], F2P
        if fam == "f2_pr": return [], frac(F2P)
        if fam == "f2_pm":
            m = r.choice(F2IRR[:5] + F2RED + [2, 3, 4])
            return ["%x" % m], f2n(m)
        if fam in ("f2n_p", "f2n_pm", "f2n_pr"):
            im = r.choice([7, 7, 0xb, 3])
            P = poly(f2n(im))
            if fam == "f2n_p": return ["%x" % im], P
            if fam == "f2n_pr": return ["%x" % im], frac(P)
            om = self.monicish(P, r.choice([1, 2, 2]))
            return ["%x" % im, print_text(P, om)], quot(P, om)
        if fam == "fp":
            m = r.choice([2, 3, 5, 7, 11, 13, 31] + [4, 6, 8, 9, 10, 12, 15])
            return [str(m)], zm(m)
        p = r.choice([2, 3, 5, 7, 11])
        P = fp(p)
        if fam == "fp_p": return [str(p)], P
        if fam == "fp_pr": return [str(p)], frac(P)
        if fam == "fp_pm":
            m = self.monicish(P, r.choice([1, 2, 2, 3] if p < 5 else [1, 2]))
            return [str(p), print_text(P, m)], quot(P, m)
        p, im = r.choice([(3, [1, 0, 1]), (2, [1, 1, 1]), (5, [2, 0, 1]), (3, [2, 1, 1])])
        P = fp(p)
        P2 = poly(quot(P, im))
        a = [str(p), print_text(P, im)]
        if fam == "fpn_p": return a, P2
        om = self.monicish(P2, r.choice([1, 2]))
        return a + [print_text(P2, om)], quot(P2, om)

    def monicish(self, P, d):
        C = P["c"]
        g = Gen(self.r)
        lead = one(C) if self.r.random() < .9 else g.nz(C)
        return [g.el(C) for _ in range(d)] + [lead]

    def text(self, R, maxdeg=3):
        x = gen_cli.gel(Gen(self.r, maxdeg, 9), R) if R["k"] == "z" else Gen(self.r, maxdeg, 9).el(R, maxdeg) if R["k"] in ("f2p", "poly", "frac") else Gen(self.r, 3, 9).el(R)
        return print_text(R, x)

    def zint(self):
        r = self.r
        return str(r.choice([1, 2, 12, 30, 97, 360, r.randint(1, 99), r.randint(1, 3000), r.randint(1, 3000), -12, 0, r.randint(1, 60000), 65521]))

    def poly(self, R, maxdeg=4):
        """text of a polynomial with some structure"""
        r = self.r
        if R["k"] == "f2p": return "%x" % r.choice([r.getrandbits(r.randint(1, 9)) or 1, r.getrandbits(r.randint(1, 9)) or 1, 1 << r.randint(0, 8), 0x11b, 0x1b, 7, 0x49])
        q = {"zm": lambda C: C["m"]}.get(R["c"]["k"], lambda C: 4)(R["c"])
        d = r.randint(0, maxdeg if q < 8 else 3)
        C = R["c"]
        g = Gen(r)
        s = norm(C, [g.el(C) for _ in range(d)] + [one(C) if r.random() < .6 else g.nz(C)])
        return print_text(R, s)

    def degs(self, hi=3):
        r = self.r
        a = r.randint(1, hi)
        return str(a) if r.random() < .6 else "%d-%d" % (a, r.randint(a, hi))

    def mat(self, R, m, n): return "".join(" ".join(self.text(R) for _ in range(n)) + "\n" for _ in range(m))

    def qpoly(self):
        r = self.r
        return ",".join("%d" % r.randint(-9, 9) if r.random() < .6 else "%d/%d" % (r.randint(-9, 9), r.randint(1, 9)) for _ in range(r.randint(1, 4)))

    def args(self, fam, cmd):
        """-> arguments after the command name, stdin, files"""
        r = self.r
        w = cmd[len(fam) + 1:]
        ra, R = self.ring(fam)
        k = lambda f, lo=1, hi=3: [f() for _ in range(r.randint(lo, hi))]
        inp, files = "", {}
        if cmd == "q_p_op": R, w = poly(Q), "op"
        if w in ("op", "vec_op", "vecop", "mat_op"):
            mode = {"op": "el", "mat_op": "mat"}.get(w, "vec")
            kind = {"z": "z", "q": "q", "f2": "bit", "f2_p": "f2p", "f2_pm": "f2pm", "f2_pr": "f2pr", "f2n_p": "f2np", "f2n_pm": "f2npm", "f2n_pr": "f2npr",
                    "fp": "im", "fp_p": "fpp", "fp_pm": "fppm", "fp_pr": "fppr", "fpn_p": "fpnp", "fpn_pm": "fpnpm"}[fam]
            if cmd == "q_p_op": kind = "qp"
            x = gen_cli.Expr(r, R, mode, Gen(r, 2, 3), fam in ("q", "f2") or fam.endswith("pr"), kind)
            t = x.top(r.choice([0, 1, 1, 2]))
            if mode == "mat" and r.random() < .15:
                n = x.n
                files["A"] = self.mat(R, n, n)
                t = ["A"] + (["+", "A"] if r.random() < .5 else [])
            return ra + t, inp, files
        if fam == "z":
            if w == "gcd": return (["-e", self.zint(), self.zint()] if r.random() < .4 else k(self.zint)), inp, files
            if w == "lcm": return [str(r.randint(1, 200)) for _ in range(r.randint(1, 3))], inp, files
            if w == "nth_prime": return [self.degs(40)], inp, files
            if w == "list": return [str(r.randint(-20, 20)), str(r.randint(-1, 12)), str(r.randint(-5, 5))][:r.randint(1, 3)], inp, files
            if w == "divisors": return (["-mp"] if r.random() < .4 else []) + k(self.zint), inp, files
            return k(self.zint), inp, files
        if cmd == "q_cyclotomic": return k(lambda: str(r.randint(1, 60))), inp, files
        if w == "random" and fam not in ("f2_p", "f2n_p", "fp_p", "f2_pr"): return ra + r.choice([[], ["1"], [str(r.randint(0, 9))]]), inp, files
        if w == "random": return ra + [str(r.randint(0, 6))] + r.choice([[], [str(r.randint(0, 5))]]), inp, files
        if w == "mat_random": return ra + ([str(r.randint(0, 3))] if fam == "f2_pr" else []) + [str(r.randint(1, 4)), str(r.randint(1, 4))], inp, files
        if w == "mat_ord":
            n = r.randint(1, 3)
            return ra, self.mat(R, n, n), files
        if w in ("mat_ch_pol", "mat_diagonalizable"):
            n = r.randint(1, 3)
            files["A"] = self.mat(R, n, n if r.random() < .95 else n + 1)
            return ra + ["A"], inp, files
        if w == "mat_solve":
            n = r.randint(1, 3)
            m = n if r.random() < .7 else r.randint(1, 4)
            files = {"A": self.mat(R, m, n), "b": self.mat(R, 1, m)}
            return ra + ["A", "b"], inp, files
        if fam in ("f2_p", "f2n_p", "fp_p", "fpn_p"):
            pl = lambda: self.poly(R)
            if w == "list": return ra + [self.degs(2 if fam != "f2_p" else 4)], inp, files
            if w == "gcd":
                a = [pl(), pl()] if r.random() < .8 or fam == "fpn_p" else k(pl)
                return (["-e"] + ra + a[:2] if r.random() < .4 else ra + a), inp, files
            if w == "lcm": return ra + k(lambda: self.poly(R, 3)), inp, files
            if w == "test": return ([r.choice(["-i", "-p", "-ip"])] if fam == "f2_p" else []) + ra + k(pl), inp, files
            if w == "find": return [r.choice(["-1", "-r"])] + ([r.choice(["-i", "-p", "-ip"])] if fam == "f2_p" else []) + ra + [self.degs(6 if fam == "f2_p" else 3)], inp, files
            if w == "divisors": return (["-mp"] if r.random() < .4 else []) + ra + k(pl), inp, files
            if w == "eval": return ra + [pl()] + k(lambda: self.text(R["c"] if R["k"] == "poly" else zm(2))), inp, files
            if w == "qp": return ra + k(self.qpoly), inp, files
            if w == "comp_mx": return ra + [pl()], inp, files
            return ra + k(pl), inp, files
        el = lambda: self.text(R)
        if w == "list":
            if fam in ("f2_pm", "fp") and r.random() < .4: return [r.choice(["-m", "-rp"]), el()] + ra, inp, files
            return [r.choice(["-a", "-u", "-nu"])] + ra, inp, files
        if w == "tbl":
            t = r.choice(["+", "-", "*", ".", "u*", "u.", "/", "log", "alog", "log:" + el(), "alog:" + el()])
            return ra + [t], inp, files
        if w == "ord": return ra + (k(el) if fam != "fp_pm" else [el()]), inp, files
        if w == "find_gen":
            if fam in ("f2_pm", "fp"): return [self.ring(fam)[0][0] for _ in range(r.randint(1, 3))], inp, files
            P = R["c"]
            return ra[:1] + [print_text(P, self.monicish(P, r.choice([1, 2]))) for _ in range(r.randint(1, 3))], inp, files
        if w == "log": return ra + [el()] + k(el), inp, files
        if w in ("ch_pol", "min_pol"): return ra + k(el), inp, files
        if w == "convert":
            m1, m2 = r.choice([(7, 0x13), (7, 0x19), (0xb, 0xd), (0x13, 0x19), (7, 0xb), (0xb, 0x43), (7, 0x11b), (3, 7), (0xd, 0xb), (6, 7)])
            return ["%x" % m1, "%x" % m2] + k(lambda: self.text(f2n(m1))), inp, files
        if w == "max_ord": return ra, inp, files
        if w == "orbit": return ra + [str(r.randint(0, 40))] + r.choice([[], [str(r.randint(0, 40))]]), inp, files
        raise KeyError(cmd)

    def mutate(self, a):
        r = self.r
        a = list(a)
        k = r.random()
        i = r.randrange(len(a) + 1)
        junk = ["zz", "xyz", "-q", "0", "1", "-1", "", "7", "-e", "-mp", "-a", "?", "1:2", "9", "11"]
        if k < .4 and a: del a[min(i, len(a) - 1)]
        elif k < .7: a.insert(i, r.choice(junk))
        elif a: a[min(i, len(a) - 1)] = r.choice(junk)
        return a


NESTS = ["f2_p_deg { f2_p_factor %(p)s }", "z_gcd { z_op %(i)s + %(i)s } { z_op %(i)s * %(i)s }", "z_factor { z_list %(s)s %(s)s }", "z_op { z_gcd %(i)s { z_op %(i)s * 2 } } + 1",
         "f2_p_op { f2_p_gcd %(p)s %(p)s } * { f2_p_lcm %(p)s %(p)s }", "fp_op 7 { fp_list -a 3 } + 1", "z_op { }", "z_totient { z_op ( %(i)s + 1 ) * 3 }", "z_op { zz_op 1 } + 2",
         "fp_ord { z_nth_prime %(s)s } { z_op 2 ^ %(s)s }", "z_test_prime { z_divisors %(i)s }", "{ z_op 1 } { z_op 2", "} z_op 1 {", "z_op { z_op 1 } }", "f2_p_test -i { f2_p_list %(s)s }",
         "{ z_op 1 + 1 }", "z_list { z_op 1 } { z_list { z_op 2 } } 4", "fp_p_factor { z_nth_prime %(s)s } { fp_p_list 2 1 }"]


def deep(rng, n):
    """A command line with commands in commands, n deep, some side by side."""
    if n == 0: return [str(rng.randint(1, 30))]
    cmd, k = rng.choice([("z_op", 2), ("z_op", 3), ("z_gcd", 2), ("z_gcd", 3), ("z_lcm", 2), ("z_op", 1)])
    out, at = [cmd], rng.randrange(k)
    for i in range(k):
        if i and cmd == "z_op": out.append(rng.choice("+-+*"))
        if i == at: out += ["{"] + deep(rng, n - 1) + ["}"] if n > 1 else deep(rng, 0)
        elif n > 1 and rng.random() < .4: out += ["{"] + deep(rng, rng.randint(1, n - 1)) + ["}"]
        else: out.append(str(rng.randint(1, 30)))
    return out


def sessions(rng, per):
    g = G(rng)
    ss = [{"ops": [{"op": "listing"}]}, {"ops": [{"op": "cli", "a": []}, {"op": "cli", "a": ["nonesuch", "1"]}, {"op": "cli", "a": ["z_"]}, {"op": "cli", "a": [""]}, {"op": "cli", "a": ["z_gcd "]}]}]
    for fam, cmd in ALL:
        ss.append({"ops": [{"op": "cli", "a": [cmd]}]})
        for i in range(per):
            a, inp, files = g.args(fam, cmd)
            if rng.random() < .2: a = g.mutate(a)
            if any(x in "{}" and x for x in a): continue
            ss.append({"ops": [{"op": "cli", "a": [cmd] + a, "in": inp}], "files": files})
    for i in range(max(20, per * 5)):
        t = NESTS[i % len(NESTS)]
        while "%(" in t:
            j = t.index("%(")
            x = t[j + 2]
            t = t[:j] + {"p": "%x" % rng.randint(1, 255), "i": str(rng.randint(1, 99)), "s": str(rng.randint(1, 4))}[x] + t[j + 5:]
        ss.append({"ops": [{"op": "nest", "a": t.split()}]})
    for i in range(max(12, per * 4)):
        a = deep(rng, 2 + i % 4)
        if rng.random() < .2: a.insert(rng.randrange(1, len(a)), rng.choice("{}"))
        ss.append({"ops": [{"op": "nest", "a": a}]})
    return ss
