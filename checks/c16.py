"""C16: rover's voting follows the documented scores on every correspondence set."""
import re
from vf import build as B, rov
from vf.engine import Suite, Violation

RULE = ("A case is one set of 2 to 6 generated ctm files with -a and -c values. One evaluation is one run of a voting method (or of oracle), compared with the correspondence sets of "
        "the putat run on the same files: every set yields the word with the highest score (any of the best when tied), with its mean times and confidence, and nothing where "
        "the NULL word wins; oracle lists every distinct word of every set. Non-trivial: systems disagree in some set; counted by distinct inputs and method.")
ASSUMPTIONS = ["the correspondence sets themselves are C15's subject; scores closer than 1e-6 count as tied (ties are documented as arbitrary)",
               "avgconf with -a below 1 needs confidences in the input"]
METH = ["meth1", "meth1a", "maxconf", "avgconf", "maxconfa"]


def types(arcs):
    """{word: [occ, sum t1, sum t2, sum conf, max conf]} in order of first appearance"""
    d = {}
    for w, t1, t2, cf, tag in arcs:
        x = d.setdefault(w, [0, 0., 0., 0., 0.])
        x[0] += 1
        x[1] += t1
        x[2] += t2
        x[3] += cf
        x[4] = max(x[4], cf)
    return d


def scores(d, n, meth, a):
    tot = sum(x[3] for x in d.values())
    r = {}
    for w, x in d.items():
        if meth in ("meth1", "meth1a"):
            c = x[3] / x[0]
        elif meth == "avgconf":
            c = x[3] / tot if tot else 0.
        elif meth == "maxconfa" and w == "@":
            c = x[0] / float(n)
        else:
            c = x[4]
        r[w] = a * x[0] / n + (1 - a) * c
    return r


class Vote(Suite):
    name, quick, thorough = "vote", 8000, 80000

    def gen(self, s):
        c = rov.gen(s)
        c["alpha"] = s.choice([0., 1., .5, .2, .7, s.int(0, 100) / 100.])
        c["meth"] = s.sample(METH, s.int(1, 3)) if hasattr(s, "sample") else [s.choice(METH) for _ in range(s.int(1, 3))]
        c["oracle"] = s.bool(.4)
        return c

    def check(self, case, ctx):
        if rov.mismatch(case):
            ctx.label("mismatch, skipped")
            return
        names = rov.write(case, ctx)
        n = len(names)
        ctx.run(rov.cmd(case, ctx, names, "putat"))
        sets = rov.putat(ctx.read("out", binary=True).decode("latin-1"))
        a = case["alpha"]
        diff = any(len({x[0] for x in arcs}) > 1 for _, _, arcs in sets)
        missing = any(w[3] is None for recs in case["sys"] for r in recs for ch in r[2] for w in ch)
        for meth in case["meth"]:
            if meth == "avgconf" and missing and a < 1:
                ctx.label("avgconf without confidences, skipped")
                continue
            ctx.run(rov.cmd(case, ctx, names, meth, a))
            lines = ctx.read("out", binary=True).decode("latin-1").split("\n")
            if lines[-1] != "":
                raise Violation("-m %s: last line %r is not terminated" % (meth, lines[-1]))
            lines = lines[:-1]
            # match the lines with the sets: ties (including with NULL) leave a choice, so keep every reachable line number
            state = {0}
            for f, c, arcs in sets:
                d = types(arcs)
                sc = scores(d, n, meth, a)
                top = max(sc.values())
                best = [w for w in sc if sc[w] >= top - 1e-6]
                nxt = set()
                for p in state:
                    for w in best:
                        if w == "@":
                            nxt.add(p)
                        elif p < len(lines) and self.line(lines[p], f, c, w, d[w]):
                            nxt.add(p + 1)
                if not nxt:
                    raise Violation("-m %s -a %g -c %g: set %r of %s %s (scores %r) does not give output line %r" %
                                    (meth, a, case["nconf"], arcs, f, c, sc, [lines[p] if p < len(lines) else "<end>" for p in sorted(state)]))
                state = nxt
            if len(lines) not in state:
                raise Violation("-m %s: output has lines beyond the last set: %r" % (meth, lines[min(state):][:3]))
            ctx.evals += 1
            ctx.label(meth, "alpha 0" if a == 0 else "alpha 1" if a == 1 else "0 < alpha < 1")
            if diff:
                ctx.nontrivial((case["sys"], meth, a, case["T"]))
        if case["oracle"]:
            ctx.run(rov.cmd(case, ctx, names, "oracle", a))
            lines = ctx.read("out", binary=True).decode("latin-1").split("\n")[:-1]
            p = 0
            for f, c, arcs in sets:
                d = types(arcs)
                if len(d) > 1:
                    want = ["<ALT_BEGIN>"] + sum([[w, "<ALT>"] for w in d], [])[:-1] + ["<ALT_END>"]
                else:
                    want = list(d)
                got = lines[p:p + len(want)]
                p += len(want)
                ok = len(got) == len(want)
                for g, w in zip(got, want):
                    if w.startswith("<ALT"):
                        ok = ok and g == "%s %s * * %s" % (f, c, w)
                gw = [g for g in got if " * * <" not in g]
                for w in d:
                    ok = ok and sum(self.line(g, f, c, w, d[w]) for g in gw) == 1
                if not ok:
                    raise Violation("-m oracle: set %r gives %r" % (arcs, got))
            if p != len(lines):
                raise Violation("-m oracle: %d lines for %d expected" % (len(lines), p))
            ctx.evals += 1
            ctx.label("oracle")

    @staticmethod
    def line(ln, f, c, w, x):
        t = ln.split(" ")
        if len(t) != 6 or t[0] != f or t[1] != c or t[4] != w:
            return False
        try:
            v = [float(t[i]) for i in (2, 3, 5)]
        except ValueError:
            return False
        return abs(v[0] - x[1] / x[0]) < 6e-4 + 1e-6 * abs(x[1]) and abs(v[1] - (x[2] - x[1]) / x[0]) < 6e-4 + 1e-6 * abs(x[1]) and abs(v[2] - x[3] / x[0]) < 3e-6


def build():
    return {"rover": B.sclite() + "/rover"}


SUITES = [Vote()]
