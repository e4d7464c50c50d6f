"""C07: word-weight mediated scoring (-w): the file's weights, a weight-optimal alignment, and percentages of weight."""
from vf import build as B, scl, reports
from vf.engine import Suite, Violation

RULE = ("A case is one sclite -w run with a generated word-weight list (fractional weights, default weight, zero weights, several columns, "
        "'unity') over generated transcripts with alternations, optional words, fragments and compound words (a=b). One evaluation is one "
        "aligned utterance (weights looked up, minimum weighted cost) or one row of the weighted summary. Non-trivial: at least one error; "
        "distinct utterance/weight pairs counted.")


def build():
    return {"sclite": B.sclite() + "/sclite"}


class WCost:
    def __init__(self, W, wt):
        self.W, self.wt = W, wt

    def gap(self, w):
        return self.wt(w)

    def sub(self, r, h):
        return 0.0 if self.W.equal(r, h) else self.wt(r) + self.wt(h)


class Weights(Suite):
    name, quick, thorough = "weights", 10000, 60000

    def gen(self, s):
        D, F = s.bool(.3), s.bool(.3)
        o = {"alt": s.choice([0, .12]), "depth": 2, "opt": D, "frag": F}
        utts = []
        for i in range(s.int(1, 6)):
            r = scl.gen_seq(s, o, 4, hi=25)
            if s.bool(.3):
                r = r + [s.choice(["a=b", "ab=c=d", "zz=a"])]
            h = scl.corrupt(s, scl.reading(s, r), o, .35)
            if s.bool(.1):
                h = scl.gen_seq(s, o, 4, hi=12)
            utts.append([r, h, "spk%d" % s.draw(3)])
        words = s.shuffle([w for w in scl.BASE + ["it's", "1", "w", "x_y"] if not s.bool(.3)])
        n = 1 + s.draw(2)
        wl = [[w] + [s.weighted((5, s.int(0, 200)), (1, 0)) for _ in range(n)] for w in words]
        wl += [["u%03d" % i, 7] for i in range(s.choice([0, 0, 130]))]
        return {"utts": utts, "wl": wl, "def": s.choice([None, 0, 40, 100]), "unity": s.bool(.2), "D": D, "F": F, "heads": s.bool(.7)}

    def check(self, case, ctx):
        W = scl.Words(case["F"], case["D"])
        U = case["utts"]
        ctx.write("r", "\n".join("%s (%s-%d)" % (scl.render(u[0]), u[2], i) for i, u in enumerate(U)) + "\n")
        ctx.write("h", "\n".join("%s (%s-%d)" % (scl.render(u[1]), u[2], i) for i, u in enumerate(U)) + "\n")
        if case["unity"] or not case["wl"]:
            table, dflt, name = {}, 1.0, "unity"
        else:
            lines = []
            if case["heads"]:
                lines.append(";; 'Headings' 'Word Spelling' 'First'" + (" 'Second'" if len(case["wl"][0]) > 2 else ""))
            if case["def"] is not None:
                lines.append(";; Default missing weight '%g'" % (case["def"] / 40.0))
            lines += [w[0] + "".join(" %.3f" % (x / 40.0) for x in w[1:]) for w in case["wl"]]
            ctx.write("wl", "\n".join(lines) + "\n")
            table = {w[0]: w[1] / 40.0 for w in case["wl"]}
            dflt, name = (case["def"] or 0) / 40.0, "wl"

        def wt(w):
            if W.is_opt(w):
                return 0.0
            return sum(table.get(x, dflt) for x in w.split("=") if x) if "=" in w else table.get(w, dflt)
        cmd = [ctx.bins["sclite"], "-r", "r", "trn", "-h", "h", "trn", "-i", "swb", "-w", name, "-O", ctx.dir, "-f", "0", "-o", "sgml", "wws"]
        ctx.run(cmd + (["-D"] if case["D"] else []) + (["-F"] if case["F"] else []))
        sy = scl.parse_sgml(ctx.read("h.sgml"))[0]
        C = WCost(W, wt)
        tot = {}
        for sp in sy["speakers"]:
            for p in sp["paths"]:
                i = int(p["attrs"]["id"].rsplit("-", 1)[1][:-1])
                lo = lambda q: scl.map_words(q, lambda w: scl.fold(w, False))
                r, h = lo(U[i][0]), lo(U[i][1])
                rn, hn = scl.Net(r), scl.Net(h)
                what = p["attrs"]["id"]
                if not rn.accepts([t[1] for t in p["toks"] if t[1] is not None]) or not hn.accepts([t[2] for t in p["toks"] if t[2] is not None]):
                    raise Violation("%s: %r is not an alignment of %r / %r" % (what, p["toks"], scl.render(r), scl.render(h)))
                aux = p["attrs"]["word_aux"].split(",")
                cost = 0.0
                g = tot.setdefault(sp["id"], dict(ref=0.0, C=0.0, S=0.0, D=0.0, I=0.0, n=0, w=0, se=0, words=0))
                err = False
                for ev, a, b, ax in p["toks"]:
                    wa, wb = wt(a) if a is not None else None, wt(b) if b is not None else None
                    for nm, w, v in (("r_weight", a, wa), ("h_weight", b, wb)):
                        x = ax[aux.index(nm)]
                        if w is not None and abs(float(x) - v) > 6e-4:
                            raise Violation("%s: word %r has weight %s, expected %.4f" % (what, w, x, v))
                    ok = {"C": (a is not None and b is not None and W.equal(a, b)) or ((a is None or b is None) and W.is_opt(a or b)),
                          "S": a is not None and b is not None and not W.equal(a, b),
                          "D": b is None and a is not None and not W.is_opt(a), "I": a is None and b is not None and not W.is_opt(b)}[ev]
                    if not ok:
                        raise Violation("%s: %r/%r labelled %s" % (what, a, b, ev))
                    if ev == "C" and a is not None and b is not None:
                        g["ref"] += wa
                        g["C"] += wb
                    elif ev != "C":
                        cost += (wa or 0) + (wb or 0)
                        g[ev] += (wa or 0) + (wb or 0)
                        g["ref"] += wa or 0
                        err = True
                    g["words"] += ev in "SD" or ev == "C"
                best = scl.best_cost(rn, hn, C)
                nulls = scl.render(r).count("@") + scl.render(h).count("@")
                if cost < best - 1e-3 or cost > best + 1e-3 + .001 * nulls:
                    raise Violation("%s: weighted cost %.4f, minimum %.4f\nREF %s\nHYP %s\nALI %r" % (what, cost, best, scl.render(r), scl.render(h), [t[:3] for t in p["toks"]]))
                g["n"] += 1
                g["se"] += err
                ctx.evals += 1
                if err:
                    ctx.nontrivial((r, h, sorted(table.items())))
                if scl.has_alt(r) or scl.has_alt(h):
                    ctx.label("alternation")
        ctx.label("unity" if name == "unity" else "weight file")
        self.wws(ctx, tot, case.get("strict"))

    def wws(self, ctx, tot, strict):
        rows = reports.table(ctx.read("h.wws"))[2:]
        names = list(tot)
        if [r[0] for r in rows] != names + ["Sum/Avg", "Mean", "S.D.", "Median"]:
            raise Violation("weighted summary rows %r, expected speakers %r" % ([r[0] for r in rows], names))
        allt = {k: sum(t[k] for t in tot.values()) for k in next(iter(tot.values()))}
        cols = [[] for _ in range(6)]
        P = lambda t: [reports.pct(t["C"], t["ref"]), reports.pct(t["S"], t["ref"]), reports.pct(t["D"], t["ref"]), reports.pct(t["I"], t["ref"]),
                       reports.pct(t["S"] + t["D"] + t["I"], t["ref"]), reports.pct(t["se"], t["n"])]
        for r, t, nm in zip(rows, list(tot.values()) + [allt], names + ["Sum/Avg"]):
            v = reports.nums(r[1:3])
            if t["ref"] < 1e-9:
                if nm != "Sum/Avg":
                    ctx.label("speaker without reference weight")
                continue
            exp = P(t)
            try:
                reports.cmp_row(v, [t["n"], t["words"]] + exp, .0503, "wws", nm, tol0=0)
            except Violation:
                # known finding (known_findings.json): the totals row keeps running sums of weights in integers
                if nm != "Sum/Avg" or strict or not self.truncated(v, tot, allt):
                    raise
                ctx.label("known finding: totals truncated to integers")
            if nm != "Sum/Avg":
                for c, x in zip(cols, exp):
                    c.append(x)
            ctx.evals += 1
        if all(t["ref"] > 1e-9 for t in tot.values()):
            for r, f in zip(rows[-3:], (reports.mean, reports.sd, reports.median)):
                v = reports.nums(r[1:3])
                exp = [f([t["n"] for t in tot.values()]), f([t["words"] for t in tot.values()])] + [f(c) for c in cols]
                reports.cmp_row(v, exp, .0503, "wws", r[0])
                ctx.evals += 1

    @staticmethod
    def truncated(v, tot, allt):
        """is this row exactly what truncating the running totals to integers gives?"""
        def run(k):
            n = {0}                     # sums that are integers up to rounding may be truncated either way
            for t in tot.values():
                n = {int(m + t[k] + e) for m in n for e in (-1e-4, 1e-4)}
            return n
        T = {k: run(k) for k in ("ref", "C", "S", "D", "I")}
        T["E"] = {a + b + c for a in T["S"] for b in T["D"] for c in T["I"]}
        if v[:2] != [allt["n"], allt["words"]] or len(v) != 8 or abs(v[7] - reports.pct(allt["se"], allt["n"])) > .0503:
            return False
        return any(all(any(abs(x - reports.pct(a, r)) < .0503 for a in T[k]) for x, k in zip(v[2:7], "CSDIE")) for r in T["ref"])


SUITES = [Weights()]
