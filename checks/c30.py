"""C30: language-model weighted scoring (-L): each word weighs its surprise in context, and the alignment minimises weight."""
import math

from checks.c29 import arpa, logp, TINY
from vf import build as B, reports, scl
from vf.engine import Discard, Suite, Violation

RULE = ("A case is a 2- or 3-gram model trained with the SLM tools on a generated text, and one sclite -L run over generated transcripts with alternations, optional words and words outside the vocabulary. One evaluation is one aligned utterance: the weight of each word "
        "against -log2 of its probability computed in Python from the ARPA form of the model (averaged over the words that can precede), and the weight of the alignment against the minimum over all alignments; or one row of the weighted summary. "
        "Non-trivial: at least one error; counted by distinct utterance/model pairs.")
ASSUMPTIONS = ["weights compared within the rounding of the ARPA format and of three decimals", "words of probability 0 are not generated"]


def lattice(seq):
    """arcs (from, to, word); an empty alternative is an arc @"""
    arcs, n, cur = [], 1, 0
    for it in seq:
        if isinstance(it, str):
            arcs.append((cur, n, it))
            cur, n = n, n + 1
        else:
            end = n
            n += 1
            for a in it[1]:
                a = a or ["@"]
                p = cur
                for w in a[:-1]:
                    arcs.append((p, n, w))
                    p, n = n, n + 1
                arcs.append((p, end, a[-1]))
            cur = end
    return arcs, cur


class Lm(Suite):
    name, quick, thorough = "lm", 1200, 20000

    def gen(self, s):
        v = ["a", "b", "c", "d", "ab", "abc"][:s.int(2, 6)]
        D = s.bool(.3)
        bag = [w for w in v for _ in range(s.int(1, 5))]
        train = [s.choice(bag) for _ in range(s.choice([20, 60, 150]))]
        words = v + v + ["oov"] + (["(%s)" % w for w in v[:2]] if D else [])

        def seq(k):
            o = []
            for _ in range(k):
                if s.bool(.15):
                    o.append(["alt", [[s.choice(words) for _ in range(s.weighted((3, 1), (2, 2), (1, 0), (1, 3)))] for _ in range(s.int(2, 3))]])
                else:
                    o.append(s.choice(words))
            return o
        utts = []
        for i in range(s.int(1, 6)):
            r = seq(s.int(0, s.choice([4, 8, 14])))
            flat = []
            for x in r:
                flat += [x] if isinstance(x, str) else s.choice(x[1])
            h = []
            for w in flat:
                x = s.draw(10)
                if x < 6:
                    h.append(w)
                elif x < 8:
                    h.append(s.choice(words))
                elif x == 8:
                    h += [w, s.choice(words)]
            if s.bool(.15):
                h = seq(s.int(0, 8))
            utts.append([r, h, "spk%d" % s.draw(3)])
        return {"v": v, "train": train, "n": s.int(2, 3), "vt": s.int(0, 2), "disc": s.choice(["witten_bell", "good_turing", "linear"]), "utts": utts, "D": D, "up": s.bool(.2)}

    def check(self, case, ctx):
        W = scl.Words(False, case["D"])
        U = case["utts"]
        n = case["n"]
        b = ctx.bins["slm"] + "/"
        ctx.write("v.vocab", "".join(w + "\n" for w in sorted(case["v"])))
        rc, out, err = ctx.run([b + "text2idngram", "-vocab", ctx.path("v.vocab"), "-n", str(n), "-buffer", "1", "-temp", ctx.dir, "-files", "5"], stdin=" ".join(case["train"]) + "\n", text=False)
        ctx.write("t.idn", out)
        ctx.run([b + "idngram2lm", "-idngram", ctx.path("t.idn"), "-vocab", ctx.path("v.vocab"), "-n", str(n), "-vocab_type", str(case["vt"]), "-" + case["disc"], "-calc_mem", "-binary", ctx.path("m.binlm")])
        ctx.run([b + "binlm2arpa", "-binary", ctx.path("m.binlm"), "-arpa", ctx.path("m.arpa")])
        m, _ = arpa(ctx.read("m.arpa"))
        up = (lambda w: w.upper()) if case["up"] else (lambda w: w)
        text = [[scl.render(scl.map_words(x, up)) for x in u[:2]] for u in U]
        ctx.write("r", "\n".join("%s (%s-%d)" % (t[0], u[2], i) for i, (u, t) in enumerate(zip(U, text))) + "\n")
        ctx.write("h", "\n".join("%s (%s-%d)" % (t[1], u[2], i) for i, (u, t) in enumerate(zip(U, text))) + "\n")

        def prob(h, w):
            h = tuple(x if x in case["v"] else "<UNK>" for x in (W.core(x) for x in h))
            q = logp(m, h, w)[0]
            if q is None or q < -6:
                raise Discard()
            return -q * math.log2(10)

        def weigh(seq):
            arcs, end = lattice(seq)
            into = {}
            for a in arcs:
                into.setdefault(a[1], []).append(a)
            res = []
            for f, t, w in arcs:
                if w == "@" or W.is_opt(w):
                    x = 0.0
                elif w not in case["v"]:
                    x = 20.0
                else:
                    hs = [()]
                    if f:
                        hs = []
                        for p in into[f]:
                            hs += [(q[2], p[2]) for q in into[p[0]]] if p[0] and n > 2 else [(p[2],)]
                    x = sum(prob(h, w) for h in hs) / len(hs)
                res.append((f, t, w, x))
            return res, end
        ws = [(weigh(u[0]), weigh(u[1])) for u in U]
        cmd = [ctx.bins["slm"] + "/sclite", "-r", "r", "trn", "-h", "h", "trn", "-i", "swb", "-L", "m.binlm", "-O", ctx.dir, "-f", "0", "-o", "sgml", "wws"]
        ctx.run(cmd + (["-D"] if case["D"] else []))
        sy = scl.parse_sgml(ctx.read("h.sgml"))[0]
        tot = {}
        seen = 0
        model = ctx.read("m.arpa").split("\\data\\")[-1]
        for sp in sy["speakers"]:
            for p in sp["paths"]:
                i = int(p["attrs"]["id"].rsplit("-", 1)[1][:-1])
                seen += 1
                what = "%s\nREF %s\nHYP %s\nALI %r\n%s" % (p["attrs"]["id"], text[i][0], text[i][1], p["toks"], model)
                aux = p["attrs"]["word_aux"].split(",")
                g = tot.setdefault(sp["id"], dict(ref=0.0, C=0.0, S=0.0, D=0.0, I=0.0, n=0, k=0, se=0, words=0))
                cost, err, path = 0.0, False, ([], [])
                for ev, a, b2, ax in p["toks"]:
                    x = {}
                    for side, nm, w in ((0, "r_weight", a), (1, "h_weight", b2)):
                        x[side] = float(ax[aux.index(nm)]) if w is not None else 0.0
                        if w is not None:
                            path[side].append((w, x[side]))
                    ok = {"C": (a is not None and b2 is not None and W.equal(a, b2)) or ((a is None or b2 is None) and W.is_opt(a or b2)),
                          "S": a is not None and b2 is not None and not W.equal(a, b2),
                          "D": b2 is None and a is not None and not W.is_opt(a), "I": a is None and b2 is not None and not W.is_opt(b2)}[ev]
                    if not ok:
                        raise Violation("%s: %r/%r labelled %s" % (what, a, b2, ev))
                    if ev == "C" and a is not None and b2 is not None:
                        g["ref"] += x[0]
                        g["C"] += x[1]
                        cost += 0
                    elif ev != "C":
                        cost += x[0] + x[1]
                        g[ev] += x[0] + x[1]
                        g["ref"] += x[0]
                        err = True
                    g["words"] += ev in "SD" or ev == "C"
                for side in (0, 1):
                    arcs, end = ws[i][side]
                    cur = self.close({0}, arcs)
                    for w, x in path[side]:
                        cur = self.close({t for f, t, y, z in arcs if f in cur and y == w and abs(z - x) < .003 + 2e-4 * z}, arcs)
                    if end not in cur:
                        raise Violation("%s: words and weights %r are no reading of %r" % (what, path[side], [a[2:] for a in arcs]))
                best = self.best(ws[i][0], ws[i][1], W)
                k = len(path[0]) + len(path[1])
                nulls = (text[i][0] + text[i][1]).count("@")
                if abs(cost - best) > .003 * k + 1e-3 + .001 * nulls + 2e-4 * best:
                    raise Violation("%s: weight %.4f, minimum %.4f" % (what, cost, best))
                g["n"] += 1
                g["k"] += k
                g["se"] += err
                ctx.evals += 1
                if err:
                    ctx.nontrivial((text[i], model))
        if seen != len(U):
            raise Violation("%d of %d utterances" % (seen, len(U)))
        ctx.label("n=%d" % n, case["disc"])
        rows = reports.table(ctx.read("h.wws"))[2:]
        if [r[0] for r in rows] != list(tot) + ["Sum/Avg", "Mean", "S.D.", "Median"]:
            raise Violation("weighted summary rows %r" % [r[0] for r in rows])
        for r, t in zip(rows, tot.values()):
            if t["ref"] < .5:
                continue
            e = .0005 * (t["k"] + 1)
            exp = [t[x] for x in "CSDI"] + [t["S"] + t["D"] + t["I"]]
            v = reports.nums(r[1:3])
            if v[:2] != [t["n"], t["words"]] or len(v) != 8 or any(abs(x * t["ref"] / 100 - y) > e + .0006 * t["ref"] + x / 100 * e for x, y in zip(v[2:7], exp)) or abs(v[7] - 100 * t["se"] / t["n"]) > .0503:
                raise Violation("weighted summary: %s prints %r; weights %r" % (r[0], v, t))
            ctx.evals += 1

    @staticmethod
    def close(nodes, arcs):
        while True:
            new = nodes | {t for f, t, w, x in arcs if w == "@" and f in nodes}
            if new == nodes:
                return nodes
            nodes = new

    @staticmethod
    def best(r, h, W):
        def order(x):
            pred = {}
            for a in x[0]:
                pred.setdefault(a[1], []).append(a)
            o, done = [], set()

            def visit(v):
                if v not in done:
                    done.add(v)
                    for a in pred.get(v, []):
                        visit(a[0])
                    o.append(v)
            visit(x[1])
            return o, pred
        ro, rp = order(r)
        ho, hp = order(h)
        D = {}
        for i in ro:
            for j in ho:
                c = [0.0] if i == 0 and j == 0 else []
                c += [D[a[0], j] + a[3] for a in rp.get(i, [])] + [D[i, b[0]] + b[3] for b in hp.get(j, [])]
                c += [D[a[0], b[0]] + (0 if W.equal(a[2], b[2]) else a[3] + b[3]) for a in rp.get(i, []) for b in hp.get(j, [])]
                D[i, j] = min(c)
        return D[r[1], h[1]]


def build():
    return {"slm": B.sclite()}


SUITES = [Lm()]
