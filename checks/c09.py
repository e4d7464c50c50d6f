"""C09: inferred word segmentation (-S algo1 / algo2)."""
import re
from vf import build as B, scl
from vf.engine import Suite, Violation
from checks import c08

RULE = ("A case is one sclite -S algo1|algo2 run with a generated sorted lexicon over GB or UTF-8 text. One evaluation is one utterance: the re-segmented "
        "side must be a path through the lattice of single characters and lexicon words, the other side a reading of its transcript, and the cost must equal the "
        "exhaustive minimum over that lattice. Non-trivial: the lattice has a multi-character arc and the cost differs from both the unsegmented and the "
        "given segmentation, or is above 0; counted by distinct utterances.")
ASSUMPTIONS = ["lexicons are sorted by byte value as documented; the re-segmented side has no null alternatives and no optionally deletable words"]
HAN = "中文字大"


class Lat(scl.Net):
    """every single unit plus every lexicon word over consecutive units"""

    def __init__(self, seq, lex, maxlen):
        super().__init__(seq)
        add = []

        def walk(start, v, text, n):
            if n > 1 and text in lex:
                add.append((start, text, v))
            if n == maxlen:
                return
            for w, t in self.edges[v]:
                if w is None:
                    walk(start, t, text, n)
                else:
                    walk(start, t, text + w, n + 1)
        for v in range(len(self.edges)):
            walk(v, v, "", 0)
        self.added = len(add)
        for a, w, b in set(add):
            self.edges[a].append((w, b))
            self.preds[b].append((w, a))


class Seg(Suite):
    name, quick, thorough = "segmentation", 30000, 250000

    def gen(self, s):
        enc = s.choice(["gb", "utf-8"])
        han = HAN[:s.int(2, 4)]

        def word():
            k = s.weighted((6, 0), (2, 1), (1, 2))
            if k == 0:
                return "".join(s.choice(han) for _ in range(s.weighted((3, 1), (4, 2), (2, 3), (1, 4))))
            if k == 1:
                return "".join(s.choice("abAB") for _ in range(s.int(1, 3)))
            return s.choice(han) + s.choice("ab") + s.choice(["", s.choice(han)])
        lex = [word() for _ in range(s.int(1, 14))]
        alt = s.choice([0, 0, .15])

        def w():
            return s.choice(lex) if s.bool(.5) else word()

        def seq(depth=0, hi=9):
            def item():
                if alt and depth < 2 and s.bool(alt):
                    return ["alt", [seq(depth + 1, 2) or ["a"] for _ in range(s.int(2, 3))]]
                return w()
            return s.list(item, 0, hi, 3)
        utts = []
        for i in range(s.int(1, 6)):
            r = seq()
            k = s.draw(5)
            if k == 0:
                h = seq()
            else:
                # same characters, other boundaries, then a few edits
                txt = "".join(scl.reading(s, r))
                h = []
                while txt:
                    n = s.int(1, 3)
                    h.append(txt[:n])
                    txt = txt[n:]
                if k > 2:
                    h = [w() if s.bool(.2) else x for x in h]
                if k > 3:
                    h = [x for x in h if not s.bool(.15)]
            utts.append([r, h])
        return {"enc": enc, "algo": s.int(1, 2), "ascii": s.bool(.4), "cs": s.bool(.3), "lex": lex, "cols": s.bool(.3), "utts": utts,
                "stm": s.bool(.25)}

    def check(self, case, ctx):
        enc, U = case["enc"], case["utts"]
        codec = {"gb": "gb2312", "utf-8": "utf-8"}[enc]
        if case["stm"]:
            U = [[u[0], scl.reading_first(u[1])] for u in U]
        rows = sorted({w.encode(codec) for w in case["lex"]})
        ctx.write("lex", b"".join(w + (b" extra 12" if case["cols"] else b"") + b"\n" for w in rows))
        cmd = [ctx.bins["sclite"], "-O", ctx.dir, "-n", "x", "-f", "0", "-o", "sgml", "-e", enc, "-S", "algo%d" % case["algo"], "lex"]
        cmd += (["ASCIITOO"] if case["ascii"] else []) + (["-s"] if case["cs"] else [])
        if case["stm"]:
            if not any(u[1] for u in U):
                return
            ctx.write("r", "".join("f 1 s %d %d %s\n" % (i * 20, i * 20 + 20, scl.render(u[0])) for i, u in enumerate(U)).encode(codec))
            ctx.write("h", "".join("f 1 %.2f 0.2 %s\n" % (i * 20 + k * .3 + .05, w) for i, u in enumerate(U) for k, w in enumerate(u[1])).encode(codec))
            cmd += ["-r", "r", "stm", "-h", "h", "ctm"]
        else:
            for n, k in (("r", 0), ("h", 1)):
                ctx.write(n, "".join("%s (s-%d)\n" % (scl.render(u[k]), i) for i, u in enumerate(U)).encode(codec))
            cmd += ["-r", "r", "trn", "-h", "h", "trn", "-i", "swb"]
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("x.sgml", binary=True).decode("latin-1"))[0]
        paths = {int(re.search(r"-(\d+)\)", p["attrs"]["id"])[1]): p for sp in sy["speakers"] for p in sp["paths"]}
        if sorted(paths) != list(range(len(U))):
            raise Violation("%d utterances in, alignments for %r out" % (len(U), sorted(paths)))
        W = scl.Words()
        lex = {w.decode("latin-1") for w in rows}
        maxlen = max([1] + [len(w.decode(codec)) for w in rows])
        for i, u in enumerate(U):
            f = lambda w: w if case["cs"] else c08.fold(w, enc, "generic")
            e = lambda w: w.encode(codec).decode("latin-1")

            def units(seq):
                out = []
                for it in seq:
                    if isinstance(it, str):
                        out += [e(c) for c in c08.chars(f(it), enc, "generic", not case["ascii"], False)]
                    else:
                        out.append(["alt", [units(a) for a in it[1]]])
                return out
            words = lambda seq: scl.map_words(seq, lambda w: e(f(w)))
            k = 1 if case["algo"] == 1 else 0
            nets = [None, None]
            nets[k] = Lat(units(u[k]), lex, maxlen)
            nets[1 - k] = scl.Net(words(u[1 - k]))
            toks = paths[i]["toks"]
            side = [[t[1] for t in toks if t[1] is not None], [t[2] for t in toks if t[2] is not None]]
            for n in (0, 1):
                if not nets[n].accepts(side[n]):
                    raise Violation("utterance %d: %s side %r is not a permitted segmentation of %r" % (i, ("reference", "hypothesis")[n], side[n], scl.render(u[n])))
            cost = 0
            for t in toks:
                ok = {"C": t[1] == t[2], "S": t[1] and t[2] and t[1] != t[2], "D": t[2] is None, "I": t[1] is None}[t[0]]
                if not ok:
                    raise Violation("utterance %d: token %r" % (i, t))
                cost += {"C": 0, "S": 4, "D": 3, "I": 3}[t[0]]
            best = scl.best_cost(nets[0], nets[1], W)
            if cost != best:
                raise Violation("utterance %d: alignment cost %d, minimum over the lattice %d: %r" % (i, cost, best, [t[:3] for t in toks]))
            ctx.evals += 1
            if nets[k].added and cost:
                ctx.nontrivial((u, case["algo"], case["ascii"], case["cs"]))
            if nets[k].added:
                ctx.label("lattice has lexicon arcs")
        ctx.label("algo%d" % case["algo"], enc, "stm" if case["stm"] else "trn", "ASCIITOO" if case["ascii"] else "multi-byte only")


def build():
    return {"sclite": B.sclite() + "/sclite"}


SUITES = [Seg()]
