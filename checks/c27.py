"""C27: no input makes the programs read or write outside their memory."""
import importlib
import re

from vf import build as B
from vf.engine import Suite, Violation

RULE = ("Every program is built with AddressSanitizer and UndefinedBehaviorSanitizer. The suites named after other properties run those properties' generated inputs through these builds; the suites named sizes generate well-formed inputs with extreme sizes "
        "(names, words, lines, labels, titles, numbers of words, speakers, utterances, systems, columns). One evaluation is one run; it must end by itself, without a signal and without a sanitizer report. Non-trivial: every run of a suite of sizes whose input has a part of 90 bytes or more, "
        "and the non-trivial cases of the other suites; counted by distinct inputs.")
ASSUMPTIONS = ["names of up to 256 bytes, words of up to 512", "leaks, signed overflow, shifts, alignment and float-to-integer casts are not judged", "words, names and lines within the documented limits of each format (rfilter1: lines whose output stays below 100000 bytes)"]
BORROW = {"c01": 700, "c02": 250, "c03": 150, "c04": 250, "c05": 250, "c06": 250, "c07": 250, "c08": 300, "c09": 200, "c10": 200, "c11": 150, "c12": 120, "c13": 150, "c14": 150, "c15": 250, "c16": 250, "c17": 120, "c18": 80, "c30": 60}
BAD = re.compile(r"^(sanitizer report|killed by signal|no answer)")


class Borrowed(Suite):
    def __init__(self, mod, inner, n):
        self.mod, self.inner = mod, inner
        self.name = mod + "-" + inner.name
        self.quick, self.thorough = n, n * 20

    def gen(self, s):
        return self.inner.gen(s)

    def check(self, case, ctx):
        keep = ctx.bins
        ctx.bins = keep[self.mod]
        try:
            self.inner.check(case, ctx)
        except Violation as v:
            # what the output says is judged by the other property
            if BAD.match(str(v)):
                raise
        finally:
            ctx.bins = keep


SIZES = [1, 3, 12, 18, 25, 40, 60, 80, 99, 100, 101, 127, 128, 150, 199, 200, 201, 256, 255, 256]
ALPHA = "abcdefghijklmnopqrstuvwxyz"


def name(s, big=.4, sizes=SIZES):
    """a name: short, or of one of the sizes buffers have"""
    n = s.choice(sizes) if s.bool(big) else s.int(1, 6)
    return [ALPHA[s.draw(25)], n]


def word(s, big=.08):
    w = name(s, big, SIZES + [300, 499, 500, 512])
    return w + [s.choice(["", "", "", "-", "()", "<>", "é", "%"])]


def txt(w):
    t = w[0] * w[1]
    d = w[2] if len(w) > 2 else ""
    return {"": t, "-": t + "-", "()": "(" + t + ")", "<>": "<" + t + ">", "é": "é" * w[1], "%": "%" + t}[d]


def words(s, big=.08):
    n = s.weighted((6, s.int(0, 6)), (3, s.int(6, 60)), (1, s.choice([49, 50, 51, 99, 100, 101, 199, 200, 201, 400])))
    out = []
    for _ in range(n):
        if s.bool(.06):
            out.append([[word(s, big) for _ in range(s.int(0, 3))] for _ in range(s.int(2, 3))])
        else:
            out.append(word(s, big))
    return out


def line(ws):
    return " ".join(txt(w) if isinstance(w[0], str) else "{ " + " / ".join(" ".join(txt(x) for x in a) or "@" for a in w) + " }" for w in ws)


def vary(s, ws):
    return [w for w in ws if not s.bool(.1)] + ([word(s)] if s.bool(.4) else [])


class SizesTrn(Suite):
    name, quick, thorough = "sizes-trn", 400, 12000

    def gen(self, s):
        sp = [name(s, .3) for _ in range(s.int(1, 4))]
        utts = []
        for i in range(s.choice([1, 2, 5, 12, 60])):
            r = words(s)
            utts.append([r, vary(s, r), s.draw(len(sp) - 1), name(s, .1)])
        return {"sp": sp, "utts": utts, "opts": s.subset(["-c", "-D", "-F", "-s", "-d", "-w"]), "title": name(s, .4), "id": s.choice(["swb", "rm", "wsj", "spu_id", "sp"]), "out": name(s, .2), "width": s.choice([None, 40, 1000, 10]), "wwl": [[word(s, .2) if s.bool(.9) else ["z", s.choice([990, 999, 1000, 1024, 3000]), ""], s.int(0, 9)] for _ in range(s.int(0, 5))],
                "enc": s.choice([None, "utf-8"]), "lines": s.bool(.2)}

    def check(self, case, ctx):
        f = [txt(x) for x in case["sp"]]
        for j, nm in ((0, "r"), (1, "h")):
            ctx.write(nm, "".join("%s (%s-%s%d)\n" % (line(u[j]), f[u[2]], txt(u[3]), i) for i, u in enumerate(case["utts"])))
        ctx.write("wwl", ";; 'Headings' 'Word Spelling' 'weight'\n" + "".join("%s %.3f\n" % (txt(w), x / 4) for w, x in case["wwl"]))
        out = txt(case["out"])[:200]
        cmd = [ctx.bins["d"] + "/sclite", "-r", "r", "trn", "-h", "h", "trn", txt(case["title"]), "-i", case["id"], "-n", out, "-O", ctx.dir, "-o", "sum", "rsum", "pralign", "prf", "dtl", "snt", "spk", "sgml", "nl.sgml", "lur"]
        o = [x for x in case["opts"] if x != "-w"]
        if "-w" in case["opts"] and not {"-c", "-d"} & set(o):
            cmd += ["wws", "-w", "wwl"]
        for x in o:
            cmd += {"-c": ["-c", "NOASCII", "DH"], "-s": ["-s"]}.get(x, [x])
        cmd += (["-e", case["enc"]] if case["enc"] else []) + (["-l", str(case["width"])] if case["width"] else [])
        run(ctx, cmd, case)


class SizesCtm(Suite):
    name, quick, thorough = "sizes-ctm", 400, 12000

    def gen(self, s):
        files = []
        for i in range(s.int(1, 3)):
            chans = []
            for c in range(s.int(1, 2)):
                t, segs = 0, []
                for k in range(s.int(1, 6)):
                    r = words(s)
                    segs.append([r, vary(s, [w for w in r if isinstance(w[0], str)]), s.int(1, 9), s.draw(2)])
                chans.append(segs)
            files.append([name(s, .3), name(s, .2), chans])
        return {"files": files, "sp": [name(s, .3) for _ in range(3)], "kind": s.choice(["stm", "ctm"]), "opts": s.subset(["-T", "-D", "-F", "-s", "-w"]), "conf": s.choice([None, "c", "c"]), "labs": [[name(s, .3), name(s, .4), name(s, .4)] for _ in range(s.choice([0, 0, 2, 8]))], "title": name(s, .3),
                "wwl": [[word(s, .2) if s.bool(.9) else ["z", s.choice([990, 999, 1000, 1024, 3000]), ""], s.int(0, 9)] for _ in range(s.int(0, 5))], "m": s.choice([None, "ref", "hyp"])}

    def check(self, case, ctx):
        sp = [txt(x) for x in case["sp"]]
        r, h, hr = [], [], []
        labs = [["%s%d" % (txt(a)[:60], i)] + [txt(x) for x in b] for i, (a, *b) in enumerate(case["labs"])]
        for i, a in enumerate(labs):
            r.append(";; LABEL \"%s\" \"%s\" \"%s\"" % tuple(a))
        for i, (f, c, chans) in enumerate(case["files"]):
            for j, segs in enumerate(chans):
                t = 0
                fn, cn = txt(f) + str(i), txt(c)[:50] + str(j)
                for rw, hw, dur, k in segs:
                    lab = "<%s> " % ",".join(labs[(k + x) % len(labs)][0] for x in range(1)) if labs else ""
                    r.append("%s %s %s %d %d %s%s" % (fn, cn, sp[k], t, t + dur, lab, line(rw)))
                    for n, (lst, dst) in enumerate(((hw, h), ([w for w in rw if isinstance(w[0], str)], hr))):
                        for q, w in enumerate(lst):
                            x = t + dur * q / len(lst)
                            dst.append("%s %s %.3f %.3f %s%s" % (fn, cn, x, dur / len(lst), txt(w), " %.3f" % ((q % 11) / 10) if case["conf"] else ""))
                    t += dur
        ctx.write("r.stm", "\n".join(r) + "\n")
        ctx.write("r.ctm", "\n".join(hr) + "\n")
        ctx.write("h.ctm", "\n".join(h) + "\n")
        ctx.write("wwl", ";; 'Headings' 'Word Spelling' 'weight'\n" + "".join("%s %.3f\n" % (txt(w), x / 4) for w, x in case["wwl"]))
        cmd = [ctx.bins["d"] + "/sclite", "-r", "r." + case["kind"], case["kind"], "-h", "h.ctm", "ctm", txt(case["title"]), "-O", ctx.dir, "-o", "sum", "rsum", "pralign", "prf", "dtl", "spk", "sgml", "lur"]
        if case["conf"]:
            cmd += ["-C", "det", "bhist", "hist", "sbhist"]
        if "-w" in case["opts"] and "-T" not in case["opts"]:
            cmd += ["-w", "wwl"]
        cmd += [x for x in case["opts"] if x in ("-D", "-F", "-s") or x == "-T" and case["kind"] == "ctm"] + (["-m", case["m"]] if case["m"] else [])
        run(ctx, cmd, case)


class SizesStats(Suite):
    name, quick, thorough = "sizes-stats", 150, 4000

    def gen(self, s):
        sp = [name(s, .3) for _ in range(s.int(1, 4))]
        utts = [[words(s, .03), s.draw(len(sp) - 1)] for _ in range(s.choice([2, 5, 20, 60]))]
        return {"sp": sp, "utts": [[r, [vary(s, r) for _ in range(6)], k] for r, k in utts], "n": s.choice([1, 2, 3, 6, 12]), "titles": [name(s, .4) for _ in range(12)], "out": name(s, .2), "v": s.bool(.3), "test": name(s, .3)}

    def check(self, case, ctx):
        f = [txt(x) + str(i) for i, x in enumerate(case["sp"])]
        ctx.write("r", "".join("%s (%s-%d)\n" % (line(u[0]), f[u[2]], i) for i, u in enumerate(case["utts"])))
        sg = ""
        for n in range(case["n"]):
            ctx.write("h%d" % n, "".join("%s (%s-%d)\n" % (line(u[1][n % 6]), f[u[2]], i) for i, u in enumerate(case["utts"])))
            rc, o, e = run(ctx, [ctx.bins["d"] + "/sclite", "-r", "r", "trn", "-h", "h%d" % n, "trn", txt(case["titles"][n]), "-i", "swb", "-f", "0", "-o", "sgml", "stdout"], case)
            if rc:
                return
            sg += o
        run(ctx, [ctx.bins["d"] + "/sc_stats", "-p", "-n", txt(case["out"])[:200], "-O", ctx.dir, "-t", "std4", "anovar", "-u", "-r", "sum", "rsum", "es", "res", "lur", "prn", "-g", "range", "grange", "det"] + (["-v"] if case["v"] else []) + ["-e", txt(case["test"])], case, sg)


class SizesRover(Suite):
    name, quick, thorough = "sizes-rover", 250, 8000

    def gen(self, s):
        f = [[name(s, .3), name(s, .2)] for _ in range(s.int(1, 2))]
        base = [[w for w in words(s) if isinstance(w[0], str)] for _ in f]
        n = s.choice([2, 3, 5, 10, 25, 49, 50, 51, 60])
        base = [b[:30 if n < 4 else 10 if n < 6 else 3 if n < 12 else 1] for b in base]
        return {"f": f, "base": base, "hyps": [[vary(s, b) for b in base] for _ in range(min(n, 5))], "n": n, "m": s.choice(["oracle", "meth1", "avgconf", "maxconf", "maxconfa", "putat"]), "opts": s.subset(["-s", "-T"]), "out": name(s, .2)}

    def check(self, case, ctx):
        cmd = [ctx.bins["d"] + "/rover"]
        for n in range(case["n"]):
            o = []
            for i, (f, c) in enumerate(case["f"]):
                for q, w in enumerate(case["hyps"][n % len(case["hyps"])][i]):
                    o.append("%s %s %.3f %.3f %s %.3f" % (txt(f) + str(i), txt(c), q * .3, .25, txt(w), (q % 11) / 10))
            ctx.write("h%d" % n, "\n".join(o) + "\n")
            cmd += ["-h", "h%d" % n, "ctm"]
        run(ctx, cmd + ["-o", txt(case["out"])[:200], "-m", case["m"]] + case["opts"] + ["-a", "0.5", "-c", "0.4"], case)


def run(ctx, cmd, case, inp=None):
    r = ctx.run(cmd, stdin=inp, ok=None, timeout=40)
    ctx.evals += 1
    ctx.label("status %d" % r[0])
    ctx.nontrivial((cmd[1:], case))
    return r


MODS = {m: importlib.import_module("checks." + m) for m in BORROW}


def build():
    B.FORCE.append(1)
    r = {m: x.build() for m, x in MODS.items()}
    r["d"] = B.sclite()
    r["a"] = B.asclite()
    return r


SUITES = [Borrowed(m, s, max(20, BORROW[m] // len(x.SUITES))) for m, x in MODS.items() for s in x.SUITES]
SUITES += [SizesTrn(), SizesCtm(), SizesStats(), SizesRover()]
