"""C06: alignments written as SGML and read back (-p | -P) give the same reports as the direct run."""
import os, re
from vf import build as B, scl
from vf.engine import Suite, Violation
from checks.c04 import StmCtm
from checks.c05 import CtmCtm

RULE = ("A case is one scoring run (trn, stm/ctm or ctm/ctm input; alternations, labels, confidences, times, optional words, fragments, word "
        "weights, character alignment, UTF-8) whose reports are compared byte for byte with those of a second sclite that reads the first "
        "one's SGML output. One evaluation is one report file compared. Non-trivial: at least one error in the alignment; distinct SGML "
        "alignments counted.")
REPORTS = ["sum", "rsum", "pralign", "snt", "spk", "dtl", "prf", "sgml", "nl.sgml"]
HEAD = [';; CATEGORY "0" "" ""', ';; LABEL "O" "Overall" "Overall"', ';; CATEGORY "1" "Sex" "Speaker sex"', ';; LABEL "M" "Male" "Male speakers"']


def build():
    return {"sclite": B.sclite() + "/sclite"}


NCE = re.compile(rb"^(.*\|\s+)(-?\d+\.\d{3})(\s+\|)$")


def same_nce(x, y):
    """The last column, the normalised cross entropy, may round the other way: sclite keeps the confidences of a CTM file
    in single precision and those of an SGML file in double."""
    a, b = NCE.match(x), NCE.match(y)
    return bool(a and b and a[1].split() == b[1].split() and abs(float(a[2]) - float(b[2])) < .00101)


def compare(ctx, da, db, skip=()):
    fa, fb = sorted(os.listdir(da)), sorted(os.listdir(db))
    if fa != fb:
        raise Violation("report files differ: direct %r, through SGML %r" % (fa, fb))
    for f in fa:
        a, b = open(os.path.join(da, f), "rb").read(), open(os.path.join(db, f), "rb").read()
        if a != b:
            fix = lambda x: re.sub(rb'(Creation date:|creation_date=)\s*"[^"]*"', rb"\1", x)
            la, lb = fix(a).split(b"\n"), fix(b).split(b"\n")
            for x, y in zip(la, lb):
                if x != y and not same_nce(x, y):
                    raise Violation("%s: direct %r, through SGML %r" % (f, x, y))
            if len(la) != len(lb):
                raise Violation("%s: %d lines direct, %d through SGML" % (f, len(la), len(lb)))
        ctx.evals += 1


class Trip(Suite):
    name, quick, thorough = "round-trip", 5000, 40000

    def gen(self, s):
        kind = s.weighted((3, "trn"), (3, "stm"), (2, "ctm"))
        if kind == "stm":
            c = StmCtm().gen(s)
            c["extra"] = None
            c["groups"] = c["groups"][:3]
        elif kind == "ctm":
            c = CtmCtm().gen(s)
            c["bad"] = None
            c["chans"] = c["chans"][:2]
        else:
            D, F = s.bool(.3), s.bool(.3)
            o = {"alt": s.choice([0, .15]), "depth": 2, "case": s.bool(), "opt": D, "frag": F}
            utts = []
            for i in range(s.int(1, 8)):
                r = scl.gen_seq(s, o, 4, hi=30)
                if s.bool(.05):
                    r = r + ["w" * s.int(20, 90)]
                utts.append([r, scl.corrupt(s, scl.reading(s, r), o, .35), "spk%d" % s.draw(2)])
            c = {"utts": utts, "cs": s.bool(.4), "D": D, "F": F, "chr": s.bool(.15), "utf": s.bool(.2)}
        c["kind"] = kind
        c["w"] = s.weighted((4, None), (1, "unity"), (2, "file"))
        c["wts"] = [s.int(0, 40) for _ in range(8)]
        c["lab"] = s.bool(.5)
        if c.get("T"):
            c["w"] = None
        return c

    def check(self, case, ctx):
        k = case["kind"]
        head = HEAD if case["lab"] else []
        opts = []
        if k == "trn":
            ctx.write("r", "\n".join(head + ["%s (%s-%d)" % (scl.render(u[0]), u[2], i) for i, u in enumerate(case["utts"])]) + "\n")
            ctx.write("h", "\n".join(["%s (%s-%d)" % (scl.render(u[1]), u[2], i) for i, u in enumerate(case["utts"])]) + "\n")
            f = ["trn", "trn"]
            opts += ["-i", "swb"] + (["-c"] if case["chr"] and not case["w"] else []) + (["-e", "utf-8"] if case["utf"] else [])
        elif k == "stm":
            a, b = StmCtm.lines(case, head)
            ctx.write("r", "\n".join(a) + "\n")
            ctx.write("h", "\n".join(b) + "\n")
            f = ["stm", "ctm"]
        else:
            ctx.write("r", CtmCtm.ctm(case["chans"], "ref"))
            ctx.write("h", CtmCtm.ctm(case["chans"], "hyp"))
            f = ["ctm", "ctm"]
            opts += ["-T"] if case["T"] else []
        opts += (["-s"] if case["cs"] else []) + (["-D"] if case["D"] else []) + (["-F"] if case["F"] else [])
        enc = ["-e", "utf-8"] if "-e" in opts else []
        wopt, rep = [], list(REPORTS)
        if case["w"]:
            if case["w"] == "file":
                ctx.write("wwl", ";; 'Headings' 'Word Spelling' 'My Weight'\n;; Default missing weight '0.5'\n" + "".join("%s %.3f\n" % (w, x / 8.0) for w, x in zip(scl.BASE, case["wts"])))
            wopt = ["-w", "wwl" if case["w"] == "file" else "unity"]
            rep.append("wws")
        for d in "ab":
            os.mkdir(ctx.path(d))
        ctx.run([ctx.bins["sclite"], "-r", "r", f[0], "-h", "h", f[1]] + opts + wopt + ["-O", "a", "-f", "0", "-o"] + rep)
        sg = ctx.read("a/h.sgml")
        ctx.run([ctx.bins["sclite"], "-P"] + wopt + enc + ["-O", "b", "-f", "0", "-o"] + rep, stdin=sg)
        compare(ctx, ctx.path("a"), ctx.path("b"))
        toks = [t for sp in scl.parse_sgml(sg)[0]["speakers"] for p in sp["paths"] for t in p["toks"]]
        if any(t[0] != "C" for t in toks):
            ctx.nontrivial(toks)
        ctx.label(k, "weights: %s" % case["w"])


SUITES = [Trip()]
