"""C21: hamzaNorm and tanweenFilt normalise every word of the text field, and nothing else."""
import re

from vf import build as B
from vf.engine import Suite, Violation

RULE = ("A case is one UTF-8 file (txt, ctm or stm) of Arabic and other words, with comments, labels, confidences, optional words, tabs and runs of blanks. One evaluation is one run of "
        "hamzaNorm.pl or tanweenFilt.pl, compared byte for byte with a word-level model. Non-trivial: some word changes; counted by distinct inputs.")
ASSUMPTIONS = ["UTF-8 text; optional words are written (word); a file name as input and output, or - for the standard streams"]
ALIF, HAMZA, TANWEEN = "\u0627", "\u0622\u0623\u0625\u0627", "\u064b\u064c\u064d"
OTHER = "\u0628\u062a\u0643\u0645\u064a\u0626\u0624\u0621\u064e\u0651bx-"


def hamza(w):
    return ALIF + w[1:] if w[0] in HAMZA else w      # an optional word starts with its parenthesis


def tanween(w, every):
    if every:
        return "".join(c for c in w if c not in TANWEEN)
    end = ")" if w.endswith(")") else ""
    return w[:len(w) - len(end)].rstrip(TANWEEN) + end


class Norm(Suite):
    name, quick, thorough = "normalise", 8000, 100000

    def gen(self, s):
        fmt = s.choice(["txt", "ctm", "stm"])
        ch = lambda: s.choice(s.choice([HAMZA, TANWEEN, OTHER, OTHER]))

        def word():
            w = "".join(ch() for _ in range(s.int(1, 5)))
            if s.bool(.3):
                w += "".join(s.choice(TANWEEN) for _ in range(s.int(1, 3)))
            return "(%s)" % w if s.bool(.2) else w
        sep = lambda: s.choice([" ", " ", " ", "  ", "\t", " \t"])
        lines = []
        for _ in range(s.int(0, 6)):
            if fmt != "txt" and s.bool(.15):
                lines.append({"pre": s.choice([";;", "#"]) + s.choice(["", " "]) + word() + " " + word(), "ws": [], "post": ""})
                continue
            pre = s.choice(["", "", " ", "\t "])
            post = s.choice(["", "", " ", "\t"])
            if fmt != "txt":
                # other fields may hold the same letters: they stay as they are
                for f in [s.choice(["f1", ALIF + "\u0623\u064b", "\u0623x"]), s.choice(["A", "\u0625"])] + \
                        ([s.choice(["spk", "\u0622b\u064d"])] if fmt == "stm" else []) + ["1.5", "0.25" if fmt == "ctm" else "2.75"]:
                    pre += f + sep()
                if fmt == "stm" and s.bool(.4):
                    pre += s.choice(["<o,f0>", "<\u0623\u064b>"]) + sep()
                if fmt == "ctm" and s.bool(.4):
                    post = sep() + s.choice(["0.5", "1", "NA"]) + post
            ws = []
            for i in range(1 if fmt == "ctm" else s.int(1 if fmt == "stm" else 0, 6)):
                ws += [sep()] if i else []
                ws.append(word())
            lines.append({"pre": pre, "ws": ws, "post": post})
        return {"fmt": fmt, "lines": lines, "tool": s.choice(["hamza", "tanween", "tanween -a"]), "io": s.int(0, 3), "eol": not s.bool(.1), "dflt": s.bool()}

    def check(self, case, ctx):
        t = case["tool"]
        f = hamza if t == "hamza" else lambda w: tanween(w, t[-1] == "a")
        src = want = ""
        for l in case["lines"]:
            src += l["pre"] + "".join(l["ws"]) + l["post"] + "\n"
            want += l["pre"] + "".join(f(w) if i % 2 == 0 else w for i, w in enumerate(l["ws"])) + l["post"] + "\n"
        if not case["eol"] and src.rstrip("\n") and src[-2:-1] != "\n":
            src = src[:-1]
        ctx.write("in", src)
        i, o = ("in" if case["io"] & 1 else "-"), ("out" if case["io"] & 2 else "-")
        cmd = ["perl", ctx.bins["hamza" if t == "hamza" else "tanween"]] + (["-a"] if t[-2:] == "-a" else [])
        cmd += [] if case["fmt"] == "txt" and case["dflt"] else ["-i", case["fmt"]]
        rc, out, err = ctx.run(cmd + [i, o], stdin=src if i == "-" else None)
        if o == "out":
            if out:
                raise Violation("text on standard output as well: %r" % out)
            out = ctx.read("out")
        ctx.evals += 1
        if out != want:
            raise Violation("%s\ninput:    %r\noutput:   %r\nexpected: %r" % (cmd[2:], src, out, want))
        ctx.label(case["fmt"], t)
        if src.rstrip("\n") != want.rstrip("\n"):
            ctx.nontrivial((src, t, case["fmt"]))


def build():
    d = B.perl()
    return {"hamza": d + "/hamzaNorm.pl", "tanween": d + "/tanweenFilt.pl"}


SUITES = [Norm()]
