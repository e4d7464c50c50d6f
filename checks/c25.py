"""C25: the RTTM utilities lose, invent and misplace no record."""
import os
import re
from fractions import Fraction as F

from vf import build as B
from vf.engine import Suite, Violation

RULE = ("A case is one input file for rttmSort, rttmSmooth, spkr2sad, stm2rttm, rttm2ctm or mergectm2rttm: records of several files, channels and speakers, with ties, gaps on both sides of the threshold, and different "
        "spellings of one time. One evaluation is one run, its output compared record by record with a model. Non-trivial: more than three records, or a run that must fail; counted by distinct inputs.")
ASSUMPTIONS = ["a speaker is declared once per file; channels are numbers; no record contains ';;'", "the order of records that compare equal, and of the groups rttmSmooth and stm2rttm print, is free",
               "where a word falls in the turns of several speakers, mergectm2rttm may choose any of them"]
ORDER = {"SPKR-INFO": 0, "NOSCORE": 1, "NO_RT_METADATA": 2, "SEGMENT": 3, "SPEAKER": 4, "SU": 5, "A/P": 6, "CB": 7, "IP": 8, "EDIT": 9, "FILLER": 10, "NON-SPEECH": 11, "NON-LEX": 12, "LEXEME": 13}
WORDS = ["word", "it's", "(uh)", "[noise]", "%hes", "a_b", "{x/y}", "1", "<NA>", "\u0643"]


def num(s, cs):
    """one of the spellings of a time in hundredths"""
    t = "%d.%02d" % (cs // 100, cs % 100)
    k = s.int(0, 3)
    return t if k < 2 else t + "0" if k == 2 else t.rstrip("0").rstrip(".")


def gen_rttm(s, types, n, two=True):
    out, decl = [], set()
    for _ in range(s.int(0, n)):
        ty = s.choice(types)
        f, ch = s.choice(["f1", "f2", "F-3"]), s.choice(["1", "2"]) if two else "1"
        spk = s.choice(["s1", "s2", "s3"])
        a, d = s.int(0, 600), s.weighted((3, s.int(1, 80)), (1, 0))
        if s.bool(.3):
            a = a // 100 * 100
        if ty == "SPKR-INFO":
            if (f, spk) in decl:
                continue
            decl.add((f, spk))
            out.append([ty, f, ch, "<NA>", "<NA>", "<NA>", s.choice(["adult_male", "unknown"]), spk, "<NA>"])
            continue
        out.append([ty, f, ch, num(s, a), "<NA>" if ty in ("IP", "CB") else num(s, d), s.choice(WORDS) if ty == "LEXEME" else "<NA>",
                    s.choice(["lex", "lex", "fp", "un-lex"]) if ty == "LEXEME" else s.choice(["<NA>", "edit&filler", "filled_pause", "other"]), "<NA>" if ty in ("NOSCORE", "NON-SPEECH") else spk,
                    s.choice(["<NA>", "0.5", "1", ".25"])])
    return out


def text(s_lines):
    return "".join(x + "\n" for x in s_lines)


def bag(rows):
    return sorted(tuple(r) for r in rows)


class Sort(Suite):
    name, quick, thorough = "sort", 1200, 20000

    def gen(self, s):
        r = gen_rttm(s, list(ORDER), 14)
        return {"recs": r, "sep": s.choice([" ", "  ", "\t"]), "comments": s.bool(.3), "stdin": s.bool()}

    def check(self, c, ctx):
        lines = [c["sep"].join(r) for r in c["recs"]]
        if c["comments"]:
            lines = [";; head"] + lines[:1] + [";; LEXEME f1 1 0 1 x lex s1 1"] + lines[1:]
        if c["stdin"]:
            rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/rttmSort.pl"], stdin=text(lines))
        else:
            rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/rttmSort.pl", ctx.write("x.rttm", text(lines))])
        rows = [ln.split() for ln in out.splitlines()]
        ctx.evals += 1
        if bag(rows) != bag(c["recs"]):
            raise Violation("records lost or changed:\n%s\n->\n%s" % ("\n".join(lines), out))
        key = lambda r: (r[0] != "SPKR-INFO",) + ((r[1] + " " + r[7],) if r[0] == "SPKR-INFO" else (r[1], r[2], F(r[3]), ORDER[r[0]]))
        if [key(r) for r in rows] != sorted(key(r) for r in rows):
            raise Violation("records out of order:\n" + out)
        if len(rows) > 3:
            ctx.nontrivial(c)


def smooth(segs, gap):
    """(begin, end) pairs, hundredths"""
    out = []
    for a, b in sorted(segs):
        if out and a - out[-1][1] <= gap:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


class Smooth(Suite):
    name, quick, thorough = "smooth", 1200, 20000

    def gen(self, s):
        other = gen_rttm(s, [t for t in ORDER if t != "SPEAKER"], 5)
        segs = []
        gap = s.choice([30, 30, 0, 50, 100])
        for f in s.subset(["f1", "f2"], 1):
            for ch in s.subset(["1", "2"], 1):
                for spk in s.subset(["s1", "s2"], 1):
                    pos = s.int(0, 300)
                    for _ in range(s.int(0, 5)):
                        d = s.int(1, 60)
                        segs.append(["SPEAKER", f, ch, num(s, pos), num(s, d), "<NA>", "<NA>", spk, s.choice(["<NA>", "0.5"])])
                        pos += d + s.choice([gap, gap, gap + 1, max(0, gap - 1), s.int(0, 200), -min(d, 5)])
        return {"other": other, "segs": s.shuffle(segs), "gap": gap, "opt": gap != 30 or s.bool()}

    def check(self, c, ctx):
        rows = c["segs"] + c["other"]
        rows = rows[::2] + rows[1::2]
        cmd = ["perl", ctx.bins["perl"] + "/rttmSmooth.pl"] + (["-s", "%g" % (c["gap"] / 100)] if c["opt"] else [])
        rc, out, err = ctx.run(cmd, stdin=text([";; head"] + [" ".join(r) for r in rows]))
        got = [ln.split() for ln in out.splitlines() if not ln.startswith(";;")]
        ctx.evals += 1
        if ";; head" not in out.splitlines():
            raise Violation("the comment is gone")
        if bag(r for r in got if r[0] != "SPEAKER") != bag(c["other"]):
            raise Violation("other records lost or changed:\n%s\n->\n%s" % (text(" ".join(r) for r in rows), out))
        want = {}
        for r in c["segs"]:
            a = F(r[3])
            want.setdefault((r[1], r[2], r[7]), []).append((a, a + F(r[4])))
        have = {}
        for r in got:
            if r[0] == "SPEAKER":
                a = F(r[3])
                have.setdefault((r[1], r[2], r[7]), []).append((a, a + F(r[4])))
        for k in want:
            want[k] = smooth(want[k], F(c["gap"], 100))
        for k in have:
            if have[k] != sorted(have[k]):
                raise Violation("turns of %s out of order" % (k,))
        if want != have:
            raise Violation("turns smoothed to %s instead of %s\n%s" % ({k: [(float(a), float(b)) for a, b in v] for k, v in have.items()}, {k: [(float(a), float(b)) for a, b in v] for k, v in want.items()},
                                                                        text(" ".join(r) for r in c["segs"])))
        if len(c["segs"]) > 3:
            ctx.nontrivial(c)


class Sad(Suite):
    name, quick, thorough = "sad", 500, 8000

    def gen(self, s):
        recs = gen_rttm(s, ["SPEAKER", "SPEAKER", "SPEAKER", "SPKR-INFO", "LEXEME", "NOSCORE"], 12, two=False)
        return {"recs": recs}

    def check(self, c, ctx):
        files = {r[1] for r in c["recs"]}
        lines = [" ".join(r) for r in c["recs"]]
        rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/spkr2sad.pl"], stdin=text([";; head"] + lines), ok=None)
        ctx.evals += 1
        if any(not any(r[1] == f and r[0] in ("SPEAKER", "SPKR-INFO") for r in c["recs"]) for f in files):
            if rc == 0:
                raise Violation("a file without speakers was converted:\n" + text(lines))
            ctx.nontrivial(c)
            return
        if rc:
            raise Violation("exit %d: %s\n%s" % (rc, err, text(lines)))
        got = [ln.split() for ln in out.splitlines()[1:]]
        i = 0
        for f in sorted(files):
            if i >= len(got) or got[i][0] != "SPKR-INFO" or got[i][1] != f or got[i][3:8] != ["<NA>", "<NA>", "<NA>", "unknown", "speech"]:
                raise Violation("no declaration of 'speech' for %s:\n%s" % (f, out))
            spk = [r for r in c["recs"] if r[0] == "SPEAKER" and r[1] == f]
            part = got[i + 1:i + 1 + len(spk)]
            if bag(part) != bag(r[:7] + ["speech"] + r[8:] for r in spk) or [F(r[3]) for r in part] != sorted(F(r[3]) for r in part):
                raise Violation("turns of %s:\n%s\n->\n%s" % (f, text(lines), out))
            i += 1 + len(spk)
        if i != len(got):
            raise Violation("extra records:\n" + out)
        if len(c["recs"]) > 3:
            ctx.nontrivial(c)


class Stm2Rttm(Suite):
    name, quick, thorough = "stm2rttm", 1200, 20000
    GAP = {"rt02": 50, "rt04s": 0, "rt05s": 30}

    def gen(self, s):
        e = s.choice(sorted(self.GAP))
        gap = self.GAP[e]
        sex = {}
        segs = []
        for f in s.subset(["f1", "f2"], 1):
            for ch in s.subset(["1", "2"], 1):
                for spk in s.subset(["s1", "s2", "Excluded_Region", "inter_segment_gap"], 1):
                    sex.setdefault(spk, s.choice(["male", "female", "unk", "unknown"]))
                    pos = s.int(0, 300)
                    for _ in range(s.int(1, 6)):
                        d = s.int(1, 60)
                        segs.append([f, ch, spk, pos, pos + d, sex[spk]])
                        pos += d + s.choice([gap, gap, gap + 1, max(0, gap - 1), 0, s.int(0, 200)])
        c = {"e": e, "segs": segs if s.bool(.4) else s.shuffle(segs), "texts": [s.choice(["", "a b", "{ x / @ }", "ignore_time_segment_in_scoring"]) for _ in segs], "bad": None,
             "sp": [[num(s, g[3]), num(s, g[4])] for g in segs]}
        c["sp"] = [[num(s, g[3]), num(s, g[4])] for g in c["segs"]]
        if s.bool(.12):
            c["bad"] = s.choice(["overlap", "sex", "eval"])
        return c

    def check(self, c, ctx):
        lines = []
        for g, t, (a, b) in zip(c["segs"], c["texts"], c["sp"]):
            lab = {"rt02": "<o,f0,%s>", "rt04s": "<o,%s>", "rt05s": "<o>"}[c["e"]]
            lines.append("%s %s %s %s %s %s %s" % (g[0], g[1], g[2], a, b, lab % g[5] if "%" in lab else lab, t))
        real = [g for g in c["segs"] if g[2] != "inter_segment_gap"]
        fail = False
        if c["bad"] == "overlap" and real:
            g = real[0]
            x = g[4] - 1
            lines.append("%s %s %s %.2f %.2f %s x" % (g[0], g[1], g[2], x / 100, (x + 3) / 100, lines[c["segs"].index(g)].split()[5]))
            fail = True
        elif c["bad"] == "sex" and c["e"] != "rt05s" and any(g[2] in ("s1", "s2") for g in real):
            g = [g for g in real if g[2] in ("s1", "s2")][0]
            lines.append("%s %s %s 99 100 %s x" % (g[0], g[1], g[2], ("<o,f0,%s>" if c["e"] == "rt02" else "<o,%s>") % ("female" if g[5] != "female" else "male")))
            fail = True
        elif c["bad"] == "eval":
            fail = True
        e = "rt99" if c["bad"] == "eval" else c["e"]
        rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/stm2rttm.pl", "-e", e], stdin=text([";; comment", ""] + lines), ok=None)
        ctx.evals += 1
        if fail:
            if rc == 0:
                raise Violation("%s was accepted:\n%s" % (c["bad"], text(lines)))
            ctx.nontrivial(c)
            return
        if rc:
            raise Violation("exit %d: %s\n%s" % (rc, err[-300:], text(lines)))
        tr = {}
        for f, ch, spk, a, b, sx in real:
            tr.setdefault((f, ch, spk), []).append((a, b))
        want = []
        for (f, ch, spk), segs in tr.items():
            ex = "excluded" in spk.lower()
            if not ex:
                sx = [g[5] for g in real if g[2] == spk][0]
                want.append(("SPKR-INFO", f, ch, None, None, "unknown" if c["e"] == "rt05s" or sx.startswith("unk") else "adult_" + sx, spk))
            for a, b in smooth(segs, self.GAP[c["e"]]):
                want.append(("NOSCORE" if ex else "SPEAKER", f, ch, F(a, 100), F(b - a, 100), "<NA>", "<NA>" if ex else spk))
        got = []
        for ln in out.splitlines():
            r = ln.split()
            if len(r) != 9 or r[5] != "<NA>" or r[8] != "<NA>":
                raise Violation("record %r" % ln)
            got.append((r[0], r[1], r[2], None if r[3] == "<NA>" else F(r[3]), None if r[4] == "<NA>" else F(r[4]), r[6], r[7]))
        if sorted(map(str, got)) != sorted(map(str, want)):
            raise Violation("missing %s, extra %s\n%s" % ([str(x) for x in want if x not in got], [str(x) for x in got if x not in want], text(lines)))
        if len(real) > 3:
            ctx.nontrivial(c)


class ToCtm(Suite):
    name, quick, thorough = "rttm2ctm", 500, 8000

    def gen(self, s):
        return {"recs": gen_rttm(s, list(ORDER) + ["LEXEME"] * 12, 12), "io": s.int(0, 3), "bad": s.bool(.08)}

    def check(self, c, ctx):
        lines = [";; head"] + [" ".join(r) for r in c["recs"]] + (["LEXEME f1 one 0.5 0.5 x lex s1 0.5"] if c["bad"] else [])
        cmd = ["perl", ctx.bins["perl"] + "/rttm2ctm.pl"]
        stdin = text(lines)
        if c["io"] & 1:
            cmd += ["-i", ctx.write("x.rttm", stdin)]
            stdin = ""
        if c["io"] & 2:
            cmd += ["-o", ctx.path("x.ctm")]
        rc, out, err = ctx.run(cmd, stdin=stdin, ok=None)
        ctx.evals += 1
        if c["bad"]:
            if rc == 0:
                raise Violation("a malformed record was accepted")
            return
        if rc:
            raise Violation("exit %d: %s\n%s" % (rc, err[-300:], text(lines)))
        if c["io"] & 2:
            out = ctx.read("x.ctm")
        want = [" ".join([r[1], r[2], r[3], r[4], r[5], r[8]]) for r in c["recs"] if r[0] == "LEXEME" and r[6] == "lex"]
        if out.splitlines() != want:
            raise Violation("words %s instead of %s" % (out.splitlines(), want))
        if len(want) > 2:
            ctx.nontrivial(c)


class Merge(Suite):
    name, quick, thorough = "merge", 1200, 10000

    def gen(self, s):
        decl, turns, words = [], [], []
        for f in s.subset(["f1", "f2"], 1):
            for spk in s.subset(["s1", "s2", "s3"], 1):
                ch = s.choice(["1", "2"])
                decl.append([f, ch, spk])
                pos = s.choice([0, s.int(0, 200)])
                for _ in range(s.int(0, 3)):
                    d = s.int(5, 200)
                    turns.append([f, ch, spk, num(s, pos), num(s, d)])
                    pos += d + s.int(0, 100)
            for ch in "12":
                for _ in range(s.int(0, 6)):
                    a = s.choice([0, 100, s.int(0, 500)])
                    words.append([f, ch, num(s, a), num(s, s.int(1, 60)), s.choice(["a", "b", "it's", "(uh)"]), s.choice(["0.5", "1"]), s.choice(["lex", "lex", "lex", "fp"]), "x"][:s.int(7, 8)])
        return {"decl": decl, "turns": s.shuffle(turns), "words": words}

    def check(self, c, ctx):
        rttm = ["SPKR-INFO %s %s <NA> <NA> <NA> unknown %s <NA>" % tuple(d) for d in c["decl"]] + ["SPEAKER %s %s %s %s <NA> <NA> %s <NA>" % (t[0], t[1], t[3], t[4], t[2]) for t in c["turns"]]
        ctm = [" ".join(w) for w in c["words"]]
        for n in ("rttmSmooth", "rttmSort"):
            os.makedirs(ctx.path(n), exist_ok=True)
            with open(ctx.bins["perl"] + "/%s.pl" % n) as src, open(ctx.path(n + "/%s.pl" % n), "w") as dst:
                dst.write(src.read())
            os.chmod(ctx.path(n + "/%s.pl" % n), 0o755)
        rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/mergectm2rttm.pl", "-p", ctx.dir, "-r", ctx.write("x.rttm", text([";; c"] + rttm)), "-c", ctx.write("x.ctm", text([";; c"] + ctm))])
        ctx.evals += 1
        got = [ln.split() for ln in out.splitlines() if not ln.startswith(";;")]
        show = text(rttm) + "--\n" + text(ctm) + "->\n" + out
        chans = {(f, ch) for f, ch, spk in c["decl"]}
        if bag((r[1], r[2], r[7]) for r in got if r[0] == "SPKR-INFO") != bag(c["decl"]):
            raise Violation("declarations lost or invented:\n" + show)
        left, used = [], {}
        for w in c["words"]:
            if w[6] != "lex" or (w[0], w[1]) not in chans:
                continue
            mid = F(w[2]) + F(w[3]) / 2
            who = {t[2] for t in c["turns"] if t[:2] == w[:2] and F(t[3]) <= mid <= F(t[3]) + F(t[4])}
            if who:
                left.append((w, who))
        lex = [r for r in got if r[0] == "LEXEME"]
        for r in lex:
            for x in left:
                w, who = x
                if [r[1], r[2], r[3], r[4], r[5], r[8]] == w[:6] and r[6] == "lex" and r[7] in who:
                    left.remove(x)
                    break
            else:
                raise Violation("word %s was not there, or not in a turn of its speaker:\n%s" % (r, show))
            used.setdefault((r[1], r[2], r[7]), []).append((F(r[3]), F(r[3]) + F(r[4])))
        if left:
            raise Violation("words lost: %s\n%s" % ([w for w, who in left], show))
        want = {k: smooth(v, F(3, 10)) for k, v in used.items()}
        have = {}
        for r in got:
            if r[0] == "SPEAKER":
                have.setdefault((r[1], r[2], r[7]), []).append((F(r[3]), F(r[3]) + F(r[4])))
        if want != have:
            raise Violation("turns of the words:\n" + show)
        if len(lex) > 2:
            ctx.nontrivial(c)


SUITES = [Sort(), Smooth(), Sad(), Stm2Rttm(), ToCtm(), Merge()]


def build():
    return {"perl": B.perl()}
