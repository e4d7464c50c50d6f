"""C23: md-eval scores speaker diarization as defined, under an optimal one-to-one speaker mapping."""
import itertools
import re

from vf import build as B
from vf.engine import Suite, Violation, Discard

RULE = ("A case is a reference and a system RTTM (several files and channels, speakers with and without overlap, genders, words, non-lexical events, unscored zones), perhaps a UEM, a collar, -1 and "
        "conditional analyses. One evaluation is one figure or matrix entry of a report, one entry of the speaker map, or the optimality of one map. Non-trivial: the reference and the system "
        "differ and something is excluded or two speakers compete for a map; counted by distinct inputs.")
ASSUMPTIONS = ["one speaker does not overlap itself; file names have no dots; every condition reported has scored speech; word midpoints do not fall on a boundary",
               "where several maps are optimal, any of them is accepted", "the time-weighted type matrix is judged when each side has one speaker type"]
CELL = 5                       # milliseconds
EXT = 500 // CELL
GENDERS = ["adult_male", "adult_female", "child", "unknown"]


def span(a, b):
    return ((1 << (b - a)) - 1) << a if b > a else 0


def bits(x):
    return bin(x).count("1")


def fmt(c):
    """cells to a decimal time"""
    ms = c * CELL
    t = "%d.%03d" % (ms // 1000, ms % 1000)
    return t.rstrip("0").rstrip(".") if ms % 10 == 0 else t


def assign(w, rows, cols):
    """the largest total overlap of a one-to-one map: dynamic programme over the smaller side"""
    if len(rows) < len(cols):
        w = {(c, r): v for (r, c), v in w.items()}
        rows, cols = cols, rows
    best = {0: 0}
    for r in rows:
        nxt = dict(best)
        for m, v in best.items():
            for j, c in enumerate(cols):
                if not m >> j & 1 and (r, c) in w:
                    k = m | 1 << j
                    if nxt.get(k, -1) < v + w[r, c]:
                        nxt[k] = v + w[r, c]
        best = nxt
    return max(best.values())


class Track:
    """what md-eval should find in one file and channel"""

    def __init__(self, case, ref, sys, uem):
        spk = lambda t: {s: sum_or(span(a, b) for a, b in segs) for s, segs in t["spk"].items()}
        R, S = spk(ref), spk(sys)
        words = []
        for w in ref["lex"]:
            parts = w["w"][1:-1].count("-") + 1 if w["w"] not in ("uh-huh", "mm-hmm") else 1
            d = w["b"] - w["a"]
            for j in range(parts):
                words.append((2 * w["a"] * parts + (2 * j + 1) * d) // (2 * parts))   # the cell of its midpoint (mid is never on a used boundary)
        ends = [(a, b) for segs in ref["spk"].values() for a, b in segs] + [(w["a"], w["b"]) for w in ref["lex"]] + [(z["a"], z["b"]) for z in ref["nl"]]
        if uem is None:
            U = span(min(a for a, b in ends), max(b for a, b in ends))
        else:
            U = sum_or(span(a, b) for a, b in uem)
        E = U & ~sum_or(span(a, b) for a, b in ref["ns"])
        self.n = n = {}
        n["EVAL TIME"] = bits(E)
        speech = sum_or(R.values())
        n["EVAL SPEECH"] = bits(E & speech)
        n["EVAL WORDS"] = sum(E >> c & 1 for c in words)
        self.overlap = {(r, s): bits(E & R[r] & S[s]) for r in R for s in S if E & R[r] & S[s]}
        self.best = assign(self.overlap, sorted({r for r, s in self.overlap}), sorted({s for r, s in self.overlap})) if self.overlap else 0
        C = E
        if case["collar"]:
            for segs in ref["spk"].values():
                for t in itertools.chain(*segs):
                    C &= ~span(max(0, t - case["collar"]), t + case["collar"])
        marks = {t for segs in ref["spk"].values() for t in itertools.chain(*segs)}
        for z in ref["nl"]:
            a, b = z["a"], z["b"]
            if not any(w["a"] < a < w["b"] for w in ref["lex"]):
                a = max([a - EXT, 0] + [t for t in marks if t <= a] + [w["b"] for w in ref["lex"] if w["b"] <= a])
            e = z["b"]
            if not any(w["a"] < e < w["b"] for w in ref["lex"]):
                b = min([e + EXT] + [t for t in marks if t >= e] + [w["a"] for w in ref["lex"] if w["a"] >= e])
            C &= ~span(a, b)
        if case["one"]:
            for r, q in itertools.combinations(sorted(R), 2):
                C &= ~(R[r] & R[q])
        self.R, self.S, self.E, self.C, self.words = R, S, E, C, words
        self.excluded = C != U
        self.types = {"R": {r: ref["gender"].get(r, "unknown") for r in R}, "S": {s: sys["gender"].get(s, "unknown") for s in S}}

    def score(self, m):
        """the figures of this track under speaker map m"""
        n, C, R, S = dict(self.n), self.C, self.R, self.S
        cuts = {0}
        for x in itertools.chain(R.values(), S.values(), [C]):
            y = x ^ (x << 1)
            while y:
                low = y & -y
                cuts.add(low.bit_length() - 1)
                y ^= low
        cuts = sorted(cuts)
        z = lambda *ks: [n.setdefault(k, 0) for k in ks]
        z("SCORED TIME", "SCORED SPEECH", "MISSED SPEECH", "FALARM SPEECH", "SCORED SPEAKER TIME", "MISSED SPEAKER TIME", "FALARM SPEAKER TIME", "SPEAKER ERROR TIME",
          "SCORED WORDS", "MISSED WORDS", "SPEAKER ERROR WORDS")
        ttype = {}
        for a, b in zip(cuts, cuts[1:]):
            if not C >> a & 1:
                continue
            d = b - a
            r = {x for x in R if R[x] >> a & 1}
            s = {x for x in S if S[x] >> a & 1}
            ok = sum(1 for x in r if m.get(x) in s)
            nw = sum(1 for w in self.words if a <= w < b)
            n["SCORED TIME"] += d
            n["SCORED SPEECH"] += d if r else 0
            n["MISSED SPEECH"] += d if r and not s else 0
            n["FALARM SPEECH"] += d if s and not r else 0
            n["SCORED SPEAKER TIME"] += d * len(r)
            n["MISSED SPEAKER TIME"] += d * max(0, len(r) - len(s))
            n["FALARM SPEAKER TIME"] += d * max(0, len(s) - len(r))
            n["SPEAKER ERROR TIME"] += d * (min(len(r), len(s)) - ok)
            n["SCORED WORDS"] += nw
            n["MISSED WORDS"] += nw if not s else 0
            n["SPEAKER ERROR WORDS"] += nw if not (len(r) == len(s) == ok) else 0
            tr = {self.types["R"][x] for x in r}
            ts = {self.types["S"][x] for x in s}
            for t in tr:
                ttype["R", t] = ttype.get(("R", t), 0) + d * len(r)
                for u in ts:
                    ttype[t, u] = ttype.get((t, u), 0) + d * min(len(r), len(s))
                ttype[t, "MISS"] = ttype.get((t, "MISS"), 0) + d * max(0, len(r) - len(s))
            for u in ts:
                ttype["S", u] = ttype.get(("S", u), 0) + d * len(s)
                ttype["FALSE ALARM", u] = ttype.get(("FALSE ALARM", u), 0) + d * max(0, len(s) - len(r))
        ntype = {}
        inc = lambda *k: ntype.__setitem__(k, ntype.get(k, 0) + 1)
        for x in R:
            if R[x] & self.E:
                inc("R", self.types["R"][x])
                inc(self.types["R"][x], self.types["S"][m[x]] if x in m else "MISS")
        for x in S:
            if S[x] & self.E:
                inc("S", self.types["S"][x])
                if x not in m.values():
                    inc("FALSE ALARM", self.types["S"][x])
        return n, ntype, ttype


def sum_or(it):
    x = 0
    for v in it:
        x |= v
    return x


def gen_side(s, T, names, ref):
    """times in units of 20 ms = 4 cells"""
    t = {"spk": {}, "lex": [], "nl": [], "ns": [], "gender": {}}
    for nm in names:
        pos, segs = s.int(0, T // 3), []
        while pos < T and len(segs) < 6:
            d = s.int(1, max(2, T // s.choice([3, 6, 12])))
            e = min(T, pos + d)
            if e > pos:
                segs.append((pos * 4, e * 4))
            pos = e + s.weighted((1, 0), (2, s.int(1, 20)), (2, s.int(1, T // 2)))
        if segs:
            t["spk"][nm] = segs
            if s.bool(.4):
                t["gender"][nm] = s.choice(GENDERS)
    return t


class Diar(Suite):
    name, quick, thorough = "diarization", 6000, 40000

    def gen(self, s):
        c = {"files": [], "collar": s.weighted((3, 0), (3, s.choice([4, 20, 48, 100, 200]))), "one": s.bool(.3), "a": s.choice(["", "", "c", "f", "cf", "fc"]), "m": s.bool(.3),
             "lists": s.bool(.15), "uemname": s.choice(["", "", ".sph", "/d.x/.sph"]), "typed": s.bool(.5), "sort": s.bool(.5)}
        for fi in range(s.weighted((4, 1), (2, 2), (1, 3))):
            chs = s.subset(["1", "2", "A"], 1) if s.bool(.3) else ["1"]
            for ch in chs:
                T = s.choice([20, 60, 150, 400])
                rn = ["s%d" % i for i in range(s.int(1, s.choice([2, 4, 6])))]
                ref = gen_side(s, T, rn, True)
                if not ref["spk"]:
                    ref["spk"][rn[0]] = [(0, T * 4)]
                if s.bool(.4):
                    # the system is the reference, disturbed
                    ren = {}
                    sy = {"spk": {}, "gender": dict(ref["gender"])}
                    for k, segs in ref["spk"].items():
                        for a, b in segs:
                            a2 = max(0, a + 4 * s.weighted((2, 0), (1, s.int(-10, 10))))
                            b2 = b + 4 * s.weighted((2, 0), (1, s.int(-10, 10)))
                            to = k if not s.bool(.25) else s.choice(rn)
                            if b2 > a2 and not s.bool(.1) and all(b2 <= x or a2 >= y for x, y in sy["spk"].get(to, [])):
                                sy["spk"].setdefault(to, []).append((a2, b2))
                else:
                    sy = gen_side(s, T, ["h%d" % i for i in range(s.int(0, s.choice([2, 4, 7])))], False)
                if not c["typed"]:
                    ref["gender"], sy["gender"] = {}, {}
                if s.bool(.7):
                    for _ in range(s.int(0, 12)):
                        a = s.int(0, T - 1) * 4 + s.weighted((2, 1), (1, 5))
                        k = s.choice([0, 0, 1, 2, 4, 6])
                        w = s.choice(["a", "yes", "wh-", "uh-huh", "a-b", "x-y-z"])
                        if k % 3 == 2:
                            w = "a"
                        a = a // 4 * 4 + 1
                        ref["lex"].append({"a": a, "b": a + 2 + 8 * k, "w": w, "t": s.choice(["lex", "fp", "frag", "un-lex", "alpha"])})
                marks = [t // 4 for segs in ref["spk"].values() for p in segs for t in p]
                at = lambda: s.choice(marks) if s.bool(.4) else s.int(0, T)
                for key, p in (("nl", .45), ("ns", .35)):
                    if s.bool(p):
                        for _ in range(s.int(1, 4)):
                            a = at()
                            b = at() if s.bool(.3) else a + s.int(1, max(1, T // s.choice([3, 10])))
                            if b > a:
                                ref[key].append({"a": a * 4, "b": b * 4, "t": s.choice(["laugh", "breath", "cough", "other"])} if key == "nl" else (a * 4, b * 4))
                uem = None
                if s.bool(.4):
                    pts = sorted({at() for _ in range(s.choice([2, 2, 4, 6]))} | {s.int(0, T + 10)})
                    uem, i = [], 0
                    while i + 1 < len(pts):
                        uem.append((pts[i] * 4, pts[i + 1] * 4))
                        i += 1 if s.bool(.2) else 2
                    uem = uem or None
                c["files"].append({"f": "f%d" % fi, "c": ch, "ref": ref, "sys": sy, "uem": uem})
        if any(f["uem"] is None for f in c["files"]) and any(f["uem"] for f in c["files"]):
            for f in c["files"]:
                if f["uem"] is None:
                    f["uem"] = [(0, 1700)]
        c["order"] = s.int(0, 10 ** 6)
        c["rec"] = s.bool(.2)
        return c

    def records(self, c, side):
        out = []
        for f in c["files"]:
            t = f[side]
            for k, segs in t["spk"].items():
                for a, b in segs:
                    out.append(("SPEAKER", f, a, b, "<NA>", "<NA>", k))
            for k, g in t["gender"].items():
                out.append(("SPKR-INFO", f, None, None, "<NA>", g, k))
            if side == "ref":
                for w in t["lex"]:
                    out.append(("LEXEME", f, w["a"], w["b"], w["w"], w["t"], "s0"))
                for z in t["nl"]:
                    out.append(("NON-LEX", f, z["a"], z["b"], "<NA>", z["t"], "<NA>"))
                for a, b in t["ns"]:
                    out.append(("NOSCORE", f, a, b, "<NA>", "<NA>", "<NA>"))
        if not c["sort"]:
            import random
            random.Random(c["order"] + (side == "ref")).shuffle(out)
        lines = []
        for ty, f, a, b, w, st, k in out:
            lines.append(" ".join([ty, f["f"], f["c"], "<NA>" if a is None else fmt(a), "<NA>" if a is None else fmt(b - a), w, st, k, "<NA>"]))
        return lines

    def write(self, c, side, ctx):
        lines = self.records(c, side)
        if c["rec"]:
            lines = [";; comment", ""] + lines
        if not c["lists"]:
            return ["-" + side[0], ctx.write(side + ".rttm", "".join(x + "\n" for x in lines))]
        names = []
        for f in sorted({f["f"] for f in c["files"]}):
            part = [x for x in lines if len(x.split()) > 1 and x.split()[1] == f]
            names.append(ctx.write("%s.%s.rttm" % (side, f), "".join(x + "\n" for x in part)))
        return ["-" + side[0].upper(), ctx.write(side + ".list", "".join(x + "\n" for x in names))]

    def check(self, c, ctx):
        tracks = []
        for f in c["files"]:
            tracks.append((f["f"], f["c"].lower(), Track(c, f["ref"], f["sys"], f["uem"])))
        cond = {}
        for f, ch, t in tracks:
            names = ["ALL"]
            a = c["a"]
            if a:
                names.append(" ".join((["c=" + ch] if "c" in a else []) + (["f=" + f] if "f" in a else [])))
            for x in names:
                cond.setdefault(x, []).append((f, ch, t))
        for ts in cond.values():
            if not sum(bits(t.C & sum_or(t.R.values())) for f, ch, t in ts):
                raise Discard("no scored speech")
        cmd = ["perl", ctx.bins["perl"] + "/md-eval.pl"] + self.write(c, "ref", ctx) + self.write(c, "sys", ctx)
        if any(f["uem"] for f in c["files"]):
            pre, _, post = c["uemname"].rpartition("/")
            pre += "/" if _ else ""
            us = ["%s%s%s %s %s %s\n" % (pre, f["f"], post, f["c"], fmt(a), fmt(b)) for f in c["files"] for a, b in f["uem"]]
            cmd += ["-u", ctx.write("x.uem", "".join(us))]
        if c["collar"]:
            cmd += ["-c", fmt(c["collar"])]
        cmd += (["-1"] if c["one"] else []) + (["-a", c["a"]] if c["a"] else []) + (["-m"] if c["m"] else []) + ["-M", ctx.path("map.csv")]
        rc, out, err = ctx.run(cmd, timeout=60)
        if "cannot happen" in err or "should have a column mate" in err:
            raise Violation("the speaker mapper gave up: " + err[:300])
        # the speaker maps
        got = {}
        lines = ctx.read("map.csv").splitlines()
        if lines[0] != "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap":
            raise Violation("head of the map file: %r" % lines[0])
        for ln in lines[1:]:
            f, ch, r, s, mp, t = ln.split(",")
            if (f, ch, r, s) in got or mp not in ("mapped", "notmapped"):
                raise Violation("map file line %r" % ln)
            got[f, ch, r, s] = (mp == "mapped", float(t))
        want = {(f, ch, r, s): v for f, ch, t in tracks for (r, s), v in t.overlap.items()}
        if set(got) != set(want):
            raise Violation("pairs of overlapping speakers: %s instead of %s" % (sorted(got), sorted(want)))
        for k in want:
            ctx.evals += 1
            if abs(got[k][1] - want[k] * CELL / 1000) > 1e-4:
                raise Violation("overlap of %s is %s, %s reported" % (k, want[k] * CELL / 1000, got[k][1]))
        maps, rival = {}, False
        for f, ch, t in tracks:
            m = {r: s for (f2, c2, r, s), (mp, _) in got.items() if mp and (f2, c2) == (f, ch)}
            pairs = [k for k, (mp, _) in got.items() if mp and k[:2] == (f, ch)]
            if len(m) != len(pairs) or len(set(m.values())) != len(pairs):
                raise Violation("the map of %s %s is not one-to-one: %s" % (f, ch, pairs))
            tot = sum(t.overlap[r, s] for r, s in m.items())
            ctx.evals += 1
            if tot != t.best:
                raise Violation("the map of %s %s matches %s s, %s s is possible: %s" % (f, ch, tot * CELL / 1000, t.best * CELL / 1000, m))
            maps[f, ch] = m
            rival = rival or len(t.overlap) > len(m)
        if c["m"]:
            head = out.split("\n***")[0]
            exp = []
            for f, ch, t in sorted(tracks, key=lambda x: x[:2]):
                for r in sorted({r for r, s in t.overlap}):
                    exp.append("'%s' => %s" % (r, "'%s'" % maps[f, ch][r] if r in maps[f, ch] else "<nil>"))
                    exp += [("'%s'" % s, v * CELL / 1000) for (r2, s), v in sorted(t.overlap.items()) if r2 == r]
            have = []
            for ln in head.splitlines():
                q = re.match(r"\s*([\d.]+) secs matched to ('.*')$", ln)
                if q:
                    have.append((q[2], float(q[1])))
                elif "' => " in ln:
                    have.append(ln)
            ctx.evals += 1
            if len(have) != len(exp) or any((a != b) if isinstance(a, str) or isinstance(b, str) else (a[0] != b[0] or abs(a[1] - b[1]) > .006) for a, b in zip(have, exp)):
                raise Violation("-m prints %s instead of %s" % (have, exp))
        # the reports
        rep = re.split(r"\*\*\* Performance analysis for Speaker Diarization for (.*?) \*\*\*", out)
        names = rep[1::2]
        if names != sorted(k for k in cond if k != "ALL") + ["ALL"]:
            raise Violation("reports for %s instead of %s" % (names, sorted(cond)))
        for nm, txt in zip(names, rep[2::2]):
            self.report(nm, txt, cond[nm], maps, ctx)
        if self.records(c, "ref") != self.records(c, "sys") and (rival or any(t.excluded for f, ch, t in tracks)):
            ctx.nontrivial(c)

    def report(self, nm, txt, ts, maps, ctx):
        n, nt, tt = {}, {}, {}
        for f, ch, t in ts:
            a, b, d = t.score(maps[f, ch])
            for acc, x in ((n, a), (nt, b), (tt, d)):
                for k, v in x.items():
                    acc[k] = acc.get(k, 0) + v
        base = {"EVAL SPEECH": "EVAL TIME", "SCORED TIME": "EVAL TIME", "SCORED SPEECH": "SCORED TIME", "SCORED WORDS": "EVAL WORDS", "MISSED SPEECH": "SCORED TIME", "FALARM SPEECH": "SCORED TIME",
                "MISSED WORDS": "SCORED WORDS", "SCORED SPEAKER TIME": "SCORED SPEECH", "MISSED SPEAKER TIME": "SCORED SPEAKER TIME", "FALARM SPEAKER TIME": "SCORED SPEAKER TIME",
                "SPEAKER ERROR TIME": "SCORED SPEAKER TIME", "SPEAKER ERROR WORDS": "SCORED WORDS"}
        for k, v in n.items():
            q = re.search(r"^ *%s = *(-?[\d.]+) *(?:secs)? *(?:\( *(-?[\d.]+) percent of ([a-z ]+)\))?\s*$" % k, txt, re.M)
            if not q:
                raise Violation("%s: no figure for %s" % (nm, k))
            v2 = v if k.endswith("WORDS") else v * CELL / 1000
            ctx.evals += 1
            if abs(float(q[1]) - v2) > .0051:
                raise Violation("%s: %s is %s, should be %s" % (nm, k, q[1], v2))
            if k in base and n[base[k]]:
                if abs(float(q[2]) - 100 * v / n[base[k]]) > .051:
                    raise Violation("%s: %s is %s%%, should be %s%%" % (nm, k, q[2], 100 * v / n[base[k]]))
        q = re.search(r"OVERALL SPEAKER DIARIZATION ERROR = ([\d.]+) percent of scored speaker time  `\((.*)\)", txt)
        der = 100 * (n["MISSED SPEAKER TIME"] + n["FALARM SPEAKER TIME"] + n["SPEAKER ERROR TIME"]) / n["SCORED SPEAKER TIME"]
        ctx.evals += 1
        if not q or q[2] != nm or abs(float(q[1]) - der) > .0051:
            raise Violation("%s: diarization error %s, should be %.4f" % (nm, q and q[0], der))
        for title, m, one in (("speaker weighted", nt, True), ("time weighted", tt, False)):
            body = txt.split("confusion matrix -- " + title)[1].split("-----")[0].strip("\n").splitlines()
            rows = sorted(k[1] for k in m if k[0] == "R") + ["FALSE ALARM"]
            cols = sorted(k[1] for k in m if k[0] == "S") + ["MISS"]
            if body[0].split()[2:] != cols:
                raise Violation("%s: %s matrix has columns %s instead of %s" % (nm, title, body[0].split()[2:], cols))
            tot = sum(v for k, v in m.items() if k[0] == "R")
            if [b[:16].strip() for b in body[1:]] != rows:
                raise Violation("%s: %s matrix has rows %s instead of %s" % (nm, title, body[1:], rows))
            if not one and (len(rows) > 2 or len(cols) > 2 or len(set(k[1] for t in ts for k in t[2].types["R"].items())) > 1 or len(set(k[1] for t in ts for k in t[2].types["S"].items())) > 1):
                continue
            for r, b in zip(rows, body[1:]):
                es = re.findall(r"([\d.]+) */ *([\d.]+)%", b[16:])
                cs = cols[:-1] if r == "FALSE ALARM" else cols
                if len(es) != len(cs):
                    raise Violation("%s: %s matrix, row %r" % (nm, title, b))
                for cc, (x, p) in zip(cs, es):
                    v = m.get((r, cc), 0)
                    v2 = v if one else v * CELL / 1000
                    ctx.evals += 1
                    if abs(float(x) - v2) > .0051 or abs(float(p) - min(999.9, 100 * v / tot)) > .051:
                        raise Violation("%s: %s matrix, %s/%s is %s (%s%%), should be %s" % (nm, title, r, cc, x, p, v2))


SUITES = [Diar()]


def build():
    return {"perl": B.perl()}
