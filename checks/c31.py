"""C31: md-eval scores metadata (sentence-like units, edits, fillers, interruption points) as defined, under an optimal map in order."""
import random
import re

from vf import build as B
from vf.engine import Suite, Violation, Discard

RULE = ("A case is a reference and a system RTTM with words and metadata events (several files, channels and speakers, unscored zones, unannotated SUs), perhaps a UEM, and options (word-optimised mapping, gaps, extents, "
        "conditional analyses). One evaluation is one map, one row of a table, one matrix entry or one histogram of offsets. Non-trivial: an event is mapped and another is missed, inserted, confused or discarded; "
        "counted by distinct inputs.")
ASSUMPTIONS = ["on one side, events of one type, and reference words, do not share a midpoint; no word midpoint falls on the boundary of an unscored zone; no complex edits (what -x does contradicts the usage text)",
               "a file and channel is scored for a type when its reference has evaluated events of that type", "optimality of the map is judged where md-eval's pruning cannot act (-P, or small scores)",
               "evaluation partitions do not touch", "where several maps are optimal, any of them is accepted"]
SUBT = {"EDIT": ["repetition", "restart", "revision", "simple", "other"], "FILLER": ["filled_pause", "discourse_marker", "discourse_response", "explicit_editing_term", "other"],
        "IP": ["edit", "filler", "edit&filler", "other"], "SU": ["statement", "backchannel", "question", "incomplete", "unannotated", "other"]}
TYPES = ["EDIT", "FILLER", "IP", "SU"]
GENDERS = ["adult_male", "adult_female", "child", "unknown"]
WORDS = ["a", "yes", "uh-huh", "a-b", "wh-", "x"]
WTYPES = ["lex", "lex", "lex", "lex", "fp", "frag", "un-lex", "alpha"]
G = 32          # units per second
EPS = 1e-8


def fmt(u):
    t = "%.5f" % (u / G)
    return t.rstrip("0").rstrip(".") if "." in t else t


def merge(segs):
    out = []
    for a, b in sorted(segs):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def minus(parts, zones):
    """closed partitions without zones"""
    out = []
    for a, b in parts:
        cur = a
        for x, y in merge(zones):
            if y <= cur or x >= b:
                continue
            if x > cur:
                out.append((cur, x))
            cur = max(cur, y)
        if cur < b:
            out.append((cur, b))
    return out


class Ev:
    def __init__(self, t, sub, a, b, spk):
        self.t, self.sub, self.a, self.b, self.spk = t, sub, a, b, spk
        self.ra, self.rb = a / G, b / G                   # in the time of the reference
        self.map = None

    def __repr__(self):
        return "%s/%s %s-%s %s" % (self.t, self.sub, self.a / G, self.b / G, self.spk)


class Meta(Suite):
    name, quick, thorough, wordy = "events", 6000, 60000, False

    def gen(self, s):
        c = {"files": [], "w": self.wordy and s.bool(.9), "p": s.bool(.7), "t": s.choice([None, None, 0, .5, 3]), "W": s.bool(.4), "P": s.bool(.7), "a": s.choice(["", "", "c", "f", "cf", "s", "g", "fsg", "cs"]), "A": s.choice(["", "", "c", "f", "cf"]), "T": s.choice([None, None, 0, .25, 2]),
             "l": s.choice([None, None, 1, 3]), "Y": s.choice([None, None, "MIN", "FRAG", "FRAG_UNLEX", "NONE"]), "one": s.bool(.15), "order": s.int(0, 10 ** 6), "shuf": s.bool(.4), "types": s.subset(TYPES, 1)}
        for fi in range(s.weighted((5, 1), (2, 2))):
            for ch in (s.choice([["1"], ["1"], ["1", "2"], ["A"]])):
                f = {"f": "f%d" % fi, "c": ch, "w": [], "ref": [], "sys": [], "ns": [], "uem": None, "spk": {}, "gender": {}}
                names = ["s%d" % i for i in range(s.int(1, 3))]
                for nm in names:
                    f["gender"][nm] = s.choice(GENDERS)
                # words: one after the other, sometimes of two speakers at once
                pos = s.int(0, 8) * 8 + 2
                for _ in range(s.int(1, s.weighted((4, 4), (4, 10), (3, 25), (1, 50)))):
                    d = s.choice([8, 8, 16, 16, 32])
                    f["w"].append([pos, pos + d, s.choice(WORDS), s.choice(WTYPES), s.choice(names)])
                    pos += s.weighted((5, d), (2, d + s.choice([8, 16, 40])), (1, 8))
                T = pos + 40
                edges = [t for w in f["w"] for t in w[:2]]
                for ty in c["types"]:
                    for side, n in (("ref", s.weighted((8, s.int(1, 6)), (1, 0), (1, s.int(6, 12)))), ("sys", s.weighted((3, -1), (2, s.int(0, 6)), (1, s.int(4, 12))))):
                        evs = []
                        if n < 0:
                            # the reference, disturbed
                            for e in [e for e in f["ref"] if e[0] == ty]:
                                if s.bool(.15):
                                    continue
                                sub = e[1] if not s.bool(.25) else s.choice(SUBT[ty])
                                a, b = e[2], e[3]
                                if s.bool(.4):
                                    a = max(0, a + s.choice([-16, -8, -2, 2, 8, 16, 40]))
                                if ty == "IP":
                                    b = a
                                elif s.bool(.4):
                                    b = b + s.choice([-16, -8, -2, 2, 8, 16, 40])
                                if b >= a and (b > a or ty == "IP"):
                                    evs.append([ty, sub, a, b, e[4]])
                            for _ in range(s.weighted((2, 0), (1, s.int(1, 2)))):
                                a = s.choice(edges)
                                evs.append([ty, s.choice(SUBT[ty]), a, a if ty == "IP" else a + s.choice([8, 16, 32, 64]), s.choice(names)])
                        else:
                            for _ in range(n):
                                a = s.choice(edges) if s.bool(.7) else s.int(0, T // 2) * 2
                                b = a if ty == "IP" else (s.choice([t for t in edges if t > a] or [a + 8]) if s.bool(.6) else a + s.int(1, 40) * 2)
                                if ty != "IP" and s.bool(.5):
                                    b = min([t for t in edges if t > a + s.choice([0, 16, 40])] or [a + 16])
                                evs.append([ty, s.choice(SUBT[ty]), a, b, s.choice(names)])
                        seen = set()
                        for e in evs:
                            if e[2] + e[3] not in seen:
                                seen.add(e[2] + e[3])
                                f[side].append(e)
                if s.bool(.35):
                    for _ in range(s.int(1, 3)):
                        a = s.int(0, T // 8) * 8 + 1
                        f["ns"].append([a, a + s.choice([8, 16, 40, 80]), s.choice(["NOSCORE", "NO_RT_METADATA"])])
                    if s.bool(.1):
                        f["ns"].append([0, T + 500, "NOSCORE"])
                if c["one"]:
                    for nm in names:
                        a = s.int(0, T // 8) * 8 + 4
                        f["spk"][nm] = [[a, a + s.choice([16, 40, 80, 160])]]
                f["T"] = T
                if c["w"]:
                    sw, pos = [], 0
                    for w in f["w"]:
                        if s.bool(.12):
                            continue
                        a = max(pos, w[0] + 2 * s.weighted((4, 0), (2, s.int(-8, 8)), (1, s.int(-30, 40))))
                        d = s.weighted((3, w[1] - w[0]), (1, 8), (1, 24))
                        sw.append([a, a + d, w[2] if not s.bool(.25) else s.choice(WORDS), w[3] if not s.bool(.2) else s.choice(WTYPES), w[4]])
                        pos = a + d
                        if s.bool(.15):
                            sw.append([pos, pos + 8, s.choice(WORDS), s.choice(WTYPES), s.choice(names)])
                            pos += 8
                    f["sw"] = sw or [[2, 10, "a", "lex", "s0"]]
                c["files"].append(f)
        if s.bool(.4):
            for f in c["files"]:
                pts = sorted({s.int(0, f["T"] // 8 + 2) * 8 for _ in range(s.choice([2, 2, 4]))} | {0})
                f["uem"] = [[pts[i], pts[i + 1]] for i in range(0, len(pts) - 1, 2)] or [[0, f["T"]]]
        return c

    def records(self, c, side):
        out = []
        for f in c["files"]:
            rec = lambda *a: out.append(" ".join([a[0], f["f"], f["c"]] + list(a[1:]) + ["<NA>"]))
            for e in f[side]:
                rec(e[0], fmt(e[2]), fmt(e[3] - e[2]), "<NA>", e[1], e[4])
            if side == "ref":
                for w in f["w"]:
                    rec("LEXEME", fmt(w[0]), fmt(w[1] - w[0]), w[2], w[3], w[4])
                for nm, g in f["gender"].items():
                    rec("SPKR-INFO", "<NA>", "<NA>", "<NA>", g, nm)
                for a, b, t in f["ns"]:
                    rec(t, fmt(a), fmt(b - a), "<NA>", "<NA>", "<NA>")
            elif c["w"]:
                for w in f["sw"]:
                    rec("LEXEME", fmt(w[0]), fmt(w[1] - w[0]), w[2], w[3], w[4])
            for nm, segs in f["spk"].items():
                for a, b in segs:
                    rec("SPEAKER", fmt(a), fmt(b - a), "<NA>", "<NA>", nm)
        if c["shuf"]:
            random.Random(c["order"] + (side == "ref")).shuffle(out)
        return out

    # ---- the model

    def words(self, f):
        ws = []
        for a, b, w, t, k in f["w"]:
            n = w[1:-1].count("-") + 1 if w != "uh-huh" else 1
            for j in range(n):
                ws.append(((a + (b - a) * (2 * j + 1) / (2 * n)), k))
        ws.sort(key=lambda x: x[0])
        return ws

    def lex(self, ws):
        """the words, divided at hyphens, in order of their middles: (begin, end, word, type, speaker)"""
        out = []
        for a, b, w, t, k in ws:
            parts = [w] if w[1:-1].count("-") == 0 or w == "uh-huh" else w.split("-")
            d = (b - a) / len(parts)
            for j, x in enumerate(parts):
                out.append(((a + d * j) / G, (a + d * (j + 1)) / G, x, {"alpha": "lex"}.get(t, t), k))
        return sorted(out, key=lambda x: x[0] + x[1])

    def pair(self, c, r, y):
        """cost of aligning two words; None: too far apart"""
        gap = 1.0 if c["t"] is None else c["t"]
        if not min(r[1], y[1]) - max(r[0], y[0]) + gap > 0:
            return None
        a, b = r[2].strip("-"), y[2].strip("-")
        if r[2:4] == y[2:4] or (r[3], y[3]) == ("lex", "frag") and b in r[2] or (r[3], y[3]) == ("frag", "lex") and a in y[2] or r[3] == y[3] in ("fp", "frag"):
            return 0
        return .1 if r[3] == y[3] != "lex" else 1

    def wordmap(self, c, f, lines, ctx):
        """checks the printed alignment of words; -> function that maps system time to reference time"""
        R, S = self.lex(f["w"]), self.lex(f["sw"])
        one = lambda w: 1 if w[3] == "lex" else .2
        rs, ss, pairs, cost = [], [], [], 0
        for t in lines:
            if len(t) != 16:
                raise Violation("word alignment line %s" % t)
            r = y = None
            same = lambda w, q: w[2][:16] == q[0] and w[3] == q[1] and abs(w[0] - float(q[2])) < .0051 and abs(w[1] - float(q[3])) < .0051 and w[4] == q[4]
            if t[4] != "---":
                r = R[len(rs)] if len(rs) < len(R) else None
                if r is None or not same(r, t[4:9]):
                    raise Violation("word alignment: %s where the reference has %s" % (t[4:9], r))
                rs.append(r)
            if t[9] != "---":
                y = S[len(ss)] if len(ss) < len(S) else None
                if y is None or not same(y, t[9:11] + t[13:]):
                    raise Violation("word alignment: %s where the system has %s" % (t[9:], y))
                ss.append((y, float(t[11]), float(t[12])))
            if r and y:
                q = self.pair(c, r, y)
                if q is None:
                    raise Violation("words %s and %s are too far apart" % (r, y))
                pairs.append((r, y))
                want = ["1", "-", "-", "1" if q == 1 else "0"]
                cost += q
            else:
                w = r or y
                want = ["1" if r else "0"] + (["1" if one(w) == 1 else "0", "-"] if r else ["-", "1" if one(w) == 1 else "0"]) + ["-"]
                cost += one(w)
            if t[:4] != want:
                raise Violation("word alignment: counts %s of %s %s" % (t[:4], r, y))
        if len(rs) < len(R) or len(ss) < len(S):
            raise Violation("words are missing from the alignment: %s of %s, %s of %s" % (len(rs), len(R), len(ss), len(S)))
        row = [0]
        for y in S:
            row.append(row[-1] + one(y))
        for r in R:
            new = [row[0] + one(r)]
            for j, y in enumerate(S):
                v = min(row[j + 1] + one(r), new[j] + one(y))
                q = self.pair(c, r, y)
                new.append(v if q is None else min(v, row[j] + q))
            row = new
        ctx.evals += 1
        # agreement in metadata is worth up to .08 a pair
        if c["p"] and cost > row[-1] + .08 * min(len(R), len(S)) + 1e-9:
            raise Violation("the alignment of words costs %.2f, %.2f is possible" % (cost, row[-1]))
        to = {id(y): r for r, y in pairs}

        def f2r(t):
            left = right = None
            for y in S:
                if id(y) in to and y[1] >= t:
                    right = (y[1], to[id(y)][1]) if y[0] < t else (y[0], to[id(y)][0])
                    break
            upto = S.index(y) if right else len(S) - 1
            for y in reversed(S[:upto + 1]):
                if id(y) in to and y[0] <= t:
                    left = (y[0], to[id(y)][0]) if y[1] > t else (y[1], to[id(y)][1])
                    break
            if not left and not right:
                return t
            if not left:
                return right[1] + (t - right[0])
            if not right:
                return left[1] + (t - left[0])
            return left[1] if t == left[0] else left[1] + (t - left[0]) * (right[1] - left[1]) / (right[0] - left[0])
        for y, a, b in ss:
            ctx.evals += 1
            if abs(f2r(y[0]) - a) > .0051 or abs(f2r(y[1]) - b) > .0051:
                raise Violation("word %s is at %s-%s of the reference's time, should be %s-%s" % (y, a, b, f2r(y[0]), f2r(y[1])))
        return f2r

    def inds(self, a, b, mids):
        i = 0
        while i < len(mids) and mids[i] < a:
            i += 1
        j = len([m for m in mids if m <= b])
        return i, j - 1

    def uem(self, f):
        if f["uem"]:
            return [tuple(x) for x in f["uem"]]
        ts = [(w[0], w[1]) for w in f["w"]] + [(e[2], e[3]) for e in f["ref"]] + [tuple(x) for segs in f["spk"].values() for x in segs]
        return [(min(a for a, b in ts), max(b for a, b in ts))]

    def zones(self, c, f):
        """the evaluation and the scoring partitions"""
        E = minus(self.uem(f), [(a, b) for a, b, t in f["ns"]])
        Y = c["Y"] or "DEFAULT"
        z = []
        if Y != "NONE":
            z += [(a, b) for a, b, t in f["ns"] if t == "NOSCORE"]
            z += [(e[2], e[3]) for e in f["ref"] if e[0] == "SU" and e[1] == "unannotated"]
        lex = {"DEFAULT": ["un-lex"], "FRAG_UNLEX": ["frag", "un-lex"], "FRAG": ["frag"]}.get(Y, [])
        # hyphenated words are zones in parts, which touch
        z += [(w[0], w[1]) for w in f["w"] if w[3] in lex]
        if c["one"]:
            names = sorted(f["spk"])
            for i, x in enumerate(names):
                for y in names[i + 1:]:
                    for a, b in f["spk"][x]:
                        for p, q in f["spk"][y]:
                            if max(a, p) < min(b, q):
                                z.append((max(a, p), min(b, q)))
        return E, minus(E, z), {t for x in z for t in x}

    def score(self, c, r, y):
        gap = .1 if c["W"] else (1.0 if c["T"] is None else c["T"])
        lim = c["l"] if c["l"] is not None else (2 if c["W"] else .5)
        if c["W"]:
            rb, sb, re_, se, one, lim = r.w[0], y.w[0], r.w[1], y.w[1], 1, lim - 1
        else:
            rb, sb, re_, se, one = r.ra, y.ra, r.rb, y.rb, 0
        if r.t == "SU":
            rb, sb = max(rb, re_ - lim), max(sb, se - lim)
        ov = min(re_, se) - max(rb, sb) + one
        dur = re_ - rb + one
        if r.t == "IP":
            ov += EPS
        ov += gap
        if ov < 0:
            return None
        if r.sub == y.sub:
            ov *= 1.1
        if r.w[1] == y.w[1]:
            ov *= 1.001
        if dur + gap < max(dur, EPS):
            return ov
        return ov * max(dur, EPS) / (dur + gap)

    def best(self, c, R, S):
        row = [0.0] * (len(S) + 1)
        for r in R:
            new = [0.0] * (len(S) + 1)
            for j in range(1, len(S) + 1):
                v = max(row[j], new[j - 1])
                q = self.score(c, r, S[j - 1])
                if q is not None:
                    v = max(v, row[j - 1] + q)
                new[j] = v
            row = new
        return row[-1]

    def check(self, c, ctx):
        cmd = ["perl", ctx.bins["perl"] + "/md-eval.pl", "-D", "-r", ctx.write("r.rttm", "\n".join(self.records(c, "ref")) + "\n"), "-s", ctx.write("s.rttm", "\n".join(self.records(c, "sys")) + "\n")]
        if c["W"]:
            cmd.append("-W")
        if c["w"]:
            cmd += ["-w", "-d"] + (["-p", "100000"] if c["p"] else []) + (["-t", str(c["t"])] if c["t"] is not None else [])
        if c["P"]:
            cmd += ["-P", "100000"]
        for o in "aATlY":
            if c[o] not in (None, ""):
                cmd += ["-" + o, str(c[o])]
        if c["one"]:
            cmd.append("-1")
        if c["files"][0]["uem"]:
            cmd += ["-u", ctx.write("u.uem", "".join("%s %s %s %s\n" % (f["f"], f["c"], fmt(a), fmt(b)) for f in c["files"] for a, b in f["uem"]))]
        for f in c["files"]:
            mids = {m for m, k in self.words(f)}
            if len(mids) < len(self.words(f)):
                raise Discard("two words with the same middle")
            if c["w"]:
                for ws in (f["w"], f["sw"]):
                    if not any(a / G <= (w[0] + w[1]) / 2 <= b / G for w in self.lex(ws) for a, b in self.uem(f)):
                        raise Discard("no words in the evaluation")
            E, C, marks = self.zones(c, f)
            if mids & marks:
                raise Discard("a word's middle on a boundary")
        rc, out, err = ctx.run(cmd, ok=None, timeout=60)
        if rc and not (c["one"] and "division by zero" in err):
            raise Violation("md-eval ends with %d: %s" % (rc, err[-300:]))
        out = out.split("\n*** Performance analysis for Speaker Diarization")[0]
        # the maps, as printed
        maps = {}
        head = re.split(r"^\*\*\* Performance", out, flags=re.M)[0]
        for m in re.finditer(r"^(\w+) alignment and scoring details for channel (\S+) of file (\S+)\n(.*?)(?=^\s*$|\Z)", head, re.M | re.S):
            k = (m[1], m[3], m[2])
            if k in maps:
                raise Violation("two alignments for %s" % (k,))
            maps[k] = [ln.replace("(", " ").replace(")", " ").split() for ln in m[4].splitlines()[1:]]
        scores, interesting = {}, False
        for f in c["files"]:
            ws = self.words(f)
            mids = [m for m, k in ws]
            E, C, marks = self.zones(c, f)
            okw = [any(a <= m <= b for a, b in C) for m in mids]
            f2r = self.wordmap(c, f, maps.pop(("Word", f["f"], f["c"].lower()), []), ctx) if c["w"] else None
            inE = lambda e: any(a <= e.a and e.b <= b for a, b in E)
            for ty in TYPES:
                R = [Ev(*e) for e in f["ref"] if e[0] == ty]
                S = [Ev(*e) for e in f["sys"] if e[0] == ty]
                for e in S:
                    if f2r:
                        e.ra, e.rb = f2r(e.a / G), f2r(e.b / G)
                        if any(abs(t - m / G) < 1e-9 and t != m / G for t in (e.ra, e.rb) for m in mids):
                            raise Discard("rounding")
                        if e.rb < e.ra:
                            raise Discard("an event runs backwards in the reference's time (overlapping words)")
                for e in R + S:
                    e.w = self.inds(e.ra * G, e.rb * G, mids)
                R.sort(key=lambda e: e.a + e.b)
                S.sort(key=lambda e: e.a + e.b)
                nr = len(R)
                R = [e for e in R if inE(e)]
                k = (ty, f["f"], f["c"].lower())
                mid = lambda e: (e.ra + (e.rb - e.ra) / 2) * G
                if not R:
                    if k in maps:
                        raise Violation("%s has no evaluated reference events and is scored" % (k,))
                    continue
                if k not in maps:
                    raise Violation("%s is not scored" % (k,))
                lines = maps.pop(k)
                lim = []
                ri = si = 0
                # read the map: what is not printed was discarded
                dels, inss = [], []
                for t in lines:
                    if len(t) != (16 if c["w"] else 14):
                        raise Violation("alignment line of %s: %s" % (k, t))
                    rt = None
                    if c["w"]:
                        rt, t = t[11:13], t[:11] + t[13:]
                    find = lambda L, q, used: next((e for e in L if e not in used and e.sub[:16] == q[0] and abs(e.a / G - float(q[2])) < .0051 and abs(e.b / G - float(q[3])) < .0051 and e.spk == q[4] and q[1] == ty), None)
                    r = y = None
                    if t[4] != "---":
                        r = find(R, t[4:9], dels)
                        if r is None:
                            raise Violation("%s: %s is not an event of the reference (or not to be evaluated, or listed twice)" % (k, t[4:9]))
                        dels.append(r)
                    if t[9] != "---":
                        y = find(S, t[9:14], inss)
                        if y is None:
                            raise Violation("%s: %s is not an event of the system, or listed twice" % (k, t[9:14]))
                        inss.append(y)
                        if rt and (abs(float(rt[0]) - y.ra) > .0051 or abs(float(rt[1]) - y.rb) > .0051):
                            raise Violation("%s: %s is at %s of the reference's time, should be %s-%s" % (k, y, rt, y.ra, y.rb))
                    if r and y:
                        r.map, y.map = y, r
                        wanted = ["1", "-", "-", "0" if r.sub == y.sub else "1"]
                    elif r:
                        wanted = ["1", "1", "-", "-"]
                    else:
                        wanted = ["0", "-", "1", "-"]
                    if t[:4] != wanted:
                        raise Violation("%s: counts %s for %s with %s" % (k, t[:4], r, y))
                rs = [e for e in R if e in dels]
                ss = [e for e in S if e in inss]
                if rs != dels or ss != inss:
                    raise Violation("%s: events out of order: %s %s" % (k, dels, inss))
                lost = [e for e in R if e not in dels and not (ty == "SU" and e.sub == "unannotated")]
                if lost or any(ty == "SU" and e.sub == "unannotated" for e in dels):
                    raise Violation("%s: reference events lost, or unannotated ones kept: %s of %s" % (k, lost, dels))
                unann = [e for e in R if e not in dels]
                # system events that are not printed: unmapped and outside the evaluation, or belonging to an unannotated SU
                hidden = [e for e in S if e not in inss]
                for e in inss:
                    if e.map is None and (not inE(e) or any(u.a <= mid(e) <= u.b for u in unann)):
                        raise Violation("%s: %s should not be counted as inserted" % (k, e))
                tot = 0
                for r in rs:
                    if r.map:
                        q = self.score(c, r, r.map)
                        if q is None:
                            raise Violation("%s: %s and %s do not meet" % (k, r, r.map))
                        tot += q
                # discarded events might have been mapped to unannotated SUs
                maybe = [e for e in hidden if inE(e) and not any(u.a <= mid(e) <= u.b for u in unann)]
                if maybe and not unann:
                    raise Violation("%s: system events lost: %s" % (k, maybe))
                best = self.best(c, R, S)
                ctx.evals += 1
                if (c["P"] or best < 1) and not unann and abs(best - tot) > 1e-9 * best:
                    raise Violation("%s: the map scores %r, %r is possible: %s" % (k, tot, best, [(r, r.map) for r in R if r.map]))
                if tot > best * (1 + 1e-9):
                    raise Violation("%s: the map scores %r, more than %r" % (k, tot, best))
                if unann and (c["P"] or best < 1):
                    # some choice of partners for the unannotated ones has to make the map optimal
                    if not self.complete(c, R, S, rs, hidden, unann, inE, best):
                        raise Violation("%s: no map that scores %r holds the one printed: %s" % (k, best, [(r, r.map) for r in rs]))
                scores[k] = self.tally(f, ty, rs, ss, ws, okw)
                if any(r.map for r in rs) and (any(r.map is None or r.map.sub != r.sub for r in rs) or len(ss) != sum(r.map is not None for r in rs) or hidden or nr != len(rs)):
                    interesting = True
        if maps:
            raise Violation("scored although there is nothing to score: %s" % sorted(maps))
        self.reports(c, out, scores, ctx)
        if interesting:
            ctx.nontrivial(c)

    def complete(self, c, R, S, rs, hidden, unann, inE, best):
        """can the printed map be completed by pairs of unannotated SUs and discarded system events into an optimal one?"""
        NEG = float("-inf")
        mid = lambda e: (e.ra + (e.rb - e.ra) / 2) * G
        inside = lambda e: any(u.a <= mid(e) <= u.b for u in unann)
        must = lambda e: e in hidden and inE(e) and not inside(e)         # hidden only because it was mapped
        n, m = len(R), len(S)
        D = [[NEG] * (m + 1) for _ in range(n + 1)]
        D[0][0] = 0.0
        for i in range(n + 1):
            for j in range(m + 1):
                v = D[i][j]
                if v == NEG:
                    continue
                if i < n and not (R[i] in rs and R[i].map):
                    D[i + 1][j] = max(D[i + 1][j], v)
                if j < m and S[j].map is None and not must(S[j]):
                    D[i][j + 1] = max(D[i][j + 1], v)
                if i < n and j < m:
                    if R[i].map is S[j] or (R[i] in unann and S[j] in hidden):
                        q = self.score(c, R[i], S[j])
                        if q is not None:
                            D[i + 1][j + 1] = max(D[i + 1][j + 1], v + q)
        return D[n][m] >= best - 1e-9 * max(best, 1e-9)

    def tally(self, f, ty, R, S, ws, okw):
        n = len(ws)
        W = {"REF": 0, "DEL": 0, "INS": 0, "SUB": 0}
        tags = [({}, {}, {}) for _ in range(n)]           # reference, mapped system, unmapped system
        add = lambda d, e: d.__setitem__(e.sub, d.get(e.sub, 0) + 1)
        nref = [[0, 0] for _ in range(n)]
        for side, L in ((0, R), (1, S)):
            for e in L:
                a, b = e.w
                if ty in ("EDIT", "FILLER"):
                    for i in range(max(a, 0), min(b, n - 1) + 1):
                        add(tags[i][side], e)
                else:
                    i = min(max(b, 0), n - 1)
                    if side == 0:
                        nref[i][0] += 1
                        if e.map:
                            add(tags[i][0], e)
                    else:
                        add(tags[i][1 if e.map else 2], e)
        for i in range(n):
            if ty in ("EDIT", "FILLER"):
                if not okw[i]:
                    continue
                r = sum(tags[i][0].values())
            else:
                r = nref[i][0]
            y, x = sum(tags[i][1].values()), sum(tags[i][2].values())
            cor = sum(min(v, tags[i][1].get(k, 0)) for k, v in tags[i][0].items())
            W["REF"] += r
            W["DEL"] += max(r - y, 0)
            W["INS"] += max(y - r, 0) + x
            W["SUB"] += min(r, y) - cor
        if ty in ("EDIT", "FILLER") and not any(okw):
            W = {}                                        # no scored words: no row
        off = {"BEG": {}, "END": {}}
        for r in R:
            if r.map:
                for w, i, j in (("BEG", r.w[0], r.map.w[0]), ("END", r.w[1], r.map.w[1])):
                    lo, hi = min(i, j), max(i, j)
                    rng = range(lo, hi) if w == "BEG" else range(lo + 1, hi + 1)
                    d = sum(1 for q in rng if 0 <= q < n and okw[q])
                    d = d if j > i else -d
                    off[w][d] = off[w].get(d, 0) + 1
        evs = []                                          # (kind, speaker, subtype)
        conf = {}
        cnf = lambda a, b: conf.__setitem__((a, b), conf.get((a, b), 0) + 1)
        for r in R:
            evs.append(("REF", r.spk, r.sub))
            if not r.map:
                evs.append(("DEL", r.spk, r.sub))
                cnf(r.sub, "{Miss}")
            else:
                cnf(r.sub, r.map.sub)
                if r.map.sub != r.sub:
                    evs.append(("SUB", r.spk, r.sub))
        for y in S:
            if not y.map:
                ks = {ws[i][1] for i in range(max(0, min(y.w)), min(n - 1, max(y.w)) + 1)}
                evs.append(("INS", ks.pop() if len(ks) == 1 else "unknown", y.sub))
                cnf("{FA}", y.sub)
        return W, off, evs, conf

    def reports(self, c, out, scores, ctx):
        parts = re.split(r"^\*\*\* Performance analysis for (\w+)s \*\*\*  overall error SCORE = (\S+)%\n", out, flags=re.M)
        types = sorted({k[0] for k in scores})
        if parts[1::3] != types:
            raise Violation("reports for %s instead of %s" % (parts[1::3], types))
        for ty, sc, txt in zip(parts[1::3], parts[2::3], parts[3::3]):
            words, events, conf, off = {}, {}, {}, {"BEG": {}, "END": {}}
            put = lambda d, cat, kind, v: d.setdefault(cat, {"REF": 0, "DEL": 0, "INS": 0, "SUB": 0}).__setitem__(kind, d[cat][kind] + v)
            for (t, f, ch), (W, o, evs, cf) in scores.items():
                if t != ty:
                    continue
                g = next(x["gender"] for x in c["files"] if (x["f"], x["c"].lower()) == (f, ch))
                cat = lambda o: ["c=%s f=%s" % (ch, f)] if "c" in o and "f" in o else ["c=" + ch] if "c" in o else ["f=" + f] if "f" in o else []
                for k in ["ALL"] + cat(c["A"]):
                    for kind, v in W.items():
                        put(words, k, kind, v)
                for kind, spk, sub in evs:
                    for k in ["ALL"] + cat(c["a"]) + (["s=" + spk] if "s" in c["a"] else []) + (["g=" + g.get(spk, "unknown")] if "g" in c["a"] else []):
                        put(events, k, kind, 1)
                for k, v in cf.items():
                    conf[k] = conf.get(k, 0) + v
                for w in o:
                    for d, v in o[w].items():
                        off[w][d] = off[w].get(d, 0) + v
            a = words.get("ALL", {"REF": 0, "DEL": 0, "INS": 0, "SUB": 0})
            n = a["DEL"] + a["INS"] + (a["SUB"] if ty in ("SU", "FILLER") else 0)
            if a["REF"]:
                ctx.evals += 1
                if abs(float(sc) - 100 * n / a["REF"]) > .0051:
                    raise Violation("%s: score %s, should be %s" % (ty, sc, 100 * n / a["REF"]))
            tabs = re.split(r"^.*statistics -- in terms of .*\n", txt, flags=re.M)
            if len(tabs) != 3:
                raise Violation("%s: tables" % ty)
            ev, rest = tabs[2].split("\n%s detection confusion matrix" % ty)
            for nm, body, want in (("words", tabs[1], words), ("events", ev, events)):
                got = {}
                for ln in body.strip("\n").splitlines()[1:]:
                    q = ln[28:].split()
                    got[ln[:28].strip()] = ([int(x) for x in q[:4]], [float(x) for x in q[4:]])
                if set(got) != set(want):
                    raise Violation("%s: rows %s of %s, should be %s" % (ty, sorted(got), nm, sorted(want)))
                for k, v in want.items():
                    ctx.evals += 1
                    w = [v["REF"], v["DEL"], v["INS"], v["SUB"]]
                    if got[k][0] != w:
                        raise Violation("%s: %s %s: REF, DEL, INS, SUB are %s, should be %s" % (ty, nm, k, got[k][0], w))
                    nrm = 100 / max(v["REF"], EPS)
                    pc = [min(999.99, nrm * x) for x in w[1:] + [w[1] + w[2], w[1] + w[2] + w[3]]]
                    if any(abs(x - y) > .0051 for x, y in zip(got[k][1], pc)) or len(got[k][1]) != 5:
                        raise Violation("%s: %s %s: percentages %s, should be %s" % (ty, nm, k, got[k][1], pc))
            mat, _, offs = rest.partition("\n%s word offset statistics for ALL data\n" % ty)
            rows = [ln.split() for ln in mat.splitlines()[2:] if ln.strip()]
            names = [r[0] for r in rows]
            cols = [x for x in names if x != "{FA}"] + ["{Miss}"]
            if len(set(names)) != len(names) or "{FA}" not in names and events:
                raise Violation("%s: rows of the matrix: %s" % (ty, names))
            cell = {}
            for r in rows:
                vs = [int(x) for x in r[1:]]
                if len(vs) != len(cols) - (r[0] == "{FA}"):
                    raise Violation("%s: matrix row %s" % (ty, r))
                for k, v in zip(cols, vs):
                    if v:
                        cell[r[0], k] = v
            ctx.evals += 1
            if cell != conf:
                raise Violation("%s: matrix %s, should be %s" % (ty, cell, conf))
            if off["BEG"]:
                for w in off:
                    q = re.search(r"^ *%s: *(.*)$" % w, offs, re.M)
                    v = [0 if x == "-" else int(x) for x in q[1].split()]
                    want = [sum(n for d, n in off[w].items() if d < -3)] + [off[w].get(d, 0) for d in range(-3, 4)] + [sum(n for d, n in off[w].items() if d > 3)]
                    ctx.evals += 1
                    if v != want:
                        raise Violation("%s: offsets of %s are %s, should be %s" % (ty, w, v, want))
            elif offs:
                raise Violation("%s: offsets without mapped events" % ty)


class Words(Meta):
    name, quick, thorough, wordy = "words", 6000, 60000, True


SUITES = [Meta(), Words()]


def build():
    return {"perl": B.perl()}
