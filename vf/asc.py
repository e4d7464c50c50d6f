"""asclite: generated recordings (stm / rttm references, ctm / rttm systems), and an independent model of its
segmentation, its multi-dimensional alignment and its reports."""
import re
from functools import lru_cache

WORDS = ["a", "b", "c", "d", "ab", "abc", "bc", "A", "Bc"]


# ---------------------------------------------------------------- word trees
# item: str  |  ["alt", [seq, seq, ...]]   (a sequence may be empty: null alternative)
def text(seq):
    out = []
    for x in seq:
        if isinstance(x, str):
            out.append(x)
        else:
            out.append("{ " + " / ".join(text(q) if q else "@" for q in x[1]) + " }")
    return " ".join(out)


def skippable(seq):
    return all(not isinstance(x, str) and any(skippable(q) for q in x[1]) for x in seq)


def edges(seq, a, new, E):
    """adds seq's edges from state a, returns the end state"""
    for x in seq:
        if isinstance(x, str):
            b = new()
            E.append((a, b, x))
        else:
            ends = [edges(q, a, new, E) for q in x[1]]
            b = new()
            for e in ends:
                E.append((e, b, None))
        a = b
    return a


def automaton(seqs):
    """(outgoing edges per state, final state) of the concatenation of seqs; states are in topological order"""
    n = [0]

    def new():
        n[0] += 1
        return n[0]
    E, a = [], 0
    for s in seqs:
        a = edges(s, a, new, E)
    out = [[] for _ in range(n[0] + 1)]
    for x, y, w in E:
        out[x].append((y, w))
    return out, a


def accepts(seq, words):
    out, fin = automaton([seq])

    def close(S):
        S = set(S)
        st = list(S)
        while st:
            for y, w in out[st.pop()]:
                if w is None and y not in S:
                    S.add(y)
                    st.append(y)
        return S
    S = close([0])
    for w in words:
        S = close(y for x in S for y, v in out[x] if v == w)
    return fin in S


# ---------------------------------------------------------------- words
class Opt:
    """the options that decide what a word means"""

    def __init__(self, case):
        o = case["opt"]
        self.s, self.F = o.get("s"), o.get("F")
        self.D = o.get("D")
        self.optref, self.opthyp = self.D in ("ref", "both"), self.D in ("hyp", "both")

    def norm(self, w):
        return w if self.s else w.lower()

    def split(self, w, side):
        """(text, optional, fragment)"""
        w, o = self.norm(w), False
        if (self.optref if side == "r" else self.opthyp) and len(w) > 2 and w[0] == "(" and w[-1] == ")":
            w, o = w[1:-1], True
        f = ""
        if self.F:
            if w[0] == "-":
                w, f = w[1:], "e"
            elif w[-1] == "-":
                w, f = w[:-1], "b"
        return w, o, f

    def same(self, r, h):
        a, _, fa = self.split(r, "r")
        b, _, fb = self.split(h, "h")
        if not fa and not fb:
            return a == b
        if fa and fb:
            if fa != fb:
                return False
            return (a.startswith(b) or b.startswith(a)) if fa == "b" else (a.endswith(b) or b.endswith(a))
        if fb:
            return a.startswith(b) if fb == "b" else a.endswith(b)
        return b.startswith(a) if fa == "b" else b.endswith(a)

    def cost1(self, w, side):
        return 2 if self.split(w, side)[1] else 3

    def cost2(self, r, h):
        return 0 if self.same(r, h) else 4


def best(refs, hyps, opt, costs=None, extra=None):
    """cheapest alignment of the reference dimensions with the hypothesis dimensions (lists of sequences)"""
    auts = [automaton(x) for x in refs] + [automaton(x) for x in hyps]
    nr = len(refs)
    INF = 1 << 30
    start = tuple([0] * len(auts))
    goal = tuple(f for _, f in auts)
    same = lru_cache(None)(opt.cost2)
    one = lru_cache(None)(opt.cost1)
    D = {start: 0}
    # the states of every dimension are numbered in topological order: the sums of the numbers order the product
    buckets = {0: [start]}
    tot = sum(goal)
    for lvl in range(tot + 1):
        for st in buckets.pop(lvl, ()):
            c = D[st]

            def put(t, k):
                if D.get(t, INF) > k:
                    if t not in D:
                        buckets.setdefault(sum(t), []).append(t)
                    D[t] = k
            hw = []
            for i in range(nr, len(auts)):
                for y, w in auts[i][0][st[i]]:
                    t = st[:i] + (y,) + st[i + 1:]
                    if w is None:
                        put(t, c)
                    else:
                        put(t, c + one(w, "h"))
                        hw.append((i, y, w))
            for i in range(nr):
                for y, w in auts[i][0][st[i]]:
                    t = st[:i] + (y,) + st[i + 1:]
                    if w is None:
                        put(t, c)
                        continue
                    put(t, c + one(w, "r"))
                    for j, z, v in hw:
                        put(t[:j] + (z,) + t[j + 1:], c + (same(w, v) or (extra(i, j - nr) if extra else 0)))
    return D[goal]


# ---------------------------------------------------------------- generation
def t(ms):
    return "%d.%03d" % (ms // 1000, ms % 1000)


def gen_word(s, o, side):
    w = s.choice(WORDS[:s.choice([2, 4, 9])])
    if s.bool(.12):
        w = s.choice([w + "-", "-" + w])
    if o["D"] and s.bool(.25) or s.bool(.03):
        w = "(" + w + ")"
    return w


def gen_seq(s, o, lo, hi, depth=0):
    out = []
    for _ in range(s.int(lo, hi)):
        if depth < 2 and s.bool(.15 if o["alt"] else 0.):
            alts = [gen_seq(s, o, 0 if depth < 2 and s.bool(.3) else 1, 2, depth + 1) for _ in range(s.int(2, 3))]
            if sum(1 for a in alts if not a) > 1:
                alts = [a or ["d"] for a in alts]
            out.append(["alt", alts])
        else:
            out.append(gen_word(s, o, "r"))
    return out


def gen(s, fmts=("ctm", "rttm"), nsys=(1, 1, 1, 2)):
    o = {"s": s.bool(.25), "F": s.bool(.3), "D": s.choice(["", "", "", "ref", "hyp", "both"]), "alt": s.bool(.4),
         "limit": s.choice([0, 0, 0, 1, 2]), "comp": s.bool(.1), "noisg": s.bool(.15)}
    hf = s.choice(list(fmts))
    streams = []
    for i in range(s.choice([1, 1, 2, 3])):
        streams.append([s.choice(["f", "g10", "g1"]), s.choice(["1", "A"])])
    streams = sorted(set(map(tuple, streams)))
    rf = "stm" if o["alt"] or hf == "ctm" else s.choice(["stm", "stm", "rttm"])
    uem = s.choice(["", "", "", "both", "both", "ref"])
    case = {"opt": o, "hf": hf, "streams": []}
    nsys = s.choice(list(nsys))
    for f, ch in streams:
        segs = []
        for spk in range(s.choice([1, 2, 2, 3])):
            clock = s.int(0, 30) * 100
            for _ in range(s.choice([1, 1, 2, 3])):
                dur = s.int(3, 25) * 100
                seq = gen_seq(s, o, 0 if s.bool(.15) else 1, s.choice([1, 2, 3, 4]))
                if skippable(seq) and seq:
                    seq = ["b"] + seq
                segs.append({"spk": "s%d" % spk, "t1": clock, "t2": clock + dur, "w": seq, "ign": rf == "stm" and s.bool(.04), "lbl": s.choice(["", "<o,f0>", "<O>"])})
                clock += dur + s.choice([0, 0, 100, 500, 1500, 3000])
        segs.sort(key=lambda x: (x["t1"], x["spk"]))
        end = max(x["t2"] for x in segs)
        syss = []
        pool = [w for x in segs for w in re.sub(r"[{}/@]", " ", text(x["w"])).split()]
        conf = s.bool(.5)
        for k in range(nsys):
            ws = []
            lanes = ["x", "y"][:1 if hf == "ctm" else s.choice([1, 2, 2])]
            for lane in lanes:
                clock = s.int(0, 20) * 50
                while clock < end + 600 and len(ws) < 14:
                    d = s.choice([50, 100, 200, 250])
                    w = s.choice(pool) if pool and s.bool(.7) else gen_word(s, o, "h")
                    ws.append({"t1": clock + (0 if lane == "x" else 10), "t2": clock + d, "w": w, "spk": lane, "c": (s.int(1, 99) / 100. if conf else None)})
                    clock += d + s.choice([0, 50, 100, 500, 1000])
            ws.sort(key=lambda x: (x["t1"], x["spk"]))
            syss.append(ws)
        st = {"f": f, "ch": ch, "segs": segs, "sys": syss, "uem": []}
        if uem:
            gs = groups(segs)
            cut = sorted(set([0, end + 2000] + [x for g in gs for x in (g[0], g[1])] + [(a + b) // 2 // 10 * 10 for a, b in gaps(gs, 0, end + 2000)]))
            i = s.choice([0, 0, 1, 2])
            while i < len(cut) - 1:
                j = s.int(i + 1, len(cut) - 1)
                if s.bool(.9):
                    st["uem"].append([cut[i], cut[j]])
                i = j + s.choice([0, 1, 1])
        case["streams"].append(st)
    for k in range(nsys):
        if not any(st["sys"][k] for st in case["streams"]):
            case["streams"][0]["sys"][k].append({"t1": 0, "t2": 100, "w": "a", "spk": "x", "c": None})
    if uem and not any(kept(x, st) for st in case["streams"] for x in st["segs"]):
        case["streams"][0]["uem"] = [[0, max(x["t2"] for x in case["streams"][0]["segs"]) + 1000]]
    case["rf"], case["uem"] = rf, uem
    case["nsys"] = nsys
    case["tf"] = s.choice(["%.3f", "%.2f", "%g"])
    return case


def gen_map(s, case):
    """a speaker map: (file, channel, reference speaker, system speaker, is it mapped)"""
    out = []
    for st in case["streams"]:
        refs = sorted(set(x["spk"] for x in st["segs"]))
        for h in ("x", "y"):
            r = s.choice(refs + [None]) if s.bool(.9) else "nobody"
            out += [[st["f"], st["ch"], q, h, q == r] for q in refs + ["nobody"] if q == r or s.bool(.5)]
        if s.bool(.3):
            out.append(["other", st["ch"], s.choice(refs), "x", True])
            out.append([st["f"], "other", s.choice(refs), "y", True])
    return s.shuffle([x for i, x in enumerate(out) if not x[4] or not any(y[4] and y[:2] == x[:2] and y[3] == x[3] for y in out[:i])])


def mapped(case):
    return {(f, ch, h): r for f, ch, r, h, m in case["map"] if m}


def kept(x, st):
    """is a reference segment inside an evaluated region"""
    return any(a <= x["t1"] and x["t2"] <= b for a, b in st["uem"])


OPTIONAL = ["fp", "frag", "un-lex", "for-lex", "FP"]


def lexeme(w, i):
    """(text, type): an optional word is written as such, or by a type that makes it optional"""
    if len(w) > 2 and w[0] == "(" and w[-1] == ")" and i % 3:
        return w[1:-1], OPTIONAL[(i + len(w)) % len(OPTIONAL)]
    return w, ["lex", "alpha", "lex", "propernoun"][i % 4]


def ref_rttm(case, fmt):
    L = []
    for st in case["streams"]:
        for x in st["segs"]:
            L.append("SPEAKER %s %s %s %s <NA> <NA> %s <NA>\n" % (st["f"], st["ch"], fmt(x["t1"]), fmt(x["t2"] - x["t1"]), x["spk"]))
            for i, w in enumerate(x["w"]):
                w, ty = lexeme(w, i + x["t1"] // 100)
                L.append("LEXEME %s %s %s %s %s %s %s <NA>\n" % (st["f"], st["ch"], fmt(x["t1"] + 10 * i), fmt(10), w, ty, x["spk"]))
    return "".join(L)


def write(case, ctx):
    fmt = lambda ms: case["tf"] % (ms / 1000.)
    L = []
    for st in case["streams"]:
        for x in st["segs"]:
            w = "ignore_time_segment_in_scoring" if x["ign"] else text(x["w"])
            L.append(" ".join(q for q in (st["f"], st["ch"], x["spk"], fmt(x["t1"]), fmt(x["t2"]), x["lbl"], w) if q) + "\n")
    ctx.write("ref.stm", "".join(L))
    if case.get("rf") == "rttm":
        ctx.write("ref.rttm", ref_rttm(case, fmt))
    if case.get("uem"):
        ctx.write("u.uem", ";; regions\n" + "".join("%s %s %s %s\n" % (st["f"], st["ch"], fmt(a), fmt(b)) for st in case["streams"] for a, b in st["uem"]))
    if case.get("map") is not None:
        ctx.write("map.csv", "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n# speakers\n" + "".join("%s,%s,%s,%s,%s,%.2f\n" % (f, ch, r, h, "mapped" if m else "notmapped", i / 4.) for i, (f, ch, r, h, m) in enumerate(case["map"])))
    names = []
    for k in range(case["nsys"]):
        L = []
        for st in case["streams"]:
            for x in st["sys"][k]:
                if case["hf"] == "ctm":
                    L.append("%s %s %s %s %s%s\n" % (st["f"], st["ch"], fmt(x["t1"]), fmt(x["t2"] - x["t1"]), x["w"], "" if x["c"] is None else " %.2f" % x["c"]))
                else:
                    w, ty = lexeme(x["w"], x["t1"] // 50)
                    L.append("LEXEME %s %s %s %s %s %s %s %s\n" % (st["f"], st["ch"], fmt(x["t1"]), fmt(x["t2"] - x["t1"]), w, ty, x["spk"],
                                                                    "<NA>" if x["c"] is None else "%.2f" % x["c"]))
        nm = "sys%d.%s" % (k, case["hf"])
        ctx.write(nm, "".join(L))
        names.append(nm)
    return names


def args(case, names):
    rf = case.get("rf", "stm")
    a = ["-r", "ref." + rf, rf]
    if case.get("uem"):
        a += ["-uem", "u.uem"] + ([case["uem"]] if case["uem"] != "both" or case["nsys"] > 1 else [])
    for n in names:
        a += ["-h", n, case["hf"]]
    o = case["opt"]
    if o["s"]:
        a.append("-s")
    if o["F"]:
        a.append("-F")
    if o["D"]:
        a += ["-D", o["D"]]
    if o["limit"]:
        a += ["-overlap-limit", str(o["limit"])]
    if o["comp"]:
        a += ["-memory-compression", "1", "-force-memory-compression"]
    if o["noisg"]:
        a += ["-noisg"]
    a += o.get("x", [])
    if case.get("map") is not None:
        a += ["-spkr-align", "map.csv"]
    if o.get("min"):
        a += ["-overlap-min", str(o["min"])]
    return a


# ---------------------------------------------------------------- model of the segmentation
def groups(segs):
    """maximal runs of overlapping reference segments: [(t1, t2, [segs])]"""
    out = []
    for x in sorted(segs, key=lambda x: x["t1"]):
        if out and x["t1"] < out[-1][1]:
            out[-1][1] = max(out[-1][1], x["t2"])
            out[-1][2].append(x)
        else:
            out.append([x["t1"], x["t2"], [x]])
    return out


def gaps(gs, lo, hi):
    out, c = [], lo
    for a, b, _ in gs:
        if a > c:
            out.append((c, a))
        c = max(c, b)
    if hi > c:
        out.append((c, hi))
    return out


# ---------------------------------------------------------------- sgml
def attrs(x):
    return dict(re.findall(r'(\w+)="([^"]*)"', x))


def sgml(txt):
    """[(system attrs, [(speaker, path attrs, [(eval, ref, hyp, aux...)])])]"""
    out = []
    L = txt.split("\n")
    i = 0
    while i < len(L):
        x = L[i]
        if x.startswith("<SYSTEM"):
            out.append((attrs(x), []))
        elif x.startswith("<SPEAKER"):
            spk = attrs(x)["id"]
        elif x.startswith("<PATH"):
            a = attrs(x)
            assert L[i + 2] == "</PATH>", L[i:i + 3]
            row = []
            if L[i + 1]:
                for tok in L[i + 1].split(":"):
                    p = tok.split(",")
                    names = a.get("word_aux", "").split(",")
                    row.append([p[0], p[1].strip('"'), p[2].strip('"'), dict(zip(names, p[3:]))])
            out[-1][1].append((spk, a, row))
            i += 2
        i += 1
    return out
