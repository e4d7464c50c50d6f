"""C17: asclite's alignment of overlapping speech is a true, complete and cheapest alignment."""
from vf import build as B, asc
from vf.engine import Suite, Violation

RULE = ("align: a system counts as non-trivial when some scored group has at least three dimensions (overlapping speakers "
        "or several hypothesis lanes) and its cheapest alignment is not free of errors; trn: an utterance of two or more "
        "reference items whose cheapest alignment has a cost")
ASSUMPTIONS = [
    "sorted, non-overlapping words per hypothesis lane; a reference speaker does not overlap itself; segments are not wholly "
    "skippable; hypothesis files and channels occur in the reference; times are multiples of 10 ms",
    "UEM regions do not cut through reference segments (asclite reports those as errors)",
    "an empty reference segment inside a scored group may be absent from the report (pinned by the tests)",
    "known finding accepted: a stream with an even number of hypothesis segments has no inter-segment gaps at all",
    "cost optimality is decided where the product automaton has at most 60000 states",
]


def ms(x):
    return int(round(float(x) * 1000))


def topo(n, arcs):
    """is the graph acyclic"""
    succ, deg = {}, {}
    for a, b in arcs:
        succ.setdefault(a, []).append(b)
        deg[b] = deg.get(b, 0) + 1
    st = [x for x in n if not deg.get(x)]
    k = 0
    while st:
        x = st.pop()
        k += 1
        for y in succ.get(x, ()):
            deg[y] -= 1
            if not deg[y]:
                st.append(y)
    return k == len(n)


def judge(case, k, paths, opt):
    """checks system k's paths; returns {speaker: [sents, sents in error, C, S, D, I]}"""
    o = case["opt"]
    left = list(paths)
    mp = asc.mapped(case) if case.get("map") is not None else None
    stats = {}
    inter = 0
    for st in case["streams"]:
        mine = [p for p in left if p[1]["file"] == st["f"] and p[1]["channel"] == st["ch"]]
        left = [p for p in left if p not in mine]
        segs, syss = st["segs"], st["sys"]
        uem = case.get("uem")
        if uem:
            segs = [x for x in segs if asc.kept(x, st)]
        gs = asc.groups(segs)
        allw = [w for j in range(case["nsys"]) for w in syss[j]]
        units = [(a, b, sg, False) for a, b, sg in gs]
        nogap = not any(p[0] == "inter_segment_gap" for p in mine)
        if o["noisg"] and not nogap:
            raise Violation("gaps are scored although -noisg was given")
        if not gs:
            pass
        elif uem:
            for a, b in st["uem"] * (not o["noisg"]):
                units += [(x, y, [], True) for x, y in asc.gaps([g for g in gs if a <= g[0] and g[1] <= b], a, b)]
        # known finding: with an even number of hypothesis segments a stream has no gaps at all
        elif not o["noisg"] and not (nogap and len(allw) % 2 == 0 and not case.get("strict")):
            lo = min([w["t1"] for w in allw] + [gs[0][0]])
            hi = max([w["t2"] for w in allw] + [max(g[1] for g in gs)])
            units += [(a, b, [], True) for a, b in asc.gaps(gs, lo, hi)]
        for a, b, sg, isg in units:
            hyp = [w for w in st["sys"][k] if a <= (w["t1"] + w["t2"]) // 2 < b]
            spks = sorted(set(x["spk"] for x in sg))
            skip = any(x["ign"] for x in sg) or (o["limit"] and len(spks) > o["limit"]) or len(spks) < o.get("min", 0)
            here = []
            if isg:
                here = [p for p in mine if p[0] == "inter_segment_gap" and ms(p[1]["R_T1"]) == a and ms(p[1]["R_T2"]) == b]
                if len(here) > 1 or (hyp and not here):
                    raise Violation("gap %s-%s of %s: %d paths for %d hypothesis words" % (a, b, st["f"], len(here), len(hyp)))
                want = [("inter_segment_gap", a, b, [])]
            else:
                want = [(x["spk"], x["t1"], x["t2"], x["w"]) for x in sg]
                for spk, t1, t2, w in want:
                    q = [p for p in mine if p[0] == spk and ms(p[1]["R_T1"]) == t1 and ms(p[1]["R_T2"]) == t2]
                    if skip and q:
                        raise Violation("segment %s %d-%d must not be scored but is: %s" % (spk, t1, t2, q))
                    if not skip and len(q) != 1 and (q or w or len(sg) == 1):
                        raise Violation("reference segment %s %s %d-%d has %d paths" % (st["f"], spk, t1, t2, len(q)))
                    here += q or [None]
            mine = [p for p in mine if p not in here]
            if skip:
                continue
            # words
            used = {}
            cost = 0
            nodes, arcs = [], []
            lastref = {}
            for (spk, t1, t2, seq), p in zip(want, here):
                if p is None:
                    continue
                words = []
                prev, lref = None, lastref.get(spk)
                row = stats.setdefault(spk, [0, 0, 0, 0, 0, 0])
                row[0] += 1
                if int(p[1]["word_cnt"]) != len(p[2]):
                    raise Violation("word_cnt %s but %d alignments" % (p[1]["word_cnt"], len(p[2])))
                err = False
                for e in p[2]:
                    ev, r, h = e[:3]
                    hw = None
                    if h:
                        if "+" not in e[3].get("h_t1+t2", ""):
                            raise Violation("no times for hypothesis word in %s" % e)
                        h1, h2 = map(ms, e[3]["h_t1+t2"].split("+"))
                        m = [w for w in hyp if w["t1"] == h1 and w["t2"] == h2]
                        if len(m) != 1:
                            raise Violation("%s is no hypothesis word of this group (%d-%d)" % (e, a, b))
                        hw = m[0]
                        if id(hw) in used:
                            raise Violation("hypothesis word used twice: %s" % e)
                        used[id(hw)] = 1
                        if opt.norm(hw["w"]) != h:
                            raise Violation("hypothesis word %r shown as %r" % (hw["w"], h))
                        if hw["c"] is not None and not abs(float(e[3].get("h_conf") or "nan") - hw["c"]) <= 1e-6:
                            raise Violation("confidence %s shown as %s" % (hw["c"], e[3]))
                    if r:
                        if case.get("rf") == "rttm" and e[3].get("r_t1+t2") != "%.3f+%.3f" % ((t1 + 10 * len(words)) / 1000., (t1 + 10 * len(words) + 10) / 1000.):
                            raise Violation("word %d of segment %s %d-%d has the times %s" % (len(words), spk, t1, t2, e))
                        words.append(r)
                    node = len(nodes)
                    nodes.append(node)
                    if hw:
                        used[id(hw)] = node
                    if prev is not None:
                        arcs.append((prev, node))
                    prev = node
                    if r:
                        if lref is not None:
                            arcs.append((lref, node))
                        lref = node
                    right = None
                    if mp is not None and hw:
                        right = mp.get((st["f"], st["ch"], hw["spk"])) == spk
                        if e[3].get("h_spkr") != hw["spk"]:
                            raise Violation("speaker of %s is %s" % (e, hw["spk"]))
                    cost += one(e, opt, right)
                    row["CSDI".index(ev) + 2] += 1
                    err = err or ev != "C"
                row[1] += err
                lastref[spk] = lref
                low = [opt.norm(x) for x in words]
                if not asc.accepts(norm_seq(seq, opt), low):
                    raise Violation("words %s are no reading of %r" % (low, asc.text(seq)))
            lanes = {}
            for w in hyp:
                if id(w) not in used:
                    raise Violation("hypothesis word %s (%d-%d) is not aligned" % (w["w"], w["t1"], w["t2"]))
                lanes.setdefault(w["spk"], []).append(w)
            for ws in lanes.values():
                for x, y in zip(ws, ws[1:]):
                    arcs.append((used[id(x)], used[id(y)]))
            if not topo(nodes, arcs):
                raise Violation("the alignment of group %d-%d crosses over" % (a, b))
            refs = [[norm_seq(x["w"], opt) for x in sg if x["spk"] == sp] for sp in spks]
            hyps = [[[opt.norm(w["w"]) for w in ws]] for ws in lanes.values()]
            size = 1
            for q in refs + hyps:
                size *= len(asc.automaton(q)[0])
            if size > 60000:
                continue
            extra = None if mp is None else lambda i, j, q=list(lanes): mp.get((st["f"], st["ch"], q[j])) != spks[i]
            opti = asc.best(refs, hyps, opt, extra=extra)
            if cost < opti or cost > opti and not o.get("lax"):
                raise Violation("alignment of group %d-%d costs %d, the cheapest costs %d" % (a, b, cost, opti))
            if len(refs) + len(hyps) > 2 and cost:
                inter += 1
        if any(p[2] for p in mine):
            raise Violation("paths of no reference segment: %s" % mine)
    if left:
        raise Violation("paths of no stream: %s" % left)
    return stats, inter


def norm_seq(seq, opt):
    return [opt.norm(x) if isinstance(x, str) else ["alt", [norm_seq(q, opt) for q in x[1]]] for x in seq]


class Align(Suite):
    name, quick, thorough = "align", 16000, 160000

    def gen(self, s):
        c = asc.gen(s)
        if s.bool(.25):
            # options that make asclite faster, or change what it minimises but not what an alignment is
            k = s.int(0, 8)
            c["opt"]["lax"] = k < 2 or k in (5, 6, 7)
            big = s.choice([0, 10, 100, 500, 1500]) if k < 2 else 10 ** 8
            if k == 8:
                c["opt"]["min"], c["opt"]["noisg"] = s.int(1, 3), True
            elif k == 5 and c.get("rf", "stm") == "stm":
                c["opt"]["lax"] = False
            else:
                c["opt"]["x"] = {4: ["-threads", str(s.int(2, 4))], 5: ["-time-base-cost"], 6: ["-adaptive-cost"], 7: ["-wordalign-cost"]}.get(k) or [["-time-prune", "-word-time-align"][k % 2], str(big)]
        return c

    def check(self, case, ctx):
        names = asc.write(case, ctx)
        exe = B.asclite() + "/asclite"
        rc, out, err = ctx.run([exe] + asc.args(case, names) + ["-o", "sgml", "stdout", "-f", "0"], cwd=ctx.dir, timeout=30, ok=None)
        if rc:
            raise Violation("asclite exits with %s: %s" % (rc, (out + err)[-300:]))
        ss = asc.sgml(out)
        if len(ss) != case["nsys"]:
            raise Violation("%d systems reported" % len(ss))
        opt = asc.Opt(case)
        for k, (a, paths) in enumerate(ss):
            if a["title"] != names[k]:
                raise Violation("system %d is called %r" % (k, a["title"]))
            stats, inter = judge(case, k, paths, opt)
            ctx.evals += 1
            if inter:
                ctx.nontrivial((ctx.read("ref.stm"), ctx.read(names[k])))


class Crowd(Align):
    """many speakers at once, a word or two each"""
    name, quick, thorough = "crowd", 800, 8000

    def gen(self, s):
        c = asc.gen(s, nsys=(1,))
        o = c["opt"]
        o["limit"], o["alt"], c["uem"], c["rf"] = 12, False, "", "stm"        # eight without the option
        st = c["streams"][0]
        c["streams"] = [st]
        st["uem"] = []
        n = s.choice([7, 8, 9, 9, 10])
        st["segs"] = [{"spk": "s%d" % k, "t1": 1000 + 10 * s.int(0, 30), "t2": 2000 + 10 * s.int(0, 50), "w": [asc.gen_word(s, o, "r") for _ in range(1 if n > 8 or s.bool(.7) else 2)], "ign": False, "lbl": ""} for k in range(n)]
        st["segs"].sort(key=lambda x: (x["t1"], x["spk"]))
        pool = [x["w"][0] for x in st["segs"]]
        st["sys"] = [[{"t1": 1000 + 250 * i, "t2": 1200 + 250 * i, "w": s.choice(pool) if s.bool(.6) else asc.gen_word(s, o, "h"), "spk": "x", "c": None} for i in range(s.int(1, 4))]]
        return c


class Speakers(Align):
    """a speaker map: right words by the wrong speaker are errors"""
    name, quick, thorough = "speakers", 4000, 40000

    def gen(self, s):
        c = asc.gen(s, fmts=("rttm",), nsys=(1,))
        c["map"] = asc.gen_map(s, c)
        if s.bool(.1):
            c["opt"]["x"], c["uem"] = ["-spkrmap"], ""
            st = s.choice(c["streams"])
            c["map"] += [[st["f"], st["ch"], s.choice(["x", "y", "z"]), s.choice(["s0", "s1"]), True]] * s.bool(.3)
        return c

    def check(self, case, ctx):
        if "-spkrmap" in case["opt"].get("x", ()):
            mp = asc.mapped(case)
            hit = any(mp.get((st["f"], st["ch"], w["spk"])) == x["spk"] for st in case["streams"] for x in st["segs"] for w in st["sys"][0])
            # known finding: the map is asked for the system speaker mapped to a reference speaker as if it were the other way round
            swap = any(mp.get((st["f"], st["ch"], x["spk"])) == w["spk"] for st in case["streams"] for x in st["segs"] for w in st["sys"][0])
            if hit != swap and not case.get("strict"):
                hit = not ctx.run([B.asclite() + "/asclite"] + asc.args(case, asc.write(case, ctx)) + ["-o", "sgml", "stdout", "-f", "0"], cwd=ctx.dir, timeout=30, ok=None)[0]
            if not hit:
                rc = ctx.run([B.asclite() + "/asclite"] + asc.args(case, asc.write(case, ctx)) + ["-o", "sgml", "stdout", "-f", "0"], cwd=ctx.dir, timeout=30, ok=None)[0]
                ctx.evals += 1
                if not rc:
                    raise Violation("-spkrmap accepts a map without a pair of these speakers")
                return
        super().check(case, ctx)


class Trn(Suite):
    """transcripts: one utterance is one group"""
    name, quick, thorough = "trn", 6000, 60000

    def gen(self, s):
        o = {"s": s.bool(.25), "F": s.bool(.3), "D": s.choice(["", "", "ref", "hyp", "both"]), "alt": s.bool(.5)}
        utts = []
        for spk in range(s.choice([1, 2, 3])):
            for n in range(s.choice([1, 1, 2, 4])):
                utts.append(["s%d%s" % (spk, s.choice(["-", "_"])) + str(n), self.seq(s, o), None])
        s.shuffle(utts)
        nsys = s.choice([1, 1, 2])
        for u in utts:
            u[2] = [self.seq(s, o) if s.bool(.9) else None for _ in range(nsys)]
        for k in range(nsys):
            if all(u[2][k] is None for u in utts):
                utts[0][2][k] = ["a"]
        return {"opt": o, "utts": utts, "nsys": nsys, "rev": s.bool(.2)}

    def seq(self, s, o):
        q = asc.gen_seq(s, o, s.choice([0, 1, 1]), s.choice([1, 2, 4, 6]))
        return ["b"] + q if q and asc.skippable(q) else q

    def check(self, case, ctx):
        o, opt = case["opt"], asc.Opt(case)
        ctx.write("r.trn", "".join("%s (%s)\n" % (asc.text(w), i) for i, w, _ in case["utts"]))
        a = ["-r", "r.trn", "trn"]
        for k in range(case["nsys"]):
            L = ["%s (%s)\n" % (asc.text(h[k]), i) for i, _, h in case["utts"] if h[k] is not None]
            ctx.write("h%d.trn" % k, "".join(L[::-1] if case["rev"] else L))
            a += ["-h", "h%d.trn" % k, "trn"]
        a += ["-s"] * o["s"] + ["-F"] * o["F"] + (["-D", o["D"]] if o["D"] else [])
        rc, out, err = ctx.run([B.asclite() + "/asclite"] + a + ["-i", "spu_id", "-o", "sgml", "stdout", "-f", "0"], cwd=ctx.dir, timeout=30, ok=None)
        if rc:
            raise Violation("asclite exits with %s: %s" % (rc, (out + err)[-300:]))
        ss = asc.sgml(out)
        if len(ss) != case["nsys"]:
            raise Violation("%d systems reported" % len(ss))
        for k, (_, paths) in enumerate(ss):
            if sorted(p[1]["id"] for p in paths) != sorted("(%s)" % u[0] for u in case["utts"]):
                raise Violation("utterances reported: %s" % [p[1]["id"] for p in paths])
            for i, ref, hyp in case["utts"]:
                p = [p for p in paths if p[1]["id"] == "(%s)" % i][0]
                hyp = hyp[k] or []
                if p[0] != i[:-2]:
                    raise Violation("%s is listed for speaker %s" % (i, p[0]))
                r, h = norm_seq(ref, opt), norm_seq(hyp, opt)
                for q, n, side in ((r, 1, "reference"), (h, 2, "hypothesis")):
                    w = [opt.norm(e[n]) for e in p[2] if e[n]]
                    if not asc.accepts(q, w):
                        raise Violation("%s: the %s words %s are no reading of it" % (i, side, w))
                cost = 0
                for e in p[2]:
                    cost += one(e, opt)
                best = asc.best([[r]], [[h]], opt)
                if cost != best:
                    raise Violation("alignment of %s costs %d, the cheapest costs %d: %s" % (i, cost, best, p[2]))
                if cost and len(ref) > 1:
                    ctx.nontrivial((ref, hyp, sorted(o.items())))
            ctx.evals += 1


def one(e, opt, right=None):
    """checks the label of one aligned pair, returns its cost; right: is the hypothesis word's speaker mapped to this one"""
    ev, r, h = e[:3]
    if right is not None:
        sub = bool(r and opt.same(r, h) and not right)
        if e[3].get("h_isSpkrSub") != str(sub).lower():
            raise Violation("%s: a word by the wrong speaker: %s" % (e, sub))
        if sub:
            if ev != "S":
                raise Violation("%s is labelled %s though its speaker is wrong" % (e, ev))
            return 1
    if r and h:
        want, c = "C" if opt.same(r, h) else "S", opt.cost2(r, h)
    elif r:
        want, c = "C" if opt.split(r, "r")[1] else "D", opt.cost1(r, "r")
    elif h:
        want, c = "C" if opt.split(h, "h")[1] else "I", opt.cost1(h, "h")
    else:
        raise Violation("empty alignment %s" % e)
    if ev != want:
        raise Violation("%s is labelled %s, should be %s" % (e, ev, want))
    return c


SUITES = [Speakers(), Align(), Trn(), Crowd()]


def build():
    B.asclite()
