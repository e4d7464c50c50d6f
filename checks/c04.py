"""C04: stm/ctm scoring puts every hypothesis word in the right reference segment and scores every segment exactly once."""
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run over a generated stm reference and ctm hypothesis: several files and channels, segments with gaps, labels, "
        "ignored segments, alternations on both sides, words on and outside segment boundaries, files missing from the hypothesis, "
        "-m ref/hyp/both, -s/-D/-F; or a hypothesis with data the reference does not cover, which must be refused. One evaluation is one "
        "segment whose words, attributes and alignment were checked. Non-trivial: a word outside its segment's times, an alternation, an "
        "ignored or reduced segment, a missing file or a refusal; distinct segments counted.")

U = 4      # time unit: 1/U s, exact in binary


def build():
    return {"sclite": B.sclite() + "/sclite"}


def t(x):
    return "%.3f" % (x / float(U)) if x * 10 % U else "%.2f" % (x / float(U))


def hyp_items(words):
    """words: list of [t1, dur, text, conf] or ["alt", [[word...], ...]] -> (transcript, parallel attrs)"""
    return [w[2] if w[0] != "alt" else ["alt", [[x[2] for x in a] for a in w[1]]] for w in words]


def flat(w):
    return [w] if w[0] != "alt" else [x for a in w[1] for x in a]


def mid(w):
    return max([2 * x[0] + x[1] for x in flat(w)] or [0])     # twice the midpoint


class StmCtm(Suite):
    name, quick, thorough = "stm-ctm", 16000, 200000

    def words(self, s, o, lo, hi, n, conf):
        """n time-ordered words within about lo..hi"""
        out, cur = [], lo
        step = max(1, (hi - lo) // (n + 1))
        for _ in range(n):
            def w():
                c = None if not conf else ("NA" if s.bool(.05) else "%.2f" % (s.draw(100) / 100.0))
                return [cur + s.draw(1), s.draw(6), scl.gen_word(s, o), c]
            if s.bool(.12):
                out.append(["alt", [[w() for _ in range(s.int(0 if k else 1, 2))] for k in range(s.int(2, 3))]])
            else:
                out.append(w())
            cur += s.int(0, step)
        return out

    def gen(self, s):
        o = {"case": s.bool(.3), "alt": s.choice([0, .15]), "depth": 1}
        D, F = s.bool(.15), s.bool(.15)
        o["opt"], o["frag"] = D and .3, F
        conf = s.bool()
        groups = []
        big = s.bool(.004)
        for f in range(s.weighted((4, 1), (3, 2), (2, 3), (.5 and 1, 5))):
            for c in range(s.weighted((3, 1), (2, 2))):
                segs, cur = [], 0
                pre = s.draw(6) + (s.choice([390, 4000, 39990]) if s.bool(.15) else 0)
                cur = pre
                n = s.int(1, 6) if not big else s.int(60, 230)
                hyp = []
                if s.bool(.3):
                    hyp += self.words(s, o, 0, max(1, pre), s.int(1, 2), conf)
                for _ in range(n):
                    dur = s.int(2, 24)
                    txt = scl.gen_seq(s, o, 2.5, hi=15)
                    ign = s.bool(.1)
                    segs.append({"t1": cur, "t2": cur + dur, "spk": "spk" + s.choice("ABCd"), "lab": s.choice([None, None, "<O,M>", "<o>"]),
                                 "txt": txt, "ign": ign})
                    hw = scl.corrupt(s, scl.reading(s, txt), o, .3)
                    ws = self.words(s, o, cur, cur + dur, max(0, len(hw)), conf)
                    for i, x in enumerate(ws):
                        if x[0] != "alt":
                            x[2] = hw[i]
                    hyp += ws
                    cur += dur
                    gap = s.weighted((3, 0), (2, 1), (1, 20))
                    if gap > 2 and s.bool():
                        hyp += self.words(s, o, cur, cur + gap, s.int(1, 2), conf)
                    cur += gap
                if s.bool(.3):
                    hyp += self.words(s, o, cur, cur + 12, s.int(1, 3), conf)
                # time order at the top level
                hyp.sort(key=lambda w: min(x[0] for x in flat(w)))
                if s.bool(.1):
                    hyp = []
                groups.append({"file": "File%d" % f, "chan": s.choice(["A", "1"]) if c == 0 else "B", "segs": segs, "hyp": hyp})
        return {"groups": groups, "m": s.choice([None, None, "ref", "hyp", "both"]), "cs": s.bool(.3), "D": D, "F": F,
                "extra": s.weighted((20, None), (1, "end"), (1, "start"), (1, "chan")), "noise": s.draw(3), "nl": s.bool(.9)}

    @staticmethod
    def lines(case, head=()):
        G = case["groups"]
        stm, ctm = list(head) + [";; comment"] if case["noise"] else list(head), []

        def ctmline(g, w):
            return "%s %s %s %s %s%s" % (g["file"], g["chan"], t(w[0]), t(w[1]), w[2], "" if w[3] is None else " " + w[3])
        for gi, g in enumerate(G):
            for sg in g["segs"]:
                if scl.render(sg["txt"]).startswith("<") and not sg["lab"]:
                    sg["lab"] = "<o>"       # a leading <...> is the label field
                stm.append("%s %s %s %s %s %s%s" % (g["file"], g["chan"], sg["spk"], t(sg["t1"]), t(sg["t2"]),
                           sg["lab"] + " " if sg["lab"] else "", "IGNORE_TIME_SEGMENT_IN_SCORING" if sg["ign"] else scl.render(sg["txt"])))
                if case["noise"] == 2:
                    stm.append("  ")
            for w in g["hyp"]:
                if w[0] == "alt":
                    ctm.append("%s %s * * <ALT_BEGIN>" % (g["file"], g["chan"]))
                    for i, a in enumerate(w[1]):
                        if i:
                            ctm.append("%s %s * * <ALT>" % (g["file"], g["chan"]))
                        ctm += [ctmline(g, x) for x in a]
                    ctm.append("%s %s * * <ALT_END>" % (g["file"], g["chan"]))
                else:
                    ctm.append(ctmline(g, w))
            if case["noise"] == 3:
                ctm.append(";; another comment")
        if not any(g["hyp"] for g in G):
            ctm.append("%s %s 0.0 0.1 zz" % (G[0]["file"], G[0]["chan"]))
            G[0]["hyp"] = [[0, .1 * U, "zz", None]]
        return stm, ctm

    def check(self, case, ctx):
        cs, G, m = case["cs"], case["groups"], case["m"]
        f = lambda w: scl.fold(w, cs)
        stm, ctm = self.lines(case)
        x = case["extra"]
        if x == "end":
            ctm.append("Zfile A 0.1 0.2 x")
        elif x == "start":
            ctm.insert(0, "0file A 0.1 0.2 x")
        elif x == "chan":
            ctm.append("%s ZZ 0.1 0.2 x" % G[-1]["file"])
        ctx.write("r.stm", "\n".join(stm) + ("\n" if case["nl"] else ""))
        ctx.write("h.ctm", "\n".join(ctm) + ("\n" if case["nl"] else ""))
        cmd = [ctx.bins["sclite"], "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-O", ctx.dir, "-o", "sgml"]
        cmd += (["-s"] if cs else []) + (["-D"] if case["D"] else []) + (["-F"] if case["F"] else [])
        if m:
            cmd += ["-m"] + (["ref", "hyp"] if m == "both" else [m])
        if x:
            rc, _, err = ctx.run(cmd, ok=None)
            if rc == 0:
                raise Violation("a hypothesis with words the reference does not cover was accepted (exit 0)")
            ctx.evals += 1
            ctx.label("refused: extra hypothesis data (%s)" % x)
            ctx.nontrivial(case)
            return
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("h.ctm.sgml"))[0]
        W = scl.Words(case["F"], case["D"])
        # the model: which segments are scored, with which words
        exp, seqno = [], 0
        for g in G:
            segs, hyp = g["segs"], g["hyp"]
            keep = [True] * len(segs)
            if m in ("ref", "both") and hyp:
                tw = [x for w in hyp for x in flat(w)]
                b0, e0 = tw[0][0], tw[-1][0] + tw[-1][1]
                keep = [not (b0 >= sg["t2"] or e0 <= sg["t1"]) for sg in segs]
            drop = [False] * len(hyp)
            if m in ("hyp", "both"):
                ks = [sg for sg, k in zip(segs, keep) if k]
                bt = min([sg["t1"] for sg in ks] or [10 ** 9])
                et = max([sg["t2"] for sg in ks] or [-10 ** 9])
                drop = [all(x[0] > et or x[0] + x[1] < bt for x in flat(w)) for w in hyp]
            cur = 0
            for i, sg in enumerate(segs):
                if not keep[i]:
                    ctx.label("segment reduced away")
                    continue
                st = cur
                if i == len(segs) - 1:
                    cur = len(hyp)
                else:
                    while cur < len(hyp) and mid(hyp[cur]) < 2 * sg["t2"]:
                        cur += 1
                if sg["ign"]:
                    ctx.label("ignored segment")
                    continue
                exp.append((g, sg, [w for w, d in list(zip(hyp, drop))[st:cur] if not d]))
        got = {}
        for sp in sy["speakers"]:
            for k, p in enumerate(sp["paths"]):
                a = p["attrs"]
                if a["id"] != "(%s-%03d)" % (sp["id"], k):
                    raise Violation("utterance id %s at position %d of speaker %s" % (a["id"], k, sp["id"]))
                got[int(a["sequence"])] = (sp["id"], p)
        if sorted(got) != list(range(len(exp))):
            raise Violation("%d segments scored (sequence %r), expected %d" % (len(got), sorted(got), len(exp)))
        for k, (g, sg, ws) in enumerate(exp):
            spk, p = got[k]
            a = p["attrs"]
            e = {"file": f(g["file"]), "channel": f(g["chan"]), "R_T1": "%.3f" % (sg["t1"] / U), "R_T2": "%.3f" % (sg["t2"] / U)}
            if spk != f(sg["spk"]):
                raise Violation("segment %d scored under speaker %s, expected %s" % (k, spk, f(sg["spk"])))
            for kk in e:
                if a.get(kk) != e[kk]:
                    raise Violation("segment %d: %s=%r, expected %r" % (k, kk, a.get(kk), e[kk]))
            if (a.get("labels") or "").lower() != (sg["lab"] or "").lower():
                raise Violation("segment %d: labels %r, expected %r" % (k, a.get("labels"), sg["lab"]))
            what = "segment %d (%s %s %s-%s)" % (k, g["file"], g["chan"], e["R_T1"], e["R_T2"])
            scl.check_alignment(p["toks"], scl.map_words(sg["txt"], f), scl.map_words(hyp_items(ws), f), W, what)
            self.check_aux(p, ws, f, what, "h_conf" in a["word_aux"])
            ctx.evals += 1
            if any(w[0] == "alt" for w in ws) or scl.has_alt(sg["txt"]):
                ctx.label("alternation")
                ctx.nontrivial((sg, ws))
            if any(not (2 * sg["t1"] <= mid(w) <= 2 * sg["t2"]) for w in ws):
                ctx.label("word outside segment times")
                ctx.nontrivial((sg, ws))
            if not g["hyp"]:
                ctx.label("no hypothesis for file/channel")
                ctx.nontrivial((sg, k))
        if m:
            ctx.label("-m " + m)

    def check_aux(self, p, ws, f, what, has_conf):
        """the times and confidences on the hypothesis side are those of the words shown"""
        seqs = {()}
        # set of reachable (consumed path) is explored with the shown words
        shown = [(t_[2], t_[3]) for t_ in p["toks"] if t_[2] is not None]

        def tag(w):
            c = float(w[3]) if w[3] not in (None, "NA") else 0.0
            return (f(w[2]), "%.3f+%.3f" % (w[0] / U, (w[0] + w[1]) / U), "%.6f" % c)
        states = {0}
        seq = [(w, aux[0], aux[1] if has_conf else None) for w, aux in shown]
        for it in ws:
            nxt = set()
            for st in states:
                for alt in ([[it]] if it[0] != "alt" else it[1]):
                    q = st
                    for w in alt:
                        x = tag(w)
                        if q < len(seq) and seq[q][0] == x[0] and seq[q][1] == x[1] and (not has_conf or seq[q][2] == x[2]):
                            q += 1
                        else:
                            q = -1
                            break
                    if q >= 0:
                        nxt.add(q)
            states = nxt
        if len(seq) not in states:
            raise Violation("%s: times or confidences of the hypothesis words %r are not those of the input %r" % (what, shown, ws))


SUITES = [StmCtm()]
