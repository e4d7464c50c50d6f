"""C05: ctm/ctm scoring: every word of both files is scored once, in its own file/channel, and each alignment is optimal (word costs, or times with -T)."""
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run of a generated ctm hypothesis against a ctm reference: several files of one or two channels, short channels "
        "with alternations or long ones (hundreds of words, so that they are cut into chunks), with pauses, unequal lengths, with and without "
        "-T, -s, -D, -F; or files that do not cover each other, which must be refused. One evaluation is one aligned chunk compared with the "
        "reference DP, or one refusal. Non-trivial: contains at least one error or alternation; distinct chunks counted.")
U = 4.0


def build():
    return {"sclite": B.sclite() + "/sclite"}


def t(x):
    return "%.3f" % (x / U) if (x * 25) % 1 else "%.2f" % (x / U)


class TNet:
    """Net whose edges carry (word, t1, t2)"""

    @staticmethod
    def make(items):
        k = [0]
        table = {}

        def conv(it):
            if it[0] == "alt":
                return ["alt", [[conv(w) for w in a] for a in it[1]]]
            k[0] += 1
            key = "w%d" % k[0]
            table[key] = it
            return key
        n = scl.Net([conv(i) for i in items])
        n.edges = [[(table.get(w), q) for w, q in es] for es in n.edges]
        n.preds = [[(table.get(w), q) for w, q in es] for es in n.preds]
        return n


class TimeCost:
    def __init__(self, W, f):
        self.W, self.f = W, f

    def gap(self, w):
        return w[1] / U

    def sub(self, r, h):
        return (abs(r[0] - h[0]) + abs(r[0] + r[1] - h[0] - h[1])) / U + (0 if self.W.equal(self.f(r[2]), self.f(h[2])) else .001)


class TC:
    """adapts TimeCost to best_cost's memo (keys must be hashable)"""

    def __init__(self, tc):
        self.tc = tc

    def gap(self, w):
        return self.tc.gap(w)

    def sub(self, r, h):
        return self.tc.sub(r, h)


def tup(items):
    return [("alt", [tup(a) for a in i[1]]) if i[0] == "alt" else tuple(i) for i in items]


class CtmCtm(Suite):
    name, quick, thorough = "ctm-ctm", 10000, 100000
    chunk = 20

    def channel(self, s, o, long):
        n = s.int(1, 14) if not long else s.int(40, 260)
        cur, ref, hyp = s.draw(8) + (s.choice([390, 4000, 39990]) if s.bool(.15) else 0), [], []
        begin = cur
        pause = s.choice([.05, .2, .5])

        def word(at, dur):
            return [at, dur, scl.gen_word(s, o), "%.2f" % (s.draw(100) / 100) if o["conf"] else None]
        mode = s.weighted((5, "both"), (1, "rlong"), (1, "hlong"))
        for i in range(n):
            dur = s.int(1, 5)
            half = i > n // 3
            if not long and s.bool(o["alt"]):
                ref.append(["alt", [[word(cur, s.int(1, dur)) for _ in range(s.int(0 if k else 1, 2))] for k in range(s.int(2, 3))]])
                w = None
            else:
                w = word(cur, dur)
                if not (half and mode == "hlong"):
                    ref.append(w)
            if not (half and mode == "rlong"):
                k = s.weighted((6, 0), (1, 1), (1, 2), (1, 3))
                if not long and s.bool(o["alt"]):
                    hyp.append(["alt", [[word(cur, s.int(1, dur)) for _ in range(s.int(0 if q else 1, 2))] for q in range(s.int(2, 3))]])
                elif k == 0 and w:
                    hyp.append([cur, dur, w[2], w[3]])
                elif k == 1:
                    hyp.append(word(cur, s.int(1, dur)))
                elif k == 2 and dur > 1:
                    hyp += [word(cur, dur // 2), word(cur + dur // 2, dur - dur // 2)]
            cur += dur
            if s.bool(pause):
                cur += s.int(1, 12)
        if not long and s.bool(.35):
            # a hypothesis with times of its own: words within words, over several words, between words
            hyp, at = [], max(0, begin + s.draw(8) - 6)
            for i in range(s.int(1, max(2, n))):
                d = s.choice([1, 2, 3, 4, 6, 9, 14])
                w = word(at, d)
                flat = [x for x in ref if x[0] != "alt"]
                if flat and s.bool(.5):
                    w[2] = s.choice(flat)[2]
                hyp.append(w)
                at += d + s.choice([0, 0, 1, 3, 7])
        if not ref:
            ref.append(word(cur, 2))
        if not hyp:
            hyp.append(word(cur, 2))
        return ref, hyp

    def gen(self, s):
        D, F = s.bool(.15), s.bool(.15)
        o = {"case": s.bool(.3), "opt": D and .3, "frag": F, "alt": s.choice([0, 0, .12]), "conf": s.bool(.4)}
        chans = []
        for f in range(s.weighted((4, 1), (3, 2), (1, 4))):
            for c in range(s.int(1, 2)):
                r, h = self.channel(s, o, s.bool(.2))
                chans.append({"file": "Conv%d" % f, "chan": "AB"[c], "ref": r, "hyp": h})
        return {"chans": chans, "T": s.bool(.5), "cs": s.bool(.3), "D": D, "F": F, "bad": s.weighted((20, None), (1, "hyp"), (1, "ref"), (1, "hypchan"), (1, "refchan"))}

    @staticmethod
    def ctm(chans, side):
        out = []
        for g in chans:
            pre = "%s %s " % (g["file"], g["chan"])
            ln = lambda w: pre + "%s %s %s%s" % (t(w[0]), t(w[1]), w[2], " " + w[3] if w[3] else "")
            for w in g[side]:
                if w[0] == "alt":
                    out.append(pre + "* * <ALT_BEGIN>")
                    for i, a in enumerate(w[1]):
                        if i:
                            out.append(pre + "* * <ALT>")
                        out += [ln(x) for x in a]
                    out.append(pre + "* * <ALT_END>")
                else:
                    out.append(ln(w))
        return "\n".join(out) + "\n"

    def check(self, case, ctx):
        ch, bad = case["chans"], case["bad"]
        f = lambda w: scl.fold(w, case["cs"])
        W = scl.Words(case["F"], case["D"])
        files = sorted({g["file"] for g in ch})
        rc, hc = ch, ch
        if bad in ("hyp", "ref"):
            less = [g for g in ch if g["file"] != files[-1]]
            if not less:
                bad = None
            elif bad == "hyp":
                hc = less
            else:
                rc = less
        elif bad in ("hypchan", "refchan"):
            if any(g["chan"] == "B" for g in ch):
                at = [i for i, g in enumerate(ch) if g["chan"] == "B"][0]
                less = ch[:at] + ch[at + 1:]
                rc, hc = (ch, less) if bad == "hypchan" else (less, ch)
            else:
                bad = None
        ctx.write("r.ctm", self.ctm(rc, "ref"))
        ctx.write("h.ctm", self.ctm(hc, "hyp"))
        cmd = [ctx.bins["sclite"], "-r", "r.ctm", "ctm", "-h", "h.ctm", "ctm", "-O", ctx.dir, "-o", "sgml", "-f", "0"]
        cmd += ["-" + k for k in "TDF" if case[k]] + (["-s"] if case["cs"] else [])
        if bad:
            r, _, _ = ctx.run(cmd, ok=None)
            if r == 0:
                raise Violation("files that do not cover each other (%s) were accepted (exit 0)" % bad)
            ctx.evals += 1
            ctx.label("refused: " + bad)
            ctx.nontrivial(case)
            return
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("h.ctm.sgml"))[0]
        got = [(sp["id"], sp["paths"]) for sp in sy["speakers"]]
        want = [f("%s-%s" % (g["file"], g["chan"])) for g in ch]
        if [x[0] for x in got] != want:
            raise Violation("scored channels %r, expected %r" % ([x[0] for x in got], want))
        for g, (sid, paths) in zip(ch, got):
            self.channel_check(case, ctx, g, sid, paths, f, W)

    def channel_check(self, case, ctx, g, sid, paths, f, W):
        simple = not any(w[0] == "alt" for w in g["ref"] + g["hyp"])
        ri = hi = 0
        nul = sum(1 for w in g["ref"] + g["hyp"] if w[0] == "alt" and [] in w[1])
        # records on a side, the marks of alternations included
        recs = lambda ws: sum(1 if w[0] != "alt" else len(w[1]) + 1 + sum(map(len, w[1])) for w in ws)
        if not simple and len(paths) != 1 and max(recs(g["ref"]), recs(g["hyp"])) >= 48:
            return
        if not simple and len(paths) != 1:
            raise Violation("%s: a channel of fewer than 50 words was cut into %d pieces" % (sid, len(paths)))
        tag = lambda w: (f(w[2]), "%.3f+%.3f" % (w[0] / U, (w[0] + w[1]) / U)) + (("%.6f" % float(w[3]),) if w[3] else ())
        for k, p in enumerate(paths):
            a = p["attrs"]
            if a["id"] != "(%s-%04d)" % (sid, k) or a["file"] != f(g["file"]) or a["channel"] != f(g["chan"]):
                raise Violation("%s piece %d has id %s file %s channel %s" % (sid, k, a["id"], a["file"], a["channel"]))
            aux = a["word_aux"].split(",")
            ti = {x: j for j, x in enumerate(aux)}
            rw = [(x[1], x[3][ti["r_t1+t2"]]) + ((x[3][ti["r_conf"]],) if "r_conf" in ti else ()) for x in p["toks"] if x[1] is not None]
            hw = [(x[2], x[3][ti["h_t1+t2"]]) + ((x[3][ti["h_conf"]],) if "h_conf" in ti else ()) for x in p["toks"] if x[2] is not None]
            if simple:
                R, H = g["ref"][ri:ri + len(rw)], g["hyp"][hi:hi + len(hw)]
                if rw != [tag(w) for w in R] or hw != [tag(w) for w in H]:
                    raise Violation("%s piece %d: words %r / %r are not the next words of the inputs %r / %r" % (sid, k, rw, hw, R, H))
                ri, hi = ri + len(rw), hi + len(hw)
                if k + 1 < len(paths):
                    ends = [w[0] + w[1] for w in R[-1:] + H[-1:]]
                    nxt = [w[0] for w in g["ref"][ri:ri + 1] + g["hyp"][hi:hi + 1]]
                    if max(ends) > min(nxt):
                        raise Violation("%s: cut between pieces %d and %d inside a word: words end at %r, next begin at %r" % (sid, k, k + 1, ends, nxt))
                    ctx.label("cut at a pause")
            else:
                R, H = g["ref"], g["hyp"]
                for side, words in ((R, rw), (H, hw)):
                    n = TNet.make(side)
                    n.edges = [[(tag(w) if w else None, q) for w, q in es] for es in n.edges]
                    if not n.accepts(words):
                        raise Violation("%s: words %r are not a reading of %r" % (sid, words, side))
            toks = p["toks"]
            if not case["T"]:
                items = lambda xs: [f(w[2]) if w[0] != "alt" else ["alt", [[f(x[2]) for x in q] for q in w[1]]] for w in xs]
                scl.check_alignment(toks, items(R), items(H), W, "%s piece %d" % (sid, k))
            else:
                cost = 0.0
                T = lambda x: [float(y) for y in x.split("+")]
                for ev, r, h, ax in toks:
                    ok = {"C": (r is not None and h is not None and W.equal(r, h)) or (r is None and h is not None and W.is_opt(h)) or (h is None and r is not None and W.is_opt(r)),
                          "S": r is not None and h is not None and not W.equal(r, h),
                          "D": h is None and r is not None and not W.is_opt(r), "I": r is None and h is not None and not W.is_opt(h)}[ev]
                    if not ok:
                        raise Violation("%s piece %d: %r/%r labelled %s" % (sid, k, r, h, ev))
                    tr = T(ax[ti["r_t1+t2"]]) if r is not None else None
                    th = T(ax[ti["h_t1+t2"]]) if h is not None else None
                    if tr and th:
                        cost += abs(tr[0] - th[0]) + abs(tr[1] - th[1]) + (0 if W.equal(r, h) else .001)
                    else:
                        x = tr or th
                        cost += x[1] - x[0]
                best = scl.best_cost(TNet.make(tup(R)), TNet.make(tup(H)), TC(TimeCost(W, f)))
                if cost > best + .001 * nul + 3e-4 or cost < best - 3e-4:
                    raise Violation("%s piece %d: time cost %.4f, minimum %.4f\nREF %r\nHYP %r\nALI %r" % (sid, k, cost, best, R, H, toks))
                ctx.label("time-mediated piece")
            ctx.evals += 1
            if not simple:
                ctx.label("alternation")
            if not simple or any(x[0] != "C" for x in toks):
                ctx.nontrivial((case["T"], rw, hw))
            if len(rw) > 50 or len(hw) > 50:
                ctx.label("piece longer than 50 words")
            if not rw or not hw:
                ctx.label("one side empty")
        if simple and (ri != len(g["ref"]) or hi != len(g["hyp"])):
            raise Violation("%s: %d of %d reference and %d of %d hypothesis words were scored" % (sid, ri, len(g["ref"]), hi, len(g["hyp"])))


SUITES = [CtmCtm()]
