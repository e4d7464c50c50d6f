"""C11: confidence-score analyses (normalised cross entropy, DET curve, histograms)."""
import re, math, struct, statistics
from vf import build as B, scl, reports as R
from vf.engine import Suite, Violation

RULE = ("A case is one to three systems (ctm hypotheses with or without confidences over one stm reference) scored with -o sum sgml -C det bhist hist sbhist, plus the "
        "multi-system DET graph of sc_stats. One evaluation is one report: its numbers are recomputed from the confidences of the input and the correct/incorrect "
        "labels of the alignment. Non-trivial: both correct and incorrect words are present; counted by distinct labelled confidence lists.")
ASSUMPTIONS = ["the normalised cross entropy is checked where it is defined (both correct and incorrect words present)",
               "the inverse normal function of the DET axes is accepted within 1e-3"]
ND = statistics.NormalDist()


def ppndf(p):
    return ND.inv_cdf(min(max(p, 2.2204e-16), 1 - 2.2204e-16))


def nce(items):
    n = sum(1 for ok, _ in items if ok)
    N = len(items)
    if n == 0 or n == N:
        return None
    p = n / N
    H = -(n * math.log2(p) + (N - n) * math.log2(1 - p))
    t = 0
    for ok, c in items:
        c = min(max(c, 1e-7), 1 - 1e-7)
        t += math.log2(c if ok else 1 - c)
    return (H + t) / H


def det_ok(text, items, what):
    """the points walk the empirical miss / false-alarm trade-off, one word at a time"""
    T = sorted(c for ok, c in items if ok)
    F = sorted(c for ok, c in items if not ok)
    pts = [tuple(float(x) for x in l.split()) for l in text.split("\n") if l]
    if len(pts) != len(items) - 1:
        raise Violation("%s: %d points for %d words" % (what, len(pts), len(items)))
    t = f = 1
    for k, (a, b) in enumerate(pts):
        if k == 0:
            e = (ppndf(.0005), ppndf(.5))
        else:
            tv = T[t] if t < len(T) else 9e99
            fv = F[f] if f < len(F) else 9e99
            if t < len(T) and tv <= fv:
                t += 1
            else:
                f += 1
            e = (ppndf((t - 1) / len(T)), ppndf((len(F) - (f - 1)) / len(F)))
        # near 0 and 1 the printed deviate has its own clamp
        if abs(a - e[0]) > 2e-3 + (.2 if abs(e[0]) > 7 else 0) or abs(b - e[1]) > 2e-3 + (.2 if abs(e[1]) > 7 else 0):
            raise Violation("%s: point %d is (%f, %f), expected (%f, %f)" % (what, k, a, b, e[0], e[1]))


def bins_ok(text, items, what):
    """100 equal bins, two lines each: edges, all, correct, incorrect"""
    lines = [[float(x) for x in l.split()] for l in text.split("\n") if l]
    if len(lines) != 200:
        raise Violation("%s: %d lines" % (what, len(lines)))
    cnt = [[0, 0] for _ in range(100)]
    for ok, c in items:
        if 0 <= c <= 1:
            cnt[min(int(c * 100), 99)][0 if ok else 1] += 1
    for b in range(100):
        for e in (0, 1):
            exp = [(b + e) / 100, sum(cnt[b]), cnt[b][0], cnt[b][1]]
            if any(abs(x - y) > 1e-5 for x, y in zip(lines[2 * b + e], exp)):
                raise Violation("%s: bin %d: %r, expected %r" % (what, b, lines[2 * b + e], exp))


def bhist_ok(text, items, what):
    lines = [[float(x) for x in l.split()] for l in text.split("\n") if l]
    cnt = [[0, 0] for _ in range(10)]
    for ok, c in items:
        if 0 <= c <= 1:
            cnt[min(int(c * 10), 9)][0 if ok else 1] += 1
    if len(lines) != 10:
        raise Violation("%s: %d lines" % (what, len(lines)))
    for b in range(10):
        exp = [b * .1 + .05, 100 * cnt[b][0] / sum(cnt[b]) if sum(cnt[b]) else 0, 1, 1, .1]
        if any(abs(x - y) > 1e-4 for x, y in zip(lines[b], exp)):
            raise Violation("%s: bin %d: %r, expected %r" % (what, b, lines[b], exp))


def sbhist_ok(text, items, what):
    """20 bins of equally many words in order of confidence, the last with the remainder"""
    lines = [[float(x) for x in l.split()] for l in text.split("\n") if l]
    N = len(items)
    q = N // 20
    exp = []
    if q:
        s = sorted(items, key=lambda x: x[1])
        cuts = []
        l, b = 0, q
        while l < b and l < N:
            cuts.append((l, b))
            l, b = b, b + q
            if b + q > N:
                b = N
        for l, b in cuts:
            lo, hi = s[l][1], s[b - 1][1]
            inner = [x for x in s[l:b] if lo < x[1] < hi]
            fixed = sum(ok for ok, _ in inner)
            mn = mx = fixed
            for v in {lo, hi}:
                k = sum(1 for x in s[l:b] if x[1] == v)
                pool = [x for x in s if x[1] == v]
                good = sum(ok for ok, _ in pool)
                mn += max(0, k - (len(pool) - good))
                mx += min(k, good)
            exp.append(((lo + hi) / 2, mn * 100 / (b - l), mx * 100 / (b - l), hi - lo))
    if len(lines) != len(exp):
        raise Violation("%s: %d bins, expected %d" % (what, len(lines), len(exp)))
    for g, e in zip(lines, exp):
        if abs(g[0] - e[0]) > 1e-5 or not e[1] - 1e-4 <= g[1] <= e[2] + 1e-4 or abs(g[4] - e[3]) > 1e-5:
            raise Violation("%s: bin %r, expected %r" % (what, g, e))


def plot_ok(ctx, root, kind, titles=None):
    """the plot's commands name the data files of this analysis, for DET curves under the right system"""
    t = ctx.read("%s.%s.plt" % (root, kind))
    if kind == "det":
        got = [(a.split("/")[-1], b) for a, b in re.findall(r"'([^']+)' using 2:1 title \"([^\"]*)\"", t) if ".det.dat" in a]
        want = ["%s.det.dat.%02d" % (root, k) for k in range(len(titles))]
        if [a for a, _ in got] != want or any(x not in b for (_, b), x in zip(got, titles)):
            raise Violation("%s.det.plt draws %r, the systems are %r" % (root, got, titles))
    else:
        got = [x.split("/")[-1] for x in re.findall(r"'([^']*\.dat\d*)'", t)]
        if set(got) != {"%s.%s.dat%s" % (root, kind, "1" * (kind == "bhist"))}:
            raise Violation("%s.%s.plt draws %r" % (root, kind, got))
    ctx.evals += 1


class Conf(Suite):
    name, quick, thorough = "confidence", 6000, 60000

    def gen(self, s):
        o = {}
        nseg = s.int(1, 8)
        mean = s.choice([3, 6, 12])
        refs = [[s.choice(["a", "b", "c", "d"]) for _ in range(s.size(0, 40, mean))] for _ in range(nseg)]
        spk = [s.int(0, 2) for _ in refs]
        grid = s.choice([10, 20, 100, 1000])
        edge = s.bool(.3)

        def conf():
            if edge and s.bool(.2):
                return s.choice([0.0, 1.0, .5, .25, .75, .9999, .0001])
            # off the bin edges, which confidences held as floats only meet exactly at dyadic values
            return round(min(s.int(0, grid) / grid + .0003, .9997), 4)
        systems = []
        for k in range(s.weighted((3, 1), (3, 2), (1, 3))):
            systems.append({"conf": not s.bool(.1),
                            "hyp": [[[w, conf()] for w in scl.corrupt(s, r, o, s.choice([.1, .4])) ] for r in refs]})
        return {"refs": refs, "spk": spk, "sys": systems, "f": s.choice(["0", "1"])}

    def check(self, case, ctx):
        refs = case["refs"]
        ctx.write("r", "".join("f 1 s%d %d %d %s\n" % (case["spk"][i], i * 100, i * 100 + 100, " ".join(r)) for i, r in enumerate(refs)))
        sg, allitems, shown = "", [], []
        for k, sy in enumerate(case["sys"]):
            t, cf = "", {}
            for i, h in enumerate(sy["hyp"]):
                for j, (w, c) in enumerate(h):
                    t1 = i * 100 + 1 + j * .5
                    t += "f 1 %.2f 0.30 %s%s\n" % (t1, w, " %.4f" % c if sy["conf"] else "")
                    cf[round(t1 * 100)] = c
            if not t:
                continue
            ctx.write("h%d" % k, t)
            _, out, err = ctx.run([ctx.bins["sclite"], "-O", ctx.dir, "-f", case["f"], "-r", "r", "stm", "-h", "h%d" % k, "ctm", "-o", "sum", "sgml",
                                   "-C", "det", "bhist", "hist", "sbhist"])
            text = ctx.read("h%d.sgml" % k)
            S = scl.parse_sgml(text)[0]
            n = "h%d" % k
            import os
            made = sorted(f[len(n) + 1:] for f in os.listdir(ctx.dir) if f.startswith(n + ".") and not f.endswith((".sgml", ".sys")))
            if not sy["conf"]:
                if made:
                    raise Violation("no confidences were given, yet confidence analyses were written: %r" % made)
                if any("NCE" in c for r in R.table(ctx.read(n + ".sys")) for c in r):
                    raise Violation("no confidences were given, yet NCE is reported")
                ctx.label("no confidences")
                continue
            items, per = [], {}
            for sp in S["speakers"]:
                for p in sp["paths"]:
                    col = p["attrs"]["word_aux"].split(",").index("h_t1+t2")
                    for tk in p["toks"]:
                        if tk[2] is not None:
                            it = (tk[0] == "C", cf[round(float(tk[3][col].split("+")[0]) * 100)])
                            items.append(it)
                            per.setdefault(sp["id"], []).append(it)
            if len(items) != len(cf):
                raise Violation("%d of %d words scored" % (len(items), len(cf)))
            # NCE in the summary
            rows = R.table(ctx.read(n + ".sys"))
            if not any("NCE" in c for r in rows for c in r):
                raise Violation("confidences given, but no NCE column")
            body = {r[0]: r for r in rows[2:]}
            nref = {}
            for i, r in enumerate(refs):
                nref["s%d" % case["spk"][i]] = nref.get("s%d" % case["spk"][i], 0) + len(r)
            for name, its in list(per.items()) + [("Sum/Avg", items)]:
                e = nce(its)
                if e is None or (name != "Sum/Avg" and not nref[name]):
                    continue
                g = float(body[name][-1].split()[-1])
                e2 = nce([(ok, struct.unpack('f', struct.pack('f', c))[0]) for ok, c in its])   # confidences are held as floats
                if not min(e, e2) - .00052 <= g <= max(e, e2) + .00052:
                    raise Violation("NCE of %s is %.3f, expected %.4f" % (name, g, e))
                ctx.evals += 1
                ctx.label("NCE compared")
            bins_ok(ctx.read(n + ".hist.dat"), items, "hist")
            bhist_ok(ctx.read(n + ".bhist.dat1"), items, "bhist")
            sbhist_ok(ctx.read(n + ".sbhist.dat"), items, "sbhist")
            for q in ("hist", "bhist", "sbhist"):
                plot_ok(ctx, n, q)
            ctx.evals += 3
            if len(items) >= 20:
                ctx.label("scaled bins populated")
            if nce(items) is not None:
                det_ok(ctx.read(n + ".det.dat.00"), items, "DET")
                plot_ok(ctx, n, "det", [n])
                shown.append(n)
                ctx.evals += 1
                ctx.nontrivial(sorted(items))
                sg += text
                allitems.append(items)
        if len(allitems) > 1:
            ctx.run([ctx.bins["sc_stats"], "-p", "-O", ctx.dir, "-n", "E", "-g", "det"], stdin=sg)
            plot_ok(ctx, "E", "det", shown)
            for k, items in enumerate(allitems):
                det_ok(ctx.read("E.det.dat.%02d" % k), items, "multi-system DET, system %d" % k)
                ctx.evals += 1
            ctx.label("multi-system DET")


def build():
    d = B.sclite()
    return {"sclite": d + "/sclite", "sc_stats": d + "/sc_stats"}


SUITES = [Conf()]
