"""C13: significance tests of sc_stats (matched pairs, sign, Wilcoxon, McNemar, analysis of variance by ranks)."""
import math, re, statistics
from fractions import Fraction as Fr
from vf import build as B, reports as R
from vf.engine import Suite, Violation

RULE = ("A case is two to four generated systems (alignments over common utterances of 1 to 40 speakers) given to sc_stats -p, either -u (unified matrix and the .sts "
        "files) or separate detailed reports. One evaluation is one test on one pair of systems: significance level, verdict and winner are recomputed. Non-trivial: the "
        "statistic is defined (some difference); counted by distinct (test, statistic, sizes).")
ASSUMPTIONS = ["normal probabilities come from a 0.01 table that rounds z down, as documented; binomial sums over more than 20 trials are accepted within 0.02 of the exact value",
               "all systems use the same reference reading (no alternations) in the matched-pairs segmentation",
               "verdicts are compared where the statistic is not within rounding of the critical value"]
ND = statistics.NormalDist()
CHI = {1: 3.84, 2: 5.99, 3: 7.82}


def phi(z):
    return ND.cdf(z)


def zrange(z):
    """significance levels acceptable for a two-tailed z"""
    z = abs(z)
    lo = 2 * (1 - phi(min(z, 12))) if z < 5.99 else 0
    hi = 2 * (1 - phi(max(0, min(z, 6.0) - .0101)))
    return lo - .00061, hi + .00061


def binom(k, n):
    return float(2 * sum(Fr(math.comb(n, i)) for i in range(k + 1)) / Fr(2) ** n)


class Res:
    """what a test must report: level range, verdict (None = not decided), statistic"""

    def __init__(self, plo, phi_, win, key=None):
        self.lo, self.hi, self.win, self.key = plo, phi_, win, key


def count_test(a, b):
    """two-tailed binomial; the winner is -1 for the system with count a being *fewer* errors"""
    if a == b:
        return Res(.9994, 1.0006, 0)
    p = binom(min(a, b), a + b)
    t = .0006 if a + b <= 20 else .02
    win = (-1 if a < b else 1)
    if p < .05 - t:
        w = win
    elif p > .05 + t:
        w = 0
    else:
        w = None
    return Res(p - t, p + t, w, (a, b))


def ev(path):
    return [p[0] for p in path]


def segments(p1, p2):
    """error regions separated by at least two words both systems have right"""
    def split(p):
        gaps, words = [0], []
        for e in p:
            if e == "I":
                gaps[-1] += 1
            else:
                words.append(int(e != "C"))
                gaps.append(0)
        return gaps, words
    g1, w1 = split(p1)
    g2, w2 = split(p2)
    n = len(w1)
    segs, cur, good = [], None, 0
    for k in range(n + 1):
        if g1[k] or g2[k]:
            if cur is None:
                cur = [0, 0]
            cur[0] += g1[k]
            cur[1] += g2[k]
            good = 0
        if k == n:
            break
        if w1[k] or w2[k]:
            if cur is None:
                cur = [0, 0]
            cur[0] += w1[k]
            cur[1] += w2[k]
            good = 0
        else:
            good += 1
            if good == 2 and cur is not None:
                segs.append(cur)
                cur = None
    if cur is not None:
        segs.append(cur)
    return segs


def pairs(s1, s2):
    d2 = {(sp["id"], u["id"]): u["path"] for sp in s2 for u in sp["utts"]}
    for sp in s1:
        for u in sp["utts"]:
            if (sp["id"], u["id"]) in d2:
                yield ev(u["path"]), ev(d2[sp["id"], u["id"]])


def mapsswe(s1, s2):
    d = []
    tot = [0, 0]
    for a, b in pairs(s1, s2):
        for x, y in segments(a, b):
            d.append(x - y)
            tot[0] += x
            tot[1] += y
    info = dict(nseg=len(d), err=tot)
    if not d:
        info.update(z=0, mean=0, sd=0)
        return Res(.9994, 1.0006, 0), info
    m = sum(d) / len(d)
    ss = sum((x - m) ** 2 for x in d)
    if ss < 1e-12:
        info.update(z=0, mean=m, sd=0)
        return Res(.9994, 1.0006, 0), info
    sd = math.sqrt(ss / (len(d) - 1))
    z = m / (sd / math.sqrt(len(d)))
    info.update(z=z, mean=m, sd=sd)
    w = None if abs(abs(z) - 1.96) < 1e-6 else 0 if abs(z) < 1.96 else (-1 if m < 0 else 1)
    return Res(*zrange(z), w, ("mp", tuple(d))), info


def mcnemar(s1, s2):
    b = c = both = none = 0
    for x, y in pairs(s1, s2):
        e1, e2 = any(e != "C" for e in x), any(e != "C" for e in y)
        b += e1 and not e2
        c += e2 and not e1
        both += e1 and e2
        none += not e1 and not e2
    r = count_test(b, c)
    return r, (none, c, b, both)


def rates(sys, formula):
    """per-speaker percentages as exact fractions"""
    out = {}
    for sp in sys:
        e = [x for u in sp["utts"] for x in ev(u["path"])]
        c, s, d, i = (e.count(x) for x in "CSDI")
        n = c + s + d
        E = Fr(100 * (s + d + i), n) if n else Fr(0)
        out[sp["id"]] = {"E": E, "W": 100 - E, "R": Fr(100 * c, n) if n else Fr(0)}[formula]
    return out


def blocks(case, formula):
    rs = [rates(s, formula) for s in case["sys"]]
    names = [sp["id"] for sp in case["sys"][0] if all(sp["id"] in r for r in rs)]
    return names, [[r[n] for n in names] for r in rs]


def tied(p1, p2):
    return abs(sum(p1) - sum(p2)) < Fr(1, 10 ** 9)


def union(fn, p1, p2, *a):
    """where the two systems tie on the sum of percentages, either may be listed first"""
    rs = [fn(p1, p2, *a, o) for o in ((sum(p1) > sum(p2),) if not tied(p1, p2) else (True, False))]
    r = Res(min(x[0].lo for x in rs), max(x[0].hi for x in rs), rs[0][0].win if len({x[0].win for x in rs}) == 1 else None, rs[0][0].key)
    return r, rs[0][1]


def sign(p1, p2, formula):
    return union(sign1, p1, p2, formula)


def wilcoxon(p1, p2, formula, exact):
    return union(wilcoxon1, p1, p2, formula, exact)


def sign1(p1, p2, formula, first_is_1):
    """p1, p2: percentages of the two systems. The system with the larger sum is listed first, which decides who gets the odd zero."""
    a = sum(x > y for x, y in zip(p1, p2))
    b = sum(x < y for x, y in zip(p1, p2))
    z = len(p1) - a - b
    np, nm = (a, b) if first_is_1 else (b, a)
    raw = (np, nm, z)
    nm += z // 2 + z % 2
    np += z // 2
    A, Bn = (np, nm) if first_is_1 else (nm, np)      # where system 1 / system 2 is higher
    r = count_test(A, Bn)
    if formula != "E" and r.win:
        r.win = -r.win
    return r, raw


def ranks(v, key=lambda x: x):
    order = sorted(range(len(v)), key=lambda i: v[i])
    out = [0.0] * len(v)
    i = 0
    while i < len(v):
        j = i
        while j + 1 < len(v) and v[order[j + 1]] == v[order[i]]:
            j += 1
        for k in range(i, j + 1):
            out[order[k]] = (i + j) / 2 + 1
        i = j + 1
    return out


def wilcoxon1(p1, p2, formula, exact, first_is_1):
    n = len(p1)
    d = [(x - y) if first_is_1 else (y - x) for x, y in zip(p1, p2)]
    ab = [abs(x) for x in d]
    rk = ranks(ab)
    plus = minus = 0.0
    np = nm = 0
    alt = 0
    slack = 0.0
    groups = {}
    for i, (x, r) in enumerate(zip(d, rk)):
        up = x > 0
        if x == 0:
            up = alt % 2 == 0
            alt += 1
        else:
            groups.setdefault(ab[i], []).append(up)
        if up:
            plus += r
            np += 1
        else:
            minus += r
            nm += 1
    if not exact:
        # differences equal in theory may be told apart by rounding
        for g in groups.values():
            k, m = sum(g), len(g)
            slack += k * (m - k) / 2.0
    var = n * (n + 1) * (2 * n + 1) / 24.0
    E = n * (n + 1) / 4.0
    zs = [(min(plus, minus) + s - E) / math.sqrt(var) for s in (-slack, slack)]
    lo = min(zrange(z)[0] for z in zs)
    hi = max(zrange(z)[1] for z in zs)
    if zs[0] * zs[1] < 0:
        hi = 1.0006
    sig = {abs(z) > 1.96 for z in zs}
    near = any(abs(abs(z) - 1.96) < 1e-6 for z in zs)
    # system 1 higher on the rank sum?
    hi1 = (plus > minus) == first_is_1
    if near or len(sig) > 1:
        w = None
    elif sig == {False}:
        w = 0
    else:
        w = (1 if hi1 else -1) * (1 if formula == "E" else -1)
    return Res(lo, hi, w, ("wi", n, plus, minus)), (np, nm, plus, minus, zs, slack)


def anovar(pc, formula):
    """pc[system][block]; returns matrix of Res"""
    t, b = len(pc), len(pc[0])
    Rs = [0.0] * t
    ties = 0
    for k in range(b):
        v = [pc[j][k] if formula == "E" else -pc[j][k] for j in range(t)]
        for j, r in enumerate(ranks(v)):
            Rs[j] += r
        for x in set(v):
            m = v.count(x)
            ties += m ** 3 - m
    X = 12.0 / (b * t * (t + 1)) * sum(r * r for r in Rs) - 3.0 * b * (t + 1)
    adj = 1.0 - ties / float(b * t * (t * t - 1))
    X = 0.0 if abs(adj) < 1e-12 else X / adj
    sig = None if abs(X - CHI[t - 1]) < .02 else X > CHI[t - 1]
    out = {}
    for i in range(t):
        for j in range(i + 1, t):
            z = abs(Rs[i] - Rs[j]) / math.sqrt(b * t * (t + 1) / 6.0)
            zt = ND.inv_cdf(1 - .05 / (t * (t - 1)))
            ztab = 1.881 if t == 2 else 2.33
            d = -1 if Rs[i] < Rs[j] else 1
            if sig is False or z < min(zt, ztab) - .01:
                w = 0
            elif sig and z > max(zt, ztab) + .01:
                w = d
            else:
                w = None
            lo, hi = (x * t * (t - 1) / 2.0 for x in zrange(z))
            if sig is not True:
                hi = 1.0006
            if sig is False:
                lo = .9994
            out[i, j] = Res(min(lo, .9994), min(1.0006, hi), w, ("an", tuple(Rs)))
    return out


def sgml(case):
    o, seq = [], 0
    for name, sysm in zip(case["names"], case["sys"]):
        o.append('<SYSTEM title="%s" ref_fname="r" hyp_fname="h" creation_date="x" format="2.4" frag_corr="FALSE" opt_del="FALSE" weight_ali="FALSE" weight_filename="">' % name)
        for sp in sysm:
            o.append('<SPEAKER id="%s">' % sp["id"])
            for u in sp["utts"]:
                o.append('<PATH id="(%s)" word_cnt="%d" sequence="%d">' % (u["id"], len(u["path"]), seq))
                seq += 1
                o.append(":".join('%s,%s,%s' % (e, '"%s"' % r if r else "", '"%s"' % h if h else "") for e, r, h in u["path"]))
                o.append("</PATH>")
            o.append("</SPEAKER>")
        o.append("</SYSTEM>")
    return "\n".join(o) + "\n"


def gen_systems(s, lo=2, hi=4):
    nsys = s.int(lo, hi)
    nspk = s.weighted((3, 1), (4, 3), (4, 8), (3, 16), (2, 40))
    nspk = s.int(max(1, nspk // 2), nspk)
    skew = s.bool(.12)       # one system slightly better for some speakers, much worse for the others
    if skew:
        nspk = s.int(20, 40)
    frac = s.choice([.3, .45, .55, .7])
    exact = s.bool()
    words = ["a", "b", "cd", "efg", "hij-k"]
    names = s.shuffle(["A", "Bsys", "sysC", "delta4", "a-longer-system-name"])[:nsys]
    ids = ["s%d" % i for i in range(nspk)]
    ref = {}
    for i in ids:
        utts = []
        nw = 16 if skew else s.choice([1, 2, 4, 8, 16]) if exact else s.int(0, 16)
        nu = s.int(1, 4)
        cuts = sorted(s.draw(nw) for _ in range(nu - 1))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [nw])]
        for k, n in enumerate(parts):
            utts.append(("%s-%d" % (i, k), [s.choice(words) for _ in range(n)]))
        ref[i] = utts
    # some speakers/words are hard for everybody
    sysm = []
    for k in range(nsys):
        p = s.choice([.05, .1, .2, .3, .5, .8])
        flat = s.bool(.5)
        sp = []
        for i in ids:
            q = p if flat else s.choice([.02, .1, .3, .6])
            if skew:
                q = .35 if k == 0 else .25 if s.bool(frac) else .95
            utts = []
            for uid, ws in ref[i]:
                path = []
                for w in ws + [None]:
                    while s.bool(q / 5):
                        path.append(["I", "", s.choice(words)])
                    if w is None:
                        break
                    if s.bool(q):
                        path.append(["S", w, "zz"] if s.bool() else ["D", w, ""])
                    else:
                        path.append(["C", w, w])
                utts.append({"id": uid, "path": path})
            sp.append({"id": i, "utts": utts})
        if k and s.bool(.15):
            sp = s.shuffle(sp)
        if k and s.bool(.05) and len(sp) > 2:
            sp = [x for x in sp if x["id"] == "s0" or not s.bool(.1)]
        if k and s.bool(.1):
            for x in sp:
                x["utts"] = s.shuffle(x["utts"])
        sysm.append(sp)
    return {"names": names, "sys": sysm, "exact": exact, "formula": s.weighted((3, "E"), (1, "R"), (1, "W"))}


def expected(case):
    names, pc = blocks(case, case["formula"])
    n = len(case["sys"])
    exp = {}
    an = anovar(pc, case["formula"]) if n >= 2 else {}
    for i in range(n):
        for j in range(i + 1, n):
            a, b = case["sys"][i], case["sys"][j]
            exp["MP", i, j] = mapsswe(a, b)[0]
            exp["MN", i, j] = mcnemar(a, b)[0]
            exp["SI", i, j] = sign(pc[i], pc[j], case["formula"])[0]
            exp["WI", i, j] = wilcoxon(pc[i], pc[j], case["formula"], case["exact"])[0]
            exp["AN", i, j] = an[i, j]
    return exp


def verdict(names, i, j, win):
    return {0: "same", -1: names[i], 1: names[j]}[win]


TESTS = {"MP": "mapsswe", "SI": "sign", "WI": "wilc", "MN": "mcn", "AN": "anovar"}


class Unified(Suite):
    name, quick, thorough = "unified", 8000, 80000

    def gen(self, s):
        c = gen_systems(s)
        if s.bool(.3):
            c["tests"] = s.shuffle(s.subset(["mcn", "mapsswe", "sign", "wilc", "anovar"], 1))
        c["v"] = s.bool(.1)
        return c

    def check(self, case, ctx):
        ctx.run([ctx.bins["sc_stats"], "-p", "-t"] + (case.get("tests") or ["std4", "anovar"]) + ["-u", "-f", case["formula"], "-n", "ens", "-O", ctx.dir, "-e", "test"] + ["-v"] * bool(case.get("v")),
                    stdin=sgml(case))
        names, n = case["names"], len(case["names"])
        exp = expected(case)
        if case.get("tests"):
            exp = {k: e for k, e in exp.items() if TESTS[k[0]] in case["tests"]}
        rows = R.table(ctx.read("ens.stats.unified"))
        got = {}
        cur = None
        for cells in rows:
            if cells[0] in ("MP", "SI", "WI", "MN", "AN") and cells[-1] == cells[0] and len(cells) == n + 5:
                if cells[2]:
                    cur = names.index(cells[2])
                for j in range(n):
                    t = cells[3 + j].split()
                    if j <= cur:
                        if t:
                            raise Violation("unified matrix: value below the diagonal")
                        continue
                    got[cells[0], cur, j] = t
        if set(got) != set(exp):
            raise Violation("unified matrix has %d entries, expected %d: missing %s" % (len(got), len(exp), sorted(set(exp) - set(got))[:3]))
        for k, e in exp.items():
            t = got[k]
            ctx.evals += 1
            what = "%s test of %s and %s" % (k[0], names[k[1]], names[k[2]])
            p = 0.0 if t[1] == "<0.001" else float(t[1])
            if not (e.lo <= p <= e.hi) and not (p == 0.0 and e.lo < .0011):
                raise Violation("%s: significance level %s, expected %.4f..%.4f" % (what, t[1], e.lo, e.hi))
            w = {"~": 0, names[k[1]]: -1, names[k[2]]: 1}.get(t[0])
            if e.win is not None and w != e.win:
                raise Violation("%s: verdict %r, expected %r (level %s)" % (what, t[0], verdict(names, k[1], k[2], e.win), t[1]))
            stars = t[2] if len(t) > 2 else ""
            if stars not in {"***" if p < .0005 else None, "***" if p <= .001 else None, "**" if .0005 <= p <= .0105 else None,
                             "*" if .0095 <= p <= .0505 else None, "" if p > .0495 else None}:
                raise Violation("%s: level %s marked %r" % (what, t[1], stars))
            if e.key:
                ctx.nontrivial((k[0], e.key, len(case["sys"][0])))
            ctx.label("%s %s" % (k[0], {None: "undecided", 0: "same"}.get(e.win, "different")))
        self.sts(case, ctx, got)

    def sts(self, case, ctx, got):
        names, n = case["names"], len(case["names"])
        order = [t for t in ("MP", "SI", "WI", "MN", "AN") if TESTS[t] in case.get("tests", TESTS.values())]
        for i in range(n):
            lines = ctx.read(names[i] + ".sts").split("\n")
            for j in range(n):
                if j == i:
                    continue
                ln = [l.split() for l in lines if l.split()[:1] == [names[j]] and len(l.split()) == 1 + len(order)]
                if len(ln) != 1:
                    raise Violation("%s.sts: no row for %s" % (names[i], names[j]))
                exp = [got[t, min(i, j), max(i, j)][0].replace("~", "same") for t in order]
                if ln[0][1:] != exp:
                    raise Violation("%s.sts row %s: %s, unified matrix says %s" % (names[i], names[j], ln[0][1:], exp))


class Detail(Suite):
    name, quick, thorough = "detail", 6000, 60000

    def gen(self, s):
        return gen_systems(s, 2, 3)

    def check(self, case, ctx):
        ctx.run([ctx.bins["sc_stats"], "-p", "-t", "std4", "-v", "-f", case["formula"], "-n", "ens", "-O", ctx.dir, "-e", "test"],
                    stdin=sgml(case))
        names, n, fm = case["names"], len(case["names"]), case["formula"]
        exp = expected(case)
        blk, pc = blocks(case, fm)
        prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        txt = {t: ctx.read("ens.stats." + f) for t, f in (("MP", "mapsswe"), ("SI", "sign"), ("WI", "wilc"), ("MN", "mcn"))}
        for t in txt:
            self.matrix(t, txt[t], names, exp, ctx)
        # matched pairs
        m = re.findall(r"MTCH_PR_RESULTS \(systems: (\S+) (\S+)\) \(# segs: (\d+)\) \(Seg per Sent: *(\S+)\) \(% Error: *(\S+) +(\S+)\) \(mean: *(\S+)\) "
                       r"\(std dev: *(\S+)\) \(Z Stat: *(\S+)\) \(Stat Diff: (\w+)\)", txt["MP"])
        tot = re.findall(r"^Totals +(\d+) +(\d+) +(\d+)", txt["MP"], re.M)
        if len(m) != len(prs) or len(tot) != len(prs):
            raise Violation("mapsswe report: %d result lines" % len(m))
        for (i, j), g, tt in zip(prs, m, tot):
            ctx.evals += 1
            res, info = mapsswe(case["sys"][i], case["sys"][j])
            what = "mapsswe of %s and %s" % (names[i], names[j])
            if (g[0], g[1]) != (names[i], names[j]) or int(g[2]) != info["nseg"]:
                raise Violation("%s: %s segments, expected %d" % (what, g[2], info["nseg"]))
            if [int(tt[1]), int(tt[2])] != info["err"]:
                raise Violation("%s: errors %s, expected %s" % (what, tt[1:], info["err"]))
            for x, k in ((g[6], "mean"), (g[7], "sd"), (g[8], "z")):
                if abs(float(x) - info[k]) > .00051:
                    raise Violation("%s: %s is %s, expected %.4f" % (what, k, x, info[k]))
        # sign
        cnt = [int(b) for a, b in re.findall(r"Differences = N\(([+\-0])\) = *(\d+)", txt["SI"])]
        if len(cnt) != 3 * len(prs):
            raise Violation("sign report: counts missing")
        for k, (i, j) in enumerate(prs):
            ctx.evals += 1
            e = sign(pc[i], pc[j], fm)[1]
            g = tuple(cnt[3 * k:3 * k + 3])
            if g != e and not (tied(pc[i], pc[j]) and g == (e[1], e[0], e[2])):
                raise Violation("sign test of %s and %s: N(+), N(-), N(0) = %s, expected %s" % (names[i], names[j], g, e))
        # speaker rates of the sign table
        self.rate_rows(case, txt["SI"], names, blk, pc, prs)
        # wilcoxon
        rk = re.findall(r"Sum of +(\d+) (?:positive|negative) ranks = *([\d.]+)", txt["WI"])
        zs = [float(x) for x in re.findall(r"The Z statistic = *(\S+), therefore", txt["WI"])]
        for k, (i, j) in enumerate(prs):
            ctx.evals += 1
            np, nm, P, M, z, slack = wilcoxon(pc[i], pc[j], fm, case["exact"])[1]
            if tied(pc[i], pc[j]):
                continue
            g = [(int(a), float(b)) for a, b in rk[2 * k:2 * k + 2]]
            if g[0][0] != np or g[1][0] != nm or abs(g[0][1] - P) > slack + .051 or abs(g[1][1] - M) > slack + .051:
                raise Violation("wilcoxon of %s and %s: signed rank sums %s, expected %d: %.1f, %d: %.1f" % (names[i], names[j], g, np, P, nm, M))
            if not (min(z) - .006 <= -abs(zs[k]) <= max(z) + .006 or min(z) - .006 <= abs(zs[k]) <= max(z) + .006):
                raise Violation("wilcoxon of %s and %s: Z = %.2f, expected %.3f" % (names[i], names[j], zs[k], z[0]))
        # McNemar
        tb = re.findall(r"corr     incorr\n.* corr +(\d+) +(\d+)\n.*incorr +(\d+) +(\d+)", txt["MN"])
        if len(tb) != len(prs):
            raise Violation("mcnemar report: %d tables" % len(tb))
        for k, (i, j) in enumerate(prs):
            ctx.evals += 1
            e = mcnemar(case["sys"][i], case["sys"][j])[1]
            if tuple(int(x) for x in tb[k]) != e:
                raise Violation("mcnemar of %s and %s: table %s, expected %s" % (names[i], names[j], tb[k], e))

    def rate_rows(self, case, text, names, blk, pc, prs):
        parts = text.split("Sign Test Calculations Table Comparing")[1:]
        for (i, j), t in zip(prs, parts):
            first = (i, j) if sum(pc[i]) > sum(pc[j]) else (j, i)
            if tied(pc[i], pc[j]):
                continue
            for k, b in enumerate(blk):
                g = re.search(r"^ *%s +(\S+) +(\S+) +([+\-0]) *$" % re.escape(b), t, re.M)
                if not g:
                    raise Violation("sign table of %s and %s has no row for speaker %s" % (names[i], names[j], b))
                for x, q in zip(g.groups(), first):
                    if abs(float(x) - float(pc[q][k])) > .0051:
                        raise Violation("sign table: speaker %s of %s has %s, expected %.3f" % (b, names[q], x, float(pc[q][k])))

    def matrix(self, t, text, names, exp, ctx):
        if t == "MN":
            rows = [r for r in R.table(text)]
            for i, nm in enumerate(names):
                k = [x for x, r in enumerate(rows) if r[0] == nm and len(r) == len(names) + 1]
                if not k:
                    raise Violation("mcnemar matrix: no row for %s" % nm)
                top, bot = rows[k[-1]], rows[k[-1] + 1]
                for j in range(i + 1, len(names)):
                    e = exp[t, i, j]
                    p = float(top[1 + j].replace("Conf=(", "").rstrip(")"))
                    if not (e.lo <= p <= max(e.hi, .00101)):
                        raise Violation("mcnemar of %s and %s: level %s, expected %.4f..%.4f" % (nm, names[j], p, e.lo, e.hi))
                    self.verdict(t, names, i, j, bot[1 + j], e)
            return
        rows = R.table(text)
        for i, nm in enumerate(names):
            rr = [r for r in rows if r[0] == nm and len(r) == len(names) + 1]
            if not rr:
                raise Violation("%s matrix: no row for %s" % (t, nm))
            for j in range(i + 1, len(names)):
                self.verdict(t, names, i, j, rr[-1][1 + j].split()[0], exp[t, i, j])

    def verdict(self, t, names, i, j, got, e):
        if e.win is not None and got != verdict(names, i, j, e.win):
            raise Violation("%s matrix, %s and %s: %r, expected %r (level %.3f..%.3f)" % (t, names[i], names[j], got, verdict(names, i, j, e.win), e.lo, e.hi))


def build():
    return {"sc_stats": B.sclite() + "/sc_stats"}


SUITES = [Unified(), Detail()]
