"""C14: the multi-system reports of sc_stats (per-speaker, executive, range and graph data, parallel alignments)."""
import re
from vf import build as B, reports as R
from vf.engine import Suite, Violation
from checks.c13 import gen_systems, sgml, rates, ev, blocks

RULE = ("A case is one to forty generated systems (alignments over common utterances of 1 to 40 speakers, speakers and utterances possibly in another order or missing in a "
        "system) given to sc_stats -p with the sum, rsum, es, res and prn reports or the range, grange and grange2 graphs. One evaluation is one report or graph file recomputed "
        "from the alignments. Non-trivial: the systems differ in some count; counted by distinct (report, counts).")
ASSUMPTIONS = ["the order of rows is not judged, only what each named row holds",
               "references are compared as printed; where systems disagree on a reference the parallel listing falls back to single alignments, as its message says",
               "the accuracy of no reference words at all is not judged"]


def fail(what, *a):
    raise Violation(what % a if a else what)


def tot(sp):
    t = R.Tot()
    for u in sp["utts"]:
        e = ev(u["path"])
        t.add(*(e.count(x) for x in "CSDI"))
    return t


def chk(what, got, exp, tol):
    try:
        g = float(got)
    except ValueError:
        fail("%s: %r where %.4f is expected", what, got, exp)
    if abs(g - exp) > tol:
        fail("%s: %r, expected %.4f", what, got, exp)


def words(s):
    w = ["a", "b", "cd", "efg", "hij-k", "Mixed", "UP", "o'clock", "seventeen-letters"]
    if s.bool(.15):
        w.append("x" * s.choice([39, 41, 60, 79, 80, 99, 100, 130, 260]))
    return w


def gen(s, many):
    if many:
        n = s.int(5, 40)
        case = gen_systems(s, 1, 5)
        base = case["sys"]
        k = 0
        while len(case["sys"]) < n:
            b = base[k % len(base)]
            k += 1
            case["sys"].append([{"id": sp["id"], "utts": [{"id": u["id"], "path": [list(t) if t[0] != "C" or not s.bool(.1) else ["D", t[1], ""] for t in u["path"]]}
                                                          for u in sp["utts"]]} for sp in b[:6]])
        case["sys"] = [x[:6] for x in case["sys"]]
        case["names"] = ["n%02d" % i for i in range(n)]
    else:
        case = gen_systems(s, 1, 4)
        if len(case["sys"][0]) > 16 and s.bool(.7):
            keep = {sp["id"] for sp in case["sys"][0][:8]}
            case["sys"] = [[sp for sp in x if sp["id"] in keep] for x in case["sys"]]
    if not all(case["sys"]):
        keep = None
    ws = words(s)
    old = ["a", "b", "cd", "efg", "hij-k"]
    m = {o: s.choice(ws) for o in old} if s.bool(.5) else {o: o for o in old}
    zz = s.choice(["zz", "Zed", ws[-1], "q"])
    for sy in case["sys"]:
        for sp in sy:
            for u in sp["utts"]:
                for t in u["path"]:
                    t[1] = m.get(t[1], t[1])
                    t[2] = zz if t[2] == "zz" else m.get(t[2], t[2])
                    if t[0] == "S" and t[1].lower() == t[2].lower():
                        t[2] = t[2] + "s"
    if not many and s.bool(.15):
        # a system that lacks utterances, or scored against another reference
        k = s.int(0, len(case["sys"]) - 1)
        for sp in case["sys"][k]:
            if len(sp["utts"]) > 1 and s.bool(.3):
                del sp["utts"][s.int(0, len(sp["utts"]) - 1)]
            for u in sp["utts"]:
                if s.bool(.2) and u["path"]:
                    if s.bool():
                        u["path"].append(["C", "tail", "tail"])
                    else:
                        u["path"].pop(s.int(0, len(u["path"]) - 1))
    case["width"] = s.weighted((3, 0), (1, 80), (1, 81), (1, 90), (1, 120), (1, 300))
    return case


class Tables(Suite):
    """per-speaker and executive summaries, and parallel alignments"""

    def __init__(self, name, many, quick, thorough):
        self.name, self.many, self.quick, self.thorough = name, many, quick, thorough

    def gen(self, s):
        return gen(s, self.many)

    def check(self, case, ctx):
        cmd = [ctx.bins["sc_stats"], "-p", "-r", "sum", "rsum", "es", "res", "prn", "-n", "out", "-O", ctx.dir]
        if case["width"]:
            cmd += ["-l", str(case["width"])]
        ctx.run(cmd, stdin=sgml(case), cwd=ctx.dir)
        sysm, names = case["sys"], case["names"]
        tots = [{sp["id"]: tot(sp) for sp in x} for x in sysm]
        speakers = list(dict.fromkeys(i for t in tots for i in t))
        key = tuple(tuple((t.c, t.s, t.d, t.i) for t in x.values()) for x in tots)
        diff = len(set(key)) > 1
        for ext, raw in (("sys", False), ("raw", True)):
            self.summary(ctx.read("out." + ext), names, tots, speakers, raw, ext)
            ctx.evals += 1
            if diff:
                ctx.nontrivial((ext, key))
        for ext, raw in (("es", False), ("res", True)):
            self.executive(ctx.read("out." + ext), names, tots, raw, ext)
            ctx.evals += 1
            if diff:
                ctx.nontrivial((ext, key))
        prn(ctx.read("out.prn"), case, ctx)
        ctx.evals += 1
        if diff:
            ctx.nontrivial(("prn", key))

    def summary(self, text, names, tots, speakers, raw, ext):
        rows = R.table(text)
        hd = [r for r in rows if r[0] == "Spkr"]
        if len(hd) != 1 or hd[0][1:] != names:
            fail("%s: header %r for systems %r", ext, hd, names)
        body = rows[rows.index(hd[0]) + 1:]
        val = (lambda t: t.err) if raw else (lambda t: R.pct(t.err, t.ref))
        seen = []
        for r in body:
            what = "%s report, row %r" % (ext, r[0])
            if r[0] in ("Average", "Sum", "Mean", "StdDev", "Median"):
                if len(r) != len(names) + 1:
                    fail("%s: %r", what, r)
                for k, t in enumerate(tots):
                    v = [val(x) for x in t.values()]
                    a = R.Tot()
                    for x in t.values():
                        a.merge(x)
                    exp = {"Average": lambda: val(a), "Sum": lambda: val(a), "Mean": lambda: R.mean(v), "StdDev": lambda: R.sd(v), "Median": lambda: R.median(v)}[r[0]]()
                    chk("%s, system %s" % (what, names[k]), r[k + 1], exp, .0505)
                seen.append(r[0])
            elif r[0] in speakers:
                for k, t in enumerate(tots):
                    if r[0] in t:
                        chk("%s, system %s" % (what, names[k]), r[k + 1], val(t[r[0]]), 1e-6 if raw else .0505)
                    elif r[k + 1] != "":
                        fail("%s: %r for system %s, which has no such speaker", what, r[k + 1], names[k])
                seen.append(r[0])
            elif r != [""] * len(r):
                fail("%s report: unexpected row %r", ext, r)
        exp = speakers + ["Sum" if raw else "Average", "Mean", "StdDev", "Median"]
        if sorted(seen) != sorted(exp):
            fail("%s report: rows %r, expected %r", ext, sorted(seen), sorted(exp))

    def executive(self, text, names, tots, raw, ext):
        rows = R.table(text)
        got = {}
        for r in rows:
            if r[0] in names:
                if r[0] in got:
                    fail("%s report: two rows for %s", ext, r[0])
                got[r[0]] = [w for c in r[1:] for w in c.split()]
        for k, n in enumerate(names):
            a = R.Tot()
            for x in tots[k].values():
                a.merge(x)
            if n not in got:
                fail("%s report: no row for system %s", ext, n)
            if raw:
                exp, tol = [a.nsent, a.ref, a.c, a.s, a.d, a.i, a.err, a.serr], 1e-6
            else:
                exp, tol = [a.nsent, a.ref] + [R.pct(x, a.ref) for x in (a.c, a.s, a.d, a.i, a.err)] + [R.pct(a.serr, a.nsent)], .0505
            if len(got[n]) != len(exp):
                fail("%s report: row %s is %r", ext, n, got[n])
            for lab, g, e in zip("#Snt #Ref Corr Sub Del Ins Err S.Err".split(), got[n], exp):
                chk("%s report, system %s, %s" % (ext, n, lab), g, e, tol)


def prn(text, case, ctx):
    names, sysm = case["names"], case["sys"]
    n = len(names)
    maps = [{sp["id"]: {u["id"]: u["path"] for u in sp["utts"]} for sp in x} for x in sysm]
    common = [i for i in maps[0] if all(i in m for m in maps)]
    head, *entries = re.split(r"^Speaker: ", text, flags=re.M)
    if not entries:
        body, tail = "", text
    for nm in names:
        if "name: %s " % nm not in head:
            fail("prn report: system %s not listed as represented", nm)
    if n == 1:
        return            # the single-system listing is C06's subject
    exp = {}
    for sp in common:
        for u in maps[0][sp]:
            if all(u in m[sp] for m in maps):
                exp[sp, u] = [m[sp][u] for m in maps]
    got = {}
    totals = [0, 0]
    wrong = {}
    for e in entries:
        e = e.split("\nLattice Summary:")[0]
        sp = e.split("\n")[0]
        m = re.search(r"^(?:Id: +|id: )\((.*)\)$", e, re.M)
        if not m:
            fail("prn report: no utterance id in %r", e[:200])
        k = sp, m[1]
        if k in got:
            fail("prn report: %r listed twice", k)
        if k not in exp:
            fail("prn report: %r listed, but not every system has it", k)
        got[k] = e
        paths = exp[k]
        refs = [[t[1] for t in p if t[0] != "I"] for p in paths]
        what = "prn report, %s %s" % k
        if any(r != refs[0] for r in refs):
            if ";; Reference strings not identical" not in e:
                fail("%s: the references differ but it is shown as one: %r", what, e[:400])
            ents = R.parse_pra(e)
            if len(ents) != n:
                fail("%s: %d single alignments for %d systems", what, len(ents), n)
            for ent, p in zip(ents, paths):
                R.check_pra_utt(ent, [(t[0], t[1], t[2], None) for t in p], False, what)
            ctx.label("different references")
            continue
        if ";; Reference strings not identical" in e:
            fail("%s: said to have different references", what)
        bad = [all(p2 != "C" for p2 in col) for col in zip(*[[t[0] for t in p if t[0] != "I"] for p in paths])]
        m = re.search(r"^Lattice Analysis: #refWords (\d+) #refErrWords (\d+)$", e, re.M)
        if not m or (int(m[1]), int(m[2])) != (len(refs[0]), sum(bad)):
            fail("%s: %s, expected %d words, %d wrong in every system", what, m and m[0], len(refs[0]), sum(bad))
        totals[0] += len(refs[0])
        totals[1] += sum(bad)
        for w, b in zip(refs[0], bad):
            if b:
                wrong[w] = wrong.get(w, 0) + 1
        lines(e, names, refs[0], paths, case, what)
    if set(got) != set(exp):
        fail("prn report: utterances %r of every system are not listed", sorted(set(exp) - set(got))[:4])
    m = re.search(r"^Lattice Summary: #TotRefWords (\d+) #TotRefErrWords (\d+) Accuracy +(\S+)$", text, re.M)
    if not m or [int(m[1]), int(m[2])] != totals:
        fail("prn report: %s, expected totals %r", m and m[0], totals)
    if totals[0]:
        chk("prn report, lattice accuracy", m[3], 100.0 * (totals[0] - totals[1]) / totals[0], .0051)
    lst = text[m.end():]
    items = {w: int(c) for c, w in re.findall(r"^ *\d+: +(\d+)  ->  (.*)$", lst, re.M)}
    if items != wrong:
        fail("prn report: list of words no system has right %r, expected %r", items, wrong)


def lines(e, names, ref, paths, case, what):
    n = len(names)
    width = max([3] + [len(x) for x in names]) + 2
    labs = ["REF"] + names
    body = e.split("\n\n\n", 1)[1]
    blks = [b for b in body.split("\n\n") if b.strip()]
    rpos, pos = 0, [0] * n
    rw = 0
    for k, b in enumerate(blks):
        ls = b.strip("\n").split("\n")
        pre = ">>> " if k else ""
        if len(ls) != n + 1:
            fail("%s: %d lines in a block for %d systems", what, len(ls), n)
        toks = []
        for lab, ln in zip(labs, ls):
            if not ln.startswith(pre + lab + ":"):
                fail("%s: line %r where %s is due", what, ln[:60], lab)
            toks.append([(m.start(), m[0]) for m in re.finditer(r"\S+", ln[len(pre) + width:])])
        cols = {}
        for c, w in toks[0]:
            if rw >= len(ref) or w != ref[rw]:
                fail("%s: reference word %r shown, expected %r", what, w, ref[rw:rw + 1])
            cols[c] = rw
            rw += 1
        for q in range(n):
            for c, w in toks[q + 1]:
                if pos[q] >= len(paths[q]):
                    fail("%s: system %s: extra token %r", what, names[q], w)
                ev_, r, h = paths[q][pos[q]]
                exp = {"C": h, "S": h.upper(), "I": h.upper(), "D": None}[ev_]
                if exp is None and w.strip("*") or exp is not None and w != exp:
                    fail("%s: system %s: %r shown for %r", what, names[q], w, paths[q][pos[q]])
                at = sum(1 for t in paths[q][:pos[q]] if t[0] != "I")
                if (c in cols) != (ev_ != "I") or (c in cols and cols[c] != at):
                    fail("%s: system %s: token %r is not below its reference word", what, names[q], w)
                pos[q] += 1
        mx = max([len(t[1]) for p in paths for t in p] + [len(t[2]) for p in paths for t in p] + [0])
        lim = max(80, case["width"] or 100)
        if mx + width + 4 < lim and max(len(x.rstrip()) for x in ls) > lim:
            fail("%s: a line of %d characters, width %d", what, max(len(x) for x in ls), lim)
    if rw != len(ref):
        fail("%s: reference words %r not shown", what, ref[rw:])
    for q in range(n):
        if pos[q] != len(paths[q]):
            fail("%s: system %s: tokens %r not shown", what, names[q], paths[q][pos[q]:][:4])


class Graphs(Suite):
    """range tables and graph data"""
    name, quick, thorough = "graphs", 1200, 20000

    def gen(self, s):
        c = gen(s, s.bool(.1))
        c["root"] = s.weighted((4, "out"), (1, "a-rather-long-name-of-the-test-whose-files-are-written-here"))
        return c

    def check(self, case, ctx):
        f = case["formula"]
        root = case["root"]
        ctx.run([ctx.bins["sc_stats"], "-p", "-f", f, "-g", "range", "grange", "grange2", "-n", root, "-O", ctx.dir], stdin=sgml(case), cwd=ctx.dir)
        spk, pc = blocks(case, f)
        if not spk:                                            # no speaker in common: nothing to show, but no crash either
            ctx.evals += 1
            return
        val = [[float(x) for x in row] for row in pc]          # [system][speaker]
        names = case["names"]
        bysp = {n: [v[i] for v in val] for i, n in enumerate(spk)}
        bysy = {n: val[k] for k, n in enumerate(names)}
        key = tuple(tuple(v) for v in val)
        nt = len(set(key)) > 1 or len(names) == 1
        text = ctx.read(root + ".range")
        parts = re.split(r"RANGE ANALYSIS ACROSS ", text)
        if len(parts) != 3:
            fail("range: %d tables", len(parts) - 1)
        for part, lab, exp in ((parts[1], "SPKR", bysp), (parts[2], "SYS", bysy)):
            tab = part.split("PERCENTAGES")[0]
            got = {}
            for r in re.findall(r"^ *\| (\S+) +\| +(\S+) +\| +(\S+) +\|\| +(\S+) +\| +(\S+) +\|$", tab, re.M):
                if r[0] != lab:
                    if r[0] in got:
                        fail("range: %s %s twice", lab, r[0])
                    got[r[0]] = r[1:]
            if set(got) != set(exp):
                fail("range: rows for %r, expected %r", sorted(got), sorted(exp))
            for n, v in exp.items():
                for what, g, e in zip(("high", "low", "std dev", "mean"), got[n], (max(v), min(v), R.sd(v), R.mean(v))):
                    chk("range: %s %s, %s" % (lab, n, what), g, e, .0505)
            ctx.evals += 1
            if nt:
                ctx.nontrivial((lab, key))
        for g in ("grange", "grange2"):
            for kind, exp, cols in (("spk", bysp, names), ("sys", bysy, spk)):
                base = "%s.%s.%s." % (root, g, kind)
                plt = ctx.read(base + "plt")
                m = re.search(r"^set ytics \((.*)\)$", plt, re.M)
                idx = {int(b): a for a, b in re.findall(r'"([^"]*)" (\d+)', m[1])} if m else {}
                if sorted(idx.values()) != sorted(exp):
                    fail("%splt: labels %r, expected %r", base, idx, sorted(exp))
                for stat, fn in (("mean", R.mean), ("median", R.median)):
                    rows = [ln.split() for ln in ctx.read(base + stat).splitlines()]
                    if sorted(int(r[0]) for r in rows) != sorted(idx):
                        fail("%s%s: rows %r", base, stat, rows)
                    for i, v in rows:
                        chk("%s%s of %s" % (base, stat, idx[int(i)]), v, fn(exp[idx[int(i)]]), 2e-6)
                rows = [ln.split() for ln in ctx.read(base + "dat").splitlines()]
                if g == "grange":
                    d = {}
                    for i, v in rows:
                        d.setdefault(idx[int(i)], []).append(float(v))
                    for n, v in exp.items():
                        a, b = sorted(d.get(n, [])), sorted(v)
                        if len(a) != len(b) or any(abs(x - y) > 2e-6 for x, y in zip(a, b)):
                            fail("%sdat: values %r of %s, expected %r", base, a, n, b)
                else:
                    cl = {t: sk.count("%*s") for sk, t in re.findall(r'dat" using 2:1 "%lf((?:%\*s)*)%lf" title "([^"]*)"', plt)}
                    if sorted(cl) != sorted(cols):
                        fail("%splt: curves %r, expected %r", base, sorted(cl), sorted(cols))
                    if sorted(int(r[0]) for r in rows) != sorted(idx):
                        fail("%sdat: rows %r", base, rows)
                    for r in rows:
                        n = idx[int(r[0])]
                        for j, c in enumerate(cols):
                            chk("%sdat: %s, %s" % (base, n, c), r[1 + cl[c]], exp[n][j], 2e-6)
                ctx.evals += 1
                if nt:
                    ctx.nontrivial((g, kind, key))


def build():
    return {"sc_stats": B.sclite() + "/sc_stats"}


SUITES = [Tables("tables", False, 3000, 60000), Tables("many", True, 300, 6000), Graphs()]
