"""C18: asclite's reports count, per system and speaker, what its alignments say."""
import math
import os
import statistics
from vf import build as B, asc
from vf.engine import Suite, Violation

RULE = ("a system's table counts as non-trivial when at least two speakers have reference words and not all counts "
        "of errors are zero")
ASSUMPTIONS = [
    "same generator and domain as C17; the counts are compared with the labels of the SGML report of the same run",
    "NCE is compared only when every hypothesis word carries a confidence; the known finding (log2 of the confidence "
    "instead of its complement for wrong words) is accepted only in exactly that form",
    "values are compared to half a unit of the last printed digit",
]
COLS = ["snt", "wrd", "C", "S", "D", "I", "E", "SE"]
SPK = ["snt", "wrd", "C", "S", "P", "D", "I", "E", "SE"]     # with a speaker map: P, right words by the wrong speaker


def cols(case):
    return SPK if case.get("map") is not None else COLS


def num(x):
    return float(x.rstrip("*+ "))


def tables(txt):
    """[(title, {row name: [values...]}, [speaker order])]"""
    out = []
    L = txt.split("\n")
    for n, x in enumerate(L):
        if "SYSTEM SUMMARY PERCENTAGE by SPEAKER" in x:
            rows, order = {}, []
            title = L[n + 2].strip("| ")
            for y in L[n + 3:]:
                if y.startswith("'"):
                    break
                if y.startswith("| "):
                    c = [q.strip() for q in y.strip("|").split("|")]
                    if c[0] == "Speaker":
                        continue
                    if c[0] in rows:
                        raise Violation("two rows for %s" % c[0])
                    rows[c[0]] = [c[1].split(), c[2].split(), c[3]]
                    order.append(c[0])
            out.append((title, rows, order))
    return out


def counts(paths):
    st = {}
    for spk, a, row in paths:
        r = st.setdefault(spk, dict.fromkeys(SPK, 0))
        for e in row:
            r["P" if e[3].get("h_isSpkrSub") == "true" else e[0]] += 1
        r["snt"] += 1
        r["SE"] += any(e[0] != "C" for e in row)
        r["wrd"] += sum(1 for e in row if e[0] in "CSD")
        r["E"] += sum(1 for e in row if e[0] != "C")
    return st


def clip(x):
    return min(max(1e-7, x), 1 - 1e-7)


def nce(rows, known):
    """normalised cross entropy of the words in rows; known: with the known finding"""
    c = sum(1 for e in rows if e[0] == "C")
    w = sum(1 for e in rows if e[0] in "SI")
    if not c + w:
        return None
    p = clip(c / float(c + w))
    H = -c * math.log2(p) - w * math.log2(1 - p)
    if H == 0:
        return None
    s = 0.
    for e in rows:
        if e[0] in "CSI":
            if not e[3].get("h_conf"):
                if e[0] == "C" and not e[2]:
                    continue
                return None
            f = float(e[3]["h_conf"])
            s += math.log2(clip(f if e[0] == "C" or known else 1 - f))
    return (H + s) / H


def near(shown, want, unit):
    return abs(num(shown) - want) <= unit * .5001 + 1e-9 * abs(want)


class Reports(Suite):
    name, quick, thorough = "reports", 8000, 80000

    def gen(self, s):
        c = asc.gen(s, nsys=(1, 1, 2, 3)) if s.bool(.85) else asc.gen(s, fmts=("rttm",), nsys=(1,))
        if c["hf"] == "rttm" and c["nsys"] == 1 and s.bool(.7):
            c["map"] = asc.gen_map(s, c)
        c["out"] = s.choice(["stdout", "stdout", "here", "dir", "bad"])
        c["titles"] = s.bool(.3)
        return c

    def check(self, case, ctx):
        names = asc.write(case, ctx)
        exe = B.asclite() + "/asclite"
        a = asc.args(case, names)
        titles = list(names)
        if case["titles"]:
            titles = ["title%d" % k for k in range(case["nsys"])]
            for k, n in enumerate(names):
                i = a.index(n)
                a.insert(i + 2, titles[k])
        out = case["out"]
        a += ["-f", "0"]
        if out == "stdout":
            a += ["-o", "rsum", "sum", "sgml", "stdout"]
        else:
            a += ["-o", "sgml", "sum", "rsum"]
            if out == "dir":
                os.mkdir(ctx.path("od"))
                a += ["-O", "od"]
            elif out == "bad":
                a += ["-O", "missing"]
        rc, txt, err = ctx.run([exe] + a, cwd=ctx.dir, timeout=30, ok=None)
        if rc:
            raise Violation("asclite exits with %s: %s" % (rc, (txt + err)[-300:]))
        if out in ("stdout", "bad"):
            T = tables(txt)
            raw, pct = {}, {}
            for t, rows, order in T:
                d = raw if "Sum" in rows else pct
                if t in d:
                    raise Violation("two tables of one kind for %s" % t)
                d[t] = (rows, order)
            sg = {x[0]["title"]: x for x in asc.sgml(txt)}
        else:
            raw, pct, sg = {}, {}, {}
            pre = "od/" if out == "dir" else ""
            for n, t in zip(names, titles):
                for ext, d in (("raw", raw), ("sys", pct)):
                    q = tables(ctx.read(pre + n + "." + ext))
                    if len(q) != 1 or q[0][0] != t:
                        raise Violation("%s.%s holds the tables of %s" % (n, ext, [x[0] for x in q]))
                    d[t] = q[0][1:]
                q = asc.sgml(ctx.read(pre + n + ".sgml"))
                if len(q) != 1:
                    raise Violation("%s.sgml holds %d systems" % (n, len(q)))
                sg[q[0][0]["title"]] = q[0]
        for d in (raw, pct, sg):
            if sorted(d) != sorted(titles):
                raise Violation("systems reported: %s, given: %s" % (sorted(d), titles))
        for k, t in enumerate(titles):
            at, paths = sg[t]
            if at["hyp_fname"] != names[k] and any(e[2] for p in paths for e in p[2]) or paths and at["ref_fname"] != "ref." + case.get("rf", "stm"):
                raise Violation("files of the report: %s" % at)
            st = counts(paths)
            self.table(case, st, paths, raw[t], False)
            self.table(case, st, paths, pct[t], True)
            ctx.evals += 1
            if sum(1 for x in st.values() if x["wrd"]) > 1 and any(x["E"] for x in st.values()):
                ctx.nontrivial((case["streams"], k))

    def table(self, case, st, paths, tab, pct):
        rows, order = tab
        sumrow = "Sum/Avg" if pct else "Sum"
        if order[-4:] != [sumrow, "Mean", "S.D.", "Median"] or sorted(order[:-4]) != sorted(st):
            raise Violation("rows %s for the speakers %s" % (order, sorted(st)))
        for spk, r in st.items():
            self.row(case, spk, rows[spk], r, pct)
            self.nce(case, spk, rows[spk], [e for p in paths if p[0] == spk for e in p[2]], r["wrd"])
        if not st:
            return
        tot = {c: sum(r[c] for r in st.values()) for c in SPK}
        self.row(case, sumrow, rows[sumrow], tot, pct)
        self.nce(case, sumrow, rows[sumrow], [e for p in paths for e in p[2]], tot["wrd"])
        some = [r for r in st.values() if r["wrd"]]

        def val(r, c):
            if not pct or c in ("snt", "wrd"):
                return float(r[c])
            return 100. * r[c] / (r["snt"] if c == "SE" else r["wrd"])
        for nm, f in (("Mean", statistics.mean), ("S.D.", lambda v: statistics.stdev(v) if len(v) > 1 else 0.), ("Median", statistics.median)):
            for i, c in enumerate(cols(case)):
                v = [val(r, c) for r in (st.values() if c in ("snt", "wrd", "SE") else some)]
                shown = rows[nm][0][i] if i < 2 else rows[nm][1][i - 2]
                want = f(v) if v else 0.
                if not near(shown, want, .1):
                    raise Violation("%s of %s is %s, should be %.4f (%s)" % (nm, c, shown, want, v))

    def row(self, case, nm, row, r, pct):
        for i, c in enumerate(cols(case)):
            shown = row[0][i] if i < 2 else row[1][i - 2]
            base = r["snt"] if c == "SE" else r["wrd"]
            if i < 2 or not pct:
                ok = num(shown) == r[c]
            elif base:
                ok = "*" not in shown and near(shown, 100. * r[c] / base, .1)
            elif nm == "Sum/Avg":
                continue    # a percentage of no words
            else:
                ok = shown.endswith("*") and num(shown) == r[c]
            if not ok:
                raise Violation("%s of %s is shown as %s, the alignments give %s (%s)" % (c, nm, shown, r[c], r))

    def nce(self, case, nm, row, es, words):
        if not words:
            return
        vals = [nce(es, False)] + ([] if case.get("strict") else [nce(es, True)])
        if vals[0] is None:
            return
        shown = row[2]
        for v in vals:
            if (abs(v) > 1000 and shown in ("-inf", "+inf")) or ("inf" not in shown and near(shown, v, .001)):
                return
        raise Violation("NCE of %s is %s, should be %.4f" % (nm, shown, vals[0]))


SUITES = [Reports()]


def build():
    B.asclite()
