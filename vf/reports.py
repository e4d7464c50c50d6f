"""Parsers for the text reports of sclite / sc_stats and the arithmetic they must obey."""
import math, re
from .engine import Violation


def table(text):
    """rows of an rpg table: list of lists of cells (strings)"""
    rows = []
    for ln in text.split("\n"):
        t = ln.strip()
        if t.startswith("|") and t.endswith("|") and not re.match(r"^\|[-=+|]*\|$", t):
            rows.append([c.strip() for c in t[1:-1].split("|")])
    return rows


def nums(cells):
    """numbers of the cells, with the * + # marks dropped"""
    out = []
    for c in cells:
        for w in c.split():
            out.append(float(w.rstrip("*+#")) if w.rstrip("*+#") else None)
    return out


def near(a, b, tol):
    return abs(a - b) <= tol


def mean(v):
    return sum(v) / len(v)


def sd(v):
    if len(v) < 2:
        return 0.0
    m = mean(v)
    return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1))


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


class Tot:
    """counts of one speaker"""

    def __init__(self):
        self.c = self.s = self.d = self.i = self.nsent = self.serr = self.ws = self.wd = self.wi = 0

    def add(self, c, s, d, i):
        self.c += c; self.s += s; self.d += d; self.i += i
        self.nsent += 1
        self.serr += (s + d + i) > 0
        self.ws += s > 0
        self.wd += d > 0
        self.wi += i > 0

    def merge(self, o):
        for k in vars(self):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    @property
    def ref(self):
        return self.c + self.s + self.d

    @property
    def err(self):
        return self.s + self.d + self.i


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def check_summary(text, spk, raw, what):
    """spk: ordered list of (name, Tot). Verifies the by-speaker summary report."""
    rows = table(text)
    if len(rows) < 2:
        raise Violation("%s: no table in report" % what)
    body = rows[2:]
    names = [r[0] for r in body]
    want_tail = ["Sum" if raw else "Sum/Avg", "Mean", "S.D.", "Median"]
    if names != [n for n, _ in spk] + want_tail:
        raise Violation("%s: rows %r, expected speakers %r" % (what, names, [n for n, _ in spk] + want_tail))
    cols = [[] for _ in range(6)]
    allc = [[], []]
    tot = Tot()
    for (name, t), r in zip(spk, body):
        v = nums(r[1:3])
        tot.merge(t)
        allc[0].append(t.nsent)
        allc[1].append(t.ref)
        if raw:
            exp = [t.c, t.s, t.d, t.i, t.err, t.serr]
        elif t.ref:
            exp = [pct(x, t.ref) for x in (t.c, t.s, t.d, t.i, t.err)] + [pct(t.serr, t.nsent)]
        else:
            exp = [t.c, t.s, t.d, t.i, t.err, pct(t.serr, t.nsent)]
        full = [t.nsent, t.ref] + exp
        cmp_row(v, full, 0.0501 if not raw else 0.001, what, name, tol0=0)
        if not raw and (("*" in r[2]) != (t.ref == 0)):
            raise Violation("%s: speaker %s: no-reference mark wrong: %r" % (what, name, r))
        if raw or t.ref:
            for k in range(5):
                cols[k].append(exp[k])
        cols[5].append(exp[5])
    n = len(spk)
    if raw:
        exp = [tot.c, tot.s, tot.d, tot.i, tot.err, tot.serr]
    else:
        exp = [pct(x, tot.ref) for x in (tot.c, tot.s, tot.d, tot.i, tot.err)] + [pct(tot.serr, tot.nsent)]
    cmp_row(nums(body[n][1:3]), [tot.nsent, tot.ref] + exp, 0.0501 if not raw else .001, what, "Sum", tol0=0)
    for k, f in enumerate((mean, sd, median)):
        v = nums(body[n + 1 + k][1:3])
        if len(v) != 8:
            raise Violation("%s: row %s has %d numbers" % (what, want_tail[k + 1], len(v)))
        exp = [f(allc[0]), f(allc[1])] + [f(c) if c else None for c in cols]
        cmp_row(v, exp, 0.0502, what, want_tail[k + 1])
    return tot


def cmp_row(got, exp, tol, what, name, tol0=None):
    if len(got) != len(exp):
        raise Violation("%s: row %s: %r, expected %r" % (what, name, got, exp))
    for k, (g, e) in enumerate(zip(got, exp)):
        if e is None:
            continue
        if g is None or abs(g - e) > (tol0 if tol0 is not None and k < 2 else tol):
            raise Violation("%s: row %s column %d: printed %s, the alignments give %s (row %r, expected %r)" % (what, name, k, g, e, got, exp))


_SC = re.compile(r"^Scores: \(#C #S #D #I\) (\d+) (\d+) (\d+) (\d+)$", re.M)


def parse_pra(text):
    """-> list of (id, (c,s,d,i), REF line, HYP line, Eval line) with wrapped lines joined as lists"""
    out = []
    for blk in re.split(r"^id: ", text, flags=re.M)[1:]:
        lines = blk.split("\n")
        m = _SC.search(blk)
        if not m:
            raise Violation("no Scores line for %r" % lines[0])
        seg = {"REF": [], "HYP": [], "Eval": []}
        for ln in lines[1:]:
            m2 = re.match(r"^(>> )?(REF|HYP|Eval): +?", ln)
            if m2:
                off = (3 if m2[1] else 0) + 6
                seg[m2[2]].append(ln[off:])
        out.append((lines[0], tuple(map(int, m.groups())), seg["REF"], seg["HYP"], seg["Eval"]))
    return out


def check_pra_utt(entry, toks, case_sens, what):
    """the pretty-printed alignment shows exactly the tokens of the SGML alignment, in columns"""
    uid, sc, R, H, E = entry
    cnt = {"C": 0, "S": 0, "D": 0, "I": 0}
    for t in toks:
        cnt[t[0]] += 1
    if sc != (cnt["C"], cnt["S"], cnt["D"], cnt["I"]):
        raise Violation("%s: Scores line %r but the alignment has %r" % (what, sc, cnt))
    if not (len(R) == len(H) == len(E)):
        raise Violation("%s: unequal number of REF/HYP/Eval lines" % what)
    k = 0
    for r, h, e in zip(R, H, E):
        pos = 0
        start = k
        while pos < max(len(r.rstrip()), len(h.rstrip()), len(e.rstrip())):
            if k >= len(toks):
                raise Violation("%s: more columns than aligned words: %r %r" % (what, r, h))
            ev, a, b, _ = toks[k]
            a, b = a or "", b or ""
            up = (lambda x: x) if case_sens or ev == "C" else (lambda x: x.upper())
            da = "*" * len(b) if ev == "I" else up(a)
            db = "*" * len(a) if ev == "D" else up(b)
            w = max(len(da), len(db), 1)
            de = "" if ev == "C" else ev
            ga, gb, ge = r[pos:pos + w], h[pos:pos + w], e[pos:pos + w]
            same = lambda g, d, fill: g == d or (fill and len(d) > 40 and len(g) >= 40 and g == "*" * len(g))
            if not same(ga.rstrip(), da, ev == "I") or not same(gb.rstrip(), db, ev == "D") or ge.rstrip() != de:
                raise Violation("%s: column %d shows %r/%r/%r, expected %r/%r/%r" % (what, pos, ga, gb, ge, da, db, de))
            pos += w + 1
            k += 1
        if k == start and len(R) > 1 and k < len(toks):
            raise Violation("%s: empty output line" % what)
    rest = [t for t in toks[k:] if t[1] or t[2]]
    if rest:
        raise Violation("%s: %d aligned words are not displayed" % (what, len(rest)))


def _pc(text, label, what):
    m = re.search(r"^ *" + re.escape(label) + r" *=? *(?:([-\d.]+|UNDEF)%)? *\( *(\d+)\)", text, re.M)
    if not m:
        raise Violation("%s: line %r not found" % (what, label))
    return (m[1] if m[1] is None or m[1] == "UNDEF" else float(m[1])), int(m[2])


def _lists(text, what):
    """the five word lists of a detailed report: name -> (total, distinct, {item: n}, printed sum)"""
    out = {}
    for name in ("CONFUSION PAIRS", "INSERTIONS", "DELETIONS", "SUBSTITUTIONS", "FALSELY RECOGNIZED"):
        m = re.search(r"^" + name + r" +Total +\((\d+)\)\n +With >= +(\d+) occurrences \((\d+)\)\n(.*?)^ +-------\n +(\d+)$", text, re.M | re.S)
        if not m:
            raise Violation("%s: section %s missing" % (what, name))
        items, order = {}, []
        for ln in m[4].split("\n"):
            x = re.match(r"^ *(\d+): +(\d+)  ->  (.*)$", ln)
            if x:
                if int(x[1]) != len(order) + 1:
                    raise Violation("%s: %s rank %s out of order" % (what, name, x[1]))
                if x[3] in items:
                    raise Violation("%s: %s lists %r twice" % (what, name, x[3]))
                items[x[3]] = int(x[2])
                order.append(int(x[2]))
        if order != sorted(order, reverse=True):
            raise Violation("%s: %s is not sorted by frequency: %r" % (what, name, order))
        out[name] = (int(m[1]), int(m[2]), int(m[3]), items, int(m[5]))
    return out


def check_detail(text, t, toks_list, what):
    """a .dtl or .spk report against the alignments it is about"""
    v, k = _pc(text, "with errors", what)
    m = re.search(r"^ sentences +(\d+)$", text, re.M)
    if not m or int(m[1]) != t.nsent:
        raise Violation("%s: sentence count %s, expected %d" % (what, m and m[1], t.nsent))
    for label, n in (("with errors", t.serr), ("with substitutions", t.ws), ("with deletions", t.wd), ("with insertions", t.wi)):
        v, k = _pc(text, label, what)
        if k != n or abs(v - pct(n, t.nsent)) > .0501:
            raise Violation("%s: '%s' %s%% (%d), the alignments give %d of %d" % (what, label, v, k, n, t.nsent))
    for label, n in (("Percent Total Error", t.err), ("Percent Correct", t.c), ("Percent Substitution", t.s),
                     ("Percent Deletions", t.d), ("Percent Insertions", t.i)):
        v, k = _pc(text, label, what)
        if k != n or (v != "UNDEF" if not t.ref else v == "UNDEF" or abs(v - pct(n, t.ref)) > .0501):
            raise Violation("%s: '%s' %s%% (%d), the alignments give %d of %d" % (what, label, v, k, n, t.ref))
    m = re.search(r"^Percent Word Accuracy += +([-\d.]+|UNDEF)%$", text, re.M)
    if not m or (m[1] != "UNDEF" if not t.ref else m[1] == "UNDEF" or abs(float(m[1]) - (100.0 - pct(t.err, t.ref))) > .0501):
        raise Violation("%s: word accuracy %s, expected %.3f" % (what, m and m[1], 100.0 - pct(t.err, t.ref)))
    for label, n in (("Ref. words", t.ref), ("Hyp. words", t.c + t.s + t.i), ("Aligned words", t.c + t.s + t.d + t.i)):
        v, k = _pc(text, label, what)
        if k != n:
            raise Violation("%s: '%s' %d, the alignments give %d" % (what, label, k, n))
    exp = {"CONFUSION PAIRS": {}, "INSERTIONS": {}, "DELETIONS": {}, "SUBSTITUTIONS": {}, "FALSELY RECOGNIZED": {}}

    def inc(n, w):
        exp[n][w] = exp[n].get(w, 0) + 1
    for toks in toks_list:
        for ev, r, h, _ in toks:
            if ev == "S":
                inc("CONFUSION PAIRS", "%s ==> %s" % (r, h))
                inc("SUBSTITUTIONS", r)
                inc("FALSELY RECOGNIZED", h)
            elif ev == "D":
                inc("DELETIONS", r)
            elif ev == "I":
                inc("INSERTIONS", h)
    for n, (tot, thr, ge, items, s) in _lists(text, what).items():
        want = {k: c for k, c in exp[n].items() if c >= thr}
        if items != want or tot != len(exp[n]) or ge != len(want) or s != sum(want.values()):
            raise Violation("%s: %s: printed %r (total %d, sum %d), the alignments give %r" % (what, n, items, tot, s, want))
