"""C15: rover builds a word transition network that holds every system's words, aligned at minimum cost."""
from vf import build as B, rov, scl
from vf.engine import Suite, Violation

RULE = ("A case is one rover -m putat run over 2 to 6 generated ctm files. One evaluation is one run: every correspondence set has one arc per system, every system's words, "
        "times and confidences are read back in order per file and channel, sets never span a common silence, and at every iteration the cost of adding the next system's words "
        "to the network built so far equals the minimum found by an independent dynamic program. Non-trivial: systems disagree somewhere; counted by distinct inputs.")
ASSUMPTIONS = ["segments are cut where a gap of more than 1 s in the first system overlaps a gap of every other system (mfa.c)",
               "word distances as documented in word.c: 0 equal, 4 substitution, 3 insertion/deletion, 1 word against a NULL arc, .001 skipping a NULL arc; with -T time distances"]


def dist(a, b, T):
    """wwd: a, b are None (no word), ('@',...) or (word, t1, t2)"""
    if b is None and a[0] == "@" or a is None and b[0] == "@":
        return .001
    if T:
        if a is None:
            return b[2] - b[1]
        if b is None:
            return a[2] - a[1]
        if a[0] == "@" or b[0] == "@":
            return (a[2] - a[1]) + (b[2] - b[1]) + .003
        return abs(a[1] - b[1]) + abs(a[2] - b[2]) + (0 if a[0] == b[0] else .001)
    if a is None or b is None:
        return 3.
    if a[0] == b[0]:
        return 0.
    if a[0] == "@" or b[0] == "@":
        return 1.
    return 4.


def mind(cs, w, T):
    return min(dist(x, w, T) for x in cs)


def optimum(net, ws, T):
    prev = [0.]
    for w in ws:
        prev.append(prev[-1] + dist(None, w, T))
    for cs in net:
        d = mind(cs, None, T)
        cur = [prev[0] + d]
        for j, w in enumerate(ws):
            cur.append(min(prev[j] + mind(cs, w, T), prev[j + 1] + d, cur[j] + dist(None, w, T)))
        prev = cur
    return prev[-1]


def integrity(case, names, sets):
    """Returns the sets with the words indexed by system: [(file, chan, [None or word tuple per system])]"""
    n = len(names)
    e = lambda w: scl.fold(w, case["cs"]).encode().decode("latin-1")
    want = {}
    for i, recs in enumerate(case["sys"]):
        for f, c, chunks in recs:
            want.setdefault((e(f), e(c)), [[] for _ in range(n)])[i] = [(e(w), t / 32., (t + d) / 32., -1. if cf is None else cf, k)
                                                                 for k, ch in enumerate(chunks) for t, d, w, cf in ch]
    got, out, order = {}, [], []
    for f, c, arcs in sets:
        if len(arcs) != n:
            raise Violation("a correspondence set of %s %s has %d arcs for %d systems: %r" % (f, c, len(arcs), n, arcs))
        row = [None] * n
        nulls = 0
        for w, t1, t2, cf, tag in arcs:
            if w == "@":
                nulls += 1
                if abs(cf - case["nconf"]) > 1e-5:
                    raise Violation("a NULL arc has confidence %s, -c is %s" % (cf, case["nconf"]))
                continue
            if tag not in names:
                raise Violation("arc %r is tagged with no input file" % ((w, t1, t2, cf, tag),))
            i = names.index(tag)
            if row[i] is not None:
                raise Violation("two words of %s in one correspondence set: %r" % (tag, arcs))
            row[i] = (w, t1, t2, cf)
        if nulls == n:
            raise Violation("a correspondence set holds no word at all")
        if not order or order[-1] != (f, c):
            order.append((f, c))
        g = got.setdefault((f, c), [[] for _ in range(n)])
        for i in range(n):
            if row[i]:
                g[i].append(row[i])
        out.append((f, c, row))
    keys = [k for k in want if any(want[k])]
    if sorted(order) != sorted(keys):
        raise Violation("files/channels in the network: %r, in the input: %r" % (order, keys))
    for k in keys:
        for i in range(n):
            a, b = got[k][i], want[k][i]
            if [x[0] for x in a] != [x[0] for x in b]:
                raise Violation("%s %s: words of system %d in the network are %r, in its file %r" % (k[0], k[1], i, [x[0] for x in a], [x[0] for x in b]))
            for x, y in zip(a, b):
                if max(abs(x[j] - y[j]) for j in (1, 2, 3)) > 2e-4 + 1e-6 * abs(y[2]):
                    raise Violation("%s %s: arc %r carries other times or confidence than the word %r of system %d" % (k[0], k[1], x, y, i))
    return out


class Net(Suite):
    name, quick, thorough = "network", 16000, 150000

    def gen(self, s):
        return rov.gen(s)

    def check(self, case, ctx):
        names = rov.write(case, ctx)
        if rov.mismatch(case):
            rc, out, err = ctx.run(rov.cmd(case, ctx, names, "putat"), ok=(1,))
            if "mismatch" not in out + err:
                raise Violation("rover fails without naming the mismatch: %r" % (out + err)[-300:])
            ctx.evals += 1
            ctx.label("file or channel mismatch")
            return
        ctx.run(rov.cmd(case, ctx, names, "putat"))
        sets = rov.putat(ctx.read("out", binary=True).decode("latin-1"))
        rows = integrity(case, names, sets)
        n = len(names)
        diff = any(len({r and r[0] for r in row}) > 1 for _, _, row in rows)
        for f, c in sorted({(f, c) for f, c, _ in rows}):
            rs = [row for f2, c2, row in rows if (f2, c2) == (f, c)]
            st = [[] for _ in range(n)]
            for row in rs:
                for i in range(n):
                    if row[i]:
                        st[i].append((row[i][1], row[i][2]) + row[i])
            p = 0
            for seg in rov.segments(st):
                left = [len(x) for x in seg]
                part = []
                while any(left):
                    row = rs[p]
                    p += 1
                    for i in range(n):
                        left[i] -= row[i] is not None
                        if left[i] < 0:
                            raise Violation("%s %s: correspondence set %r goes across a silence common to all systems" % (f, c, row))
                    part.append(row)
                for j in range(1, n):
                    net, cost, ws = [], 0., []
                    for row in part:
                        old = [x or ("@", 0., 0.) for x in row[:j]]
                        w = row[j]
                        if w:
                            ws.append(w)
                        if all(x is None for x in row[:j]):
                            cost += dist(None, w, case["T"]) if w else 0
                        else:
                            net.append(old)
                            cost += mind(old, w, case["T"])
                    best = optimum(net, ws, case["T"])
                    if cost > best + 1e-4:
                        raise Violation("%s %s: adding system %d costs %.4f, the best alignment costs %.4f; network %r words %r" %
                                        (f, c, j, cost, best, [[x[0] for x in cs] for cs in net], [x[0] for x in ws]))
        ctx.evals += 1
        ctx.label("%d systems" % n, "time-mediated" if case["T"] else "word distance", "ragged silences" if case["ragged"] else "clean stretches")
        if diff:
            ctx.nontrivial((case["sys"], case["T"], case["cs"]))


class Big(Suite):
    """Inputs beyond the 5000-word read buffer: several files, words unique enough to see a loss."""
    name, quick, thorough = "large", 24, 200

    def gen(self, s):
        n = s.int(2, 3)
        files = s.int(2, 5)
        sysl = []
        for i in range(n):
            recs = []
            for f in range(files):
                for c in "AB"[:s.int(1, 2) if i == 0 else 2]:
                    recs.append(["f%d" % f, c, [s.int(300, 2600), s.int(0, 10 ** 6)]])
            sysl.append(recs)
        keep = {(r[0], r[1]) for r in sysl[0]}
        return {"sys": [[r for r in recs if (r[0], r[1]) in keep] for recs in sysl], "cs": True, "nconf": .5, "T": False, "eol": True, "comment": False}

    def check(self, case, ctx):
        import random
        full = dict(case, sys=[])
        for recs in case["sys"]:
            o = []
            for f, c, (k, seed) in recs:
                r = random.Random(seed)
                t, ws = r.randrange(64), []
                for j in range(k):
                    d = r.randrange(1, 16)
                    ws.append([t, d, "w%d" % r.randrange(40), r.randrange(100) / 100.])
                    t += d + (r.randrange(40, 60) if j % 6 == 5 else r.randrange(0, 4))
                o.append([f, c, [ws]])
            full["sys"].append(o)
        names = rov.write(full, ctx)
        ctx.run(rov.cmd(full, ctx, names, "putat"), timeout=120)
        integrity(full, names, rov.putat(ctx.read("out", binary=True).decode("latin-1")))
        ctx.evals += 1
        ctx.label("%d words" % (sum(r[2][0] for recs in case["sys"] for r in recs) // 5000 * 5000))
        ctx.nontrivial(case["sys"])


def build():
    return {"rover": B.sclite() + "/rover"}


SUITES = [Net(), Big()]
