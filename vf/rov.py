"""Shared generator and parsers for rover (C15, C16)."""
import re
from .engine import Violation

VOC = ["a", "b", "c", "d", "the", "THE", "The", "b-", "uh", "x_y", "\u00e9t\u00e9", "a1", "zz", "wordwordwordworda", "wordwordwordwordb", "w" * 70 + "1", "w" * 70 + "2"]


def gen(s, nmin=2, nmax=6):
    """Times are in units of 1/32 s, exact in decimal and binary: {'sys': [[ [file, chan, [[t1, dur, word, conf or None], ...chunk], ...], ...]]}"""
    n = s.int(nmin, nmax)
    many = s.bool(.05)
    if many:
        n = s.choice([7, 8, 9, 10, 12, 17, 33, 50])
    voc = VOC[:s.choice([2, 4, 8, len(VOC)])]
    hasconf = not s.bool(.2)
    chans = []
    for f in range(s.int(1, 2) if s.bool(.3) else 1):
        for c in range(s.int(1, 2) if s.bool(.3) else 1):
            chans.append(["f%d" % f, "AB"[c]])
    nchunk = s.choice([1, 1, 2, 3])
    ragged = s.bool(.15)
    grid = s.choice([1, 5])
    keys = ["%s %s %d" % (f, c, k) for f, c in chans for k in range(nchunk)]
    base = {k: s.list(lambda: s.choice(voc), 0 if ragged else 1, 9 if not many else 4 if n < 11 else 1, s.choice([2, 4])) for k in keys}
    cf = lambda: None if not hasconf else s.int(0, 20) / 20. if grid == 5 else s.int(0, 1000) / 1000.
    err = s.choice([.1, .3, .6]) if not many else .15 if n < 20 else .05
    systems = []
    for i in range(n):
        recs = []
        for f, c in chans:
            chunks = []
            for k in range(nchunk):
                ws = []
                for w in base["%s %s %d" % (f, c, k)]:
                    r = s.int(0, 99) / 100.
                    if r < err / 3:
                        continue
                    if r < err * 2 / 3:
                        w = s.choice(voc)
                    elif r < err:
                        ws.append(s.choice(voc))
                    ws.append(w)
                if not ws and not (ragged and s.bool(.5)):
                    ws = [s.choice(voc)]
                t = 640 * k + s.int(0, 40)
                out = []
                for w in ws:
                    d = s.int(1, 16)
                    if s.bool(.03):
                        d = 0
                    out.append([t, d, w, cf()])
                    t += d + (s.int(0, 8) if s.bool() else 0) + (s.int(20, 80) if ragged and s.bool(.2) else 0)
                chunks.append(out)
            recs.append([f, c, chunks])
        if s.bool(.05):
            recs.pop(s.int(0, len(recs) - 1))
        elif len(recs) > 1 and s.bool(.03):
            recs.reverse()
        systems.append(recs)
    return {"sys": systems, "cs": s.bool(.4), "T": s.bool(.25), "nconf": s.int(0, 10) / 10., "ragged": ragged,
            "eol": not s.bool(.15), "comment": s.bool(.2)}


def mismatch(case):
    """True if the systems do not go through the same files and channels (a system may stop early)."""
    q = [[(f, c) for f, c, chunks in recs if any(chunks)] for recs in case["sys"]]
    while any(q):
        heads = {x[0] for x in q if x}
        if len(heads) > 1:
            return True
        h = heads.pop()
        q = [x[1:] if x else x for x in q]
    return False


def segments(streams):
    """Splits parallel lists of (t1, t2, ...) words at silences common to all systems: rover looks for a gap of
    more than 1 s after a word of the first system at which every other system also has a gap."""
    n = len(streams)
    INF = 1e7
    pos = [0] * n
    out = []
    gap = lambda ws, i: (ws[i][1], ws[i + 1][0] if i + 1 < len(ws) else INF)
    while any(pos[i] < len(streams[i]) for i in range(n)):
        end = None
        for j in range(pos[0], len(streams[0])):
            b, e = gap(streams[0], j)
            if not e > b + 1:
                continue
            cand = [j]
            for i in range(1, n):
                if pos[i] >= len(streams[i]):
                    cand.append(pos[i] - 1)
                    continue
                for k in range(pos[i], len(streams[i])):
                    b2, e2 = gap(streams[i], k)
                    if min(e, e2) - max(b, b2) > 0:
                        b, e = max(b, b2), min(e, e2)
                        cand.append(k)
                        break
                else:
                    cand = None
                    break
            if cand:
                end = cand
                break
        if end is None:
            end = [len(x) - 1 for x in streams]
        out.append([streams[i][pos[i]:end[i] + 1] for i in range(n)])
        pos = [max(p, e + 1) for p, e in zip(pos, end)]
    return out


def write(case, ctx, systems=None):
    names = []
    for i, recs in enumerate(systems or case["sys"]):
        o = [";; a comment\n"] if case["comment"] else []
        for f, c, chunks in recs:
            for ch in chunks:
                for t, d, w, cf in ch:
                    o.append("%s %s %.5f %.5f %s%s\n" % (f, c, t / 32., d / 32., w, "" if cf is None else " %.3f" % cf))
        txt = "".join(o)
        ctx.write("s%d" % i, txt if case["eol"] else txt[:-1])
        names.append("s%d" % i)
    return names


def cmd(case, ctx, names, meth, alpha=1.0):
    o = [ctx.bins["rover"], "-f", "0", "-a", "%g" % alpha, "-c", "%g" % case["nconf"], "-m", meth, "-o", "out"]
    for n in names:
        o += ["-h", n, "ctm"]
    return o + (["-s"] if case["cs"] else []) + (["-T"] if case["T"] else [])


def putat(text):
    """[(file, chan, [(word, t1, t2, conf, tag)])]"""
    out = []
    for ln in text.split("\n")[1:]:
        m = re.match(r"<putative_tag file=(\S+) chan=(\S+) >$", ln)
        if m:
            out.append((m.group(1), m.group(2), []))
            continue
        m = re.match(r'   <attrib tag="(.*)" t1="([-\d.]+)" t2="([-\d.]+)" conf="([-\d.]+)" tag1="(.*)">$', ln)
        if m:
            out[-1][2].append((m.group(1), float(m.group(2)), float(m.group(3)), float(m.group(4)), m.group(5)))
        elif ln not in ("</putative_tag >", ""):
            raise Violation("unexpected line in putative output: %r" % ln)
    return out
