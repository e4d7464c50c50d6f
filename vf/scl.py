"""Shared models for the sclite family: transcript ASTs, the reference
alignment (an exhaustive DP over the two word networks) and output parsers."""
import re
from .engine import Violation

# A transcript is a list of items; an item is a word (str) or ["alt", [seq, seq, ...]]
# where a seq is itself a transcript ([] stands for the null alternative "@").


def render(seq):
    out = []
    for it in seq:
        if isinstance(it, str):
            out.append(it)
        else:
            out.append("{ " + " / ".join(render(a) if a else "@" for a in it[1]) + " }")
    return " ".join(out)


def has_alt(seq):
    return any(not isinstance(i, str) for i in seq)


class Net:
    """DAG: edges[node] = list of (word or None, next); node numbers are topological."""

    def __init__(self, seq):
        self.edges = []
        end = self._seq(seq, self._new())
        self.end = end
        # renumber topologically (by construction joins come last, but nested
        # alternatives are built depth first, so sort explicitly)
        order, seen = [], set()

        def visit(n):
            stack = [(n, 0)]
            seen.add(n)
            while stack:
                v, i = stack.pop()
                if i < len(self.edges[v]):
                    stack.append((v, i + 1))
                    w = self.edges[v][i][1]
                    if w not in seen:
                        seen.add(w)
                        stack.append((w, 0))
                else:
                    order.append(v)
        visit(0)
        order.reverse()
        num = {v: i for i, v in enumerate(order)}
        self.edges = [[(w, num[t]) for w, t in self.edges[v]] for v in order]
        self.end = num[end]
        self.preds = [[] for _ in self.edges]
        for v, es in enumerate(self.edges):
            for w, t in es:
                self.preds[t].append((w, v))

    def _new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def _seq(self, seq, cur):
        for it in seq:
            if isinstance(it, str):
                n = self._new()
                self.edges[cur].append((it, n))
                cur = n
            else:
                ends = []
                for a in it[1]:
                    if a:
                        e = self._seq(a, cur)
                        ends.append(e)
                    else:
                        ends.append(None)
                n = self._new()
                for e in ends:
                    self.edges[cur if e is None else e].append((None, n))
                cur = n
        return cur

    def accepts(self, words):
        """is this word list one of the readings of the transcript?"""
        cur = self._close({0})
        for w in words:
            nxt = {t for v in cur for x, t in self.edges[v] if x is not None and x == w}
            if not nxt:
                return False
            cur = self._close(nxt)
        return self.end in cur

    def _close(self, s):
        s = set(s)
        st = list(s)
        while st:
            v = st.pop()
            for w, t in self.edges[v]:
                if w is None and t not in s:
                    s.add(t)
                    st.append(t)
        return s


def fold(w, case_sens):
    # sclite folds ASCII only in its default encoding
    return w if case_sens else "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in w)


def map_words(seq, f):
    return [f(i) if isinstance(i, str) else ["alt", [map_words(a, f) for a in i[1]]] for i in seq]


class Words:
    """the word comparison and cost model of sclite's default alignment"""

    def __init__(self, frag=False, opt=False):
        self.frag, self.opt = frag, opt

    def is_opt(self, w):
        return self.opt and len(w) >= 2 and w[0] == "(" and w[-1] == ")"

    def core(self, w):
        return w[1:-1] if self.is_opt(w) else w

    def is_frag(self, w):
        return self.frag and (w[-1] == "-" or w[0] == "-" or (self.is_opt(w) and w[-2] == "-"))

    def equal(self, r, h):
        a, b = self.core(r).encode("utf-8", "surrogateescape"), self.core(h).encode("utf-8", "surrogateescape")
        if self.is_frag(r) or self.is_frag(h):
            if a[:1] == b"-" and len(a) > 1:
                return len(b) >= len(a) - 1 and b.endswith(a[1:])
            if a[-1:] == b"-" and len(a) > 1:
                return b.startswith(a[:-1])
            if b[:1] == b"-" and len(b) > 1:
                return len(a) >= len(b) - 1 and a.endswith(b[1:])
            if b[-1:] == b"-" and len(b) > 1:
                return a.startswith(b[:-1])
        return a == b

    def gap(self, w):
        return 2 if self.is_opt(w) else 3

    def sub(self, r, h):
        return 0 if self.equal(r, h) else 4


def best_cost(rn, hn, W):
    """minimum alignment cost over every reading of both networks"""
    INF = float("inf")
    ng, mg = len(rn.edges), len(hn.edges)
    hp = hn.preds
    memo = {}

    def sub(a, b):
        k = (a, b)
        if k not in memo:
            memo[k] = W.sub(a, b)
        return memo[k]

    D = []
    for i in range(ng):
        row = [INF] * mg
        for j in range(mg):
            best = 0 if i == 0 and j == 0 else INF
            for w, p in rn.preds[i]:
                c = D[p][j] + (0 if w is None else W.gap(w))
                if c < best:
                    best = c
            for w, p in hp[j]:
                c = row[p] + (0 if w is None else W.gap(w))
                if c < best:
                    best = c
            for w, p in rn.preds[i]:
                if w is None:
                    continue
                dp = D[p]
                for x, q in hp[j]:
                    if x is None:
                        continue
                    c = dp[q] + sub(w, x)
                    if c < best:
                        best = c
            row[j] = best
        D.append(row)
    return D[rn.end][hn.end]


def flat_cost(ref, hyp, W):
    """same for two plain word lists (fast path)"""
    prev = [0]
    for h in hyp:
        prev.append(prev[-1] + W.gap(h))
    memo = {}
    for r in ref:
        g = W.gap(r)
        cur = [prev[0] + g]
        for j, h in enumerate(hyp):
            k = (r, h)
            s = memo.get(k)
            if s is None:
                s = memo[k] = W.sub(r, h)
            c = prev[j] + s
            d = prev[j + 1] + g
            if d < c:
                c = d
            d = cur[j] + W.gap(h)
            if d < c:
                c = d
            cur.append(c)
        prev = cur
    return prev[-1]


# ------------------------------------------------------------- SGML output
_ATTR = re.compile(r'(\w+)="((?:[^"\\]|\\.)*?)"(?=[ >])')
_TOK = re.compile(r'([CSDIUMT]),("(?:[^"])*")?,("(?:[^"])*")?((?:,[^:]*?)?)(?=:[CSDIUMT],|$)')


def parse_sgml(text):
    """-> list of systems {attrs, labels, categories, speakers:[{id, paths:[{attrs, toks:[(eval, ref, hyp, rest)]}]}]}"""
    systems, cur, spk, path = [], None, None, None
    for ln in text.split("\n"):
        if ln.startswith("<SYSTEM"):
            cur = {"attrs": dict(_ATTR.findall(ln)), "labels": [], "categories": [], "speakers": []}
            systems.append(cur)
        elif ln.startswith("<LABEL"):
            cur["labels"].append(dict(_ATTR.findall(ln)))
        elif ln.startswith("<CATEGORY"):
            cur["categories"].append(dict(_ATTR.findall(ln)))
        elif ln.startswith("<SPEAKER"):
            spk = {"id": dict(_ATTR.findall(ln))["id"], "paths": []}
            cur["speakers"].append(spk)
        elif ln.startswith("<PATH"):
            path = {"attrs": dict(_ATTR.findall(ln)), "toks": []}
            spk["paths"].append(path)
        elif ln.startswith("</"):
            if ln.startswith("</PATH"):
                path = None
        elif path is not None and ln:
            path["toks"] += parse_toks(ln)
    return systems


def parse_toks(ln):
    pos, out = 0, []
    while pos < len(ln):
        m = _TOK.match(ln, pos)
        if not m:
            raise Violation("unparsable SGML path text: %r at %d" % (ln[:300], pos))
        f = lambda x: (x[1:-1] or None) if x else None
        out.append((m[1], f(m[2]), f(m[3]), m[4][1:].split(",") if m[4] else []))
        pos = m.end() + 1
    return out


def counts(toks):
    c = {"C": 0, "S": 0, "D": 0, "I": 0}
    for t in toks:
        c[t[0]] += 1
    return c["C"], c["S"], c["D"], c["I"]


def check_alignment(toks, ref, hyp, W, what, expected=None):
    """the reported alignment is one of the two transcripts and is optimal"""
    rn, hn = Net(ref), Net(hyp)
    rw = [t[1] for t in toks if t[1] is not None]
    hw = [t[2] for t in toks if t[2] is not None]
    if not rn.accepts(rw):
        raise Violation("%s: reference side %r is not a reading of %r" % (what, rw, render(ref)))
    if not hn.accepts(hw):
        raise Violation("%s: hypothesis side %r is not a reading of %r" % (what, hw, render(hyp)))
    cost = 0
    for ev, r, h, _ in toks:
        if r is None and h is None:
            raise Violation("%s: empty alignment token" % what)
        if ev == "C":
            if r is None or h is None:
                w = r if h is None else h
                if not W.is_opt(w):
                    raise Violation("%s: %r counted correct with nothing on the other side" % (what, w))
                cost += W.gap(w)
            elif not W.equal(r, h):
                raise Violation("%s: %r/%r counted correct but the words differ" % (what, r, h))
        elif ev == "S":
            if r is None or h is None or W.equal(r, h):
                raise Violation("%s: %r/%r is not a substitution" % (what, r, h))
            cost += 4
        elif ev == "D":
            if h is not None or W.is_opt(r):
                raise Violation("%s: %r/%r is not a deletion" % (what, r, h))
            cost += 3
        elif ev == "I":
            if r is not None or W.is_opt(h):
                raise Violation("%s: %r/%r is not an insertion" % (what, r, h))
            cost += 3
        else:
            raise Violation("%s: unexpected evaluation %s" % (what, ev))
    if expected is None:
        expected = flat_cost(ref, hyp, W) if not has_alt(ref) and not has_alt(hyp) else best_cost(rn, hn, W)
    if cost != expected:
        raise Violation("%s: alignment cost %d, but the minimum is %d\nREF %s\nHYP %s\nALI %r" %
                        (what, cost, expected, render(ref), render(hyp), [t[:3] for t in toks]))
    return cost


# ------------------------------------------------------------- generators
BASE = ["a", "b", "c", "d", "ab", "abc", "bc", "cab"]
ODD = ["it's", "x_y", "1", "<uh>", "a.b", "z,w", "\u00e9t\u00e9", "\u4e2d\u6587", "%hes", "a&b", "w=1", "[n]", "#", "a:b", "$", "~", "?", "e!"]


def gen_word(s, o):
    w = s.weighted((24, 0), (3, 1), (3, 2), (1, 3))
    if w == 0:
        x = s.choice(BASE)
    elif w == 3:
        # words that differ at their end only
        x = "word" * s.choice([2, 4, 8, 16, 30]) + s.choice("abc")
    elif w == 1:
        x = s.choice(ODD)
    else:
        x = "".join(s.choice("abcdefgh") for _ in range(s.int(1, 12)))
    if o.get("case") and s.bool(.25):
        x = x.upper() if s.bool() else x.capitalize()
    if o.get("frag") and s.bool(.3):
        x = s.choice([x + "-", "-" + x, x[:1] + "-", "-" + x[-1:], "-" + x + "-"])
    if o.get("opt") and s.bool(.25):
        x = "(" + x + ")"
    return x


def gen_seq(s, o, mean, depth=0, lo=0, hi=60):
    def item():
        if o.get("alt") and depth < o.get("depth", 2) and s.bool(o["alt"]):
            n = s.weighted((6, 2), (3, 3), (1, 4))
            alts = [[] if s.bool(.2) else gen_seq(s, o, 1.2, depth + 1, 1, 5) for _ in range(n)]
            return ["alt", alts]
        return gen_word(s, o)
    return s.list(item, lo, hi, mean)


def reading(s, seq):
    """a random reading of a transcript"""
    out = []
    for it in seq:
        if isinstance(it, str):
            out.append(it)
        else:
            out += reading(s, s.choice(it[1]))
    return out


def corrupt(s, words, o, p=.35):
    """a hypothesis derived from a reading by random edits"""
    out = []
    for w in words:
        if s.bool(p):
            k = s.draw(4)
            if k == 0:
                continue
            if k == 1:
                out.append(gen_word(s, o))
            elif k == 2:
                out += [w, gen_word(s, o)]
            elif k == 3:
                out += [w, w]
            else:
                out.append(w.strip("()").strip("-") or "a")
        else:
            out.append(w)
    return out


def reading_first(seq):
    """the reading that takes the first alternative everywhere"""
    out = []
    for it in seq:
        out += [it] if isinstance(it, str) else reading_first(it[1][0])
    return out
