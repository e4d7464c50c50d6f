"""C19: rfilter1 applies the first matching rule at every position."""
from vf import build as B
from vf.engine import Suite, Violation

RULE = ("A case is one rule file (header, comments, 0 to 14 rules with optional contexts, bracketed or bare) and up to 6 input lines. One evaluation is one rfilter1 run; "
        "its output is compared byte for byte with a linear-search model of the documented algorithm. Non-trivial: a rule fires; counted by distinct inputs.")
ASSUMPTIONS = ["rule lines shorter than 131 bytes; no slash in contexts, no underscore in left contexts, bare strings have no slash on the right-hand side"]
fold = lambda b: bytes(c - 32 if 97 <= c <= 122 else c for c in b)


def model(case, line):
    cs = case["case"]
    f = (lambda b: b) if cs else fold
    rules = [(f(r["a"].encode()), r["b"].encode(), f(r["c"].encode()), f(r["d"].encode())) for r in case["rules"]]
    x = f(line)
    out, i, fired = [], 0, 0
    while i < len(line):
        for a, b, c, d in rules:
            if a and x.startswith(a, i) and x[:i].endswith(c) and x.startswith(d, i + len(a)):
                out.append(b)
                i += len(a)
                fired += 1
                break
        else:
            if case["copy"]:
                out.append(line[i:i + 1])
            i += 1
    return b"".join(out), fired


class Rules(Suite):
    name, quick, thorough = "rules", 20000, 300000

    def gen(self, s):
        alpha = s.choice(["ab ", "abAB ", "abcAB '-\u00e9\u00c9", "xyzXY .,\u4e2d\u6587 "])
        st = lambda lo, hi: "".join(s.choice(alpha) for _ in range(s.int(lo, hi)))

        def rule():
            r = {"a": st(1, 4), "b": st(0, 4), "c": st(1, 3) if s.bool(.35) else "", "d": st(1, 3) if s.bool(.35) else "", "q": s.int(0, 15), "note": s.bool(.2),
                 "sp": s.int(0, 2), "slot": s.choice(["__", "_", "____"])}
            if s.bool(.15):
                r["c"], r["d"] = " ", " "
            k = s.int(0, 9)
            if k == 0:
                r["b"] = "{%s / %s}" % (st(1, 3), st(1, 3))
                r["q"] |= 2
            elif k == 1:
                r["a"] = st(0, 2) + "/" + st(0, 1)
            return r
        rules = s.list(rule, 0, 14, 4)
        lines = []
        for _ in range(s.int(0, 6)):
            t = ""
            for _ in range(s.int(0, 12)):
                if rules and s.bool(.5):
                    r = s.choice(rules)
                    t += (r["c"] if s.bool() else "") + (r["a"].swapcase() if s.bool(.15) else r["a"]) + (r["d"] if s.bool() else "")
                else:
                    t += st(1, 4)
            if s.bool(.02):
                t = (t or "a b ") * s.int(10, 120)
            lines.append(t)
        return {"rules": rules, "lines": lines, "case": s.bool(), "copy": s.bool(.8), "eol": not s.bool(.2), "flag": s.choice([";;", ";", "#", "%%"]),
                "hdr": s.shuffle(range(6)), "max": s.choice([None, None, len(rules), len(rules) + 3]), "fmt": s.choice([None, "NIST1", "NIST2"]),
                "bool": s.int(0, 2), "quote": s.choice("\"'"), "junk": s.int(0, 3), "desc": s.choice(["rules", "a list in some format", "names, case_sensitive ones"])}

    def glm(self, case):
        fl, q = case["flag"], case["quote"]
        tv = lambda b: (["T", "yes", "TRUE"] if b else ["F", "No", "FALSE"])[case["bool"]]
        o = [fl + " first line\n"]
        h = ["* NAME = %sx.glm%s\n" % (q, q), "* desc : %s%s%s\n" % (q, case["desc"], q), "* CASE_SENSITIVE = %s%s%s\n" % (q, tv(case["case"]), q),
             "* Copy_No_Hit = %s%s%s\n" % (q, tv(case["copy"]), q)]
        h.append("* MAX_NRULES = %s%d%s\n" % (q, case["max"], q) if case["max"] is not None else "")
        h.append("* FORMAT = %s%s%s\n" % (q, case["fmt"], q) if case["fmt"] else "")
        for i in case["hdr"]:
            o.append(h[i])
        for k, r in enumerate(case["rules"]):
            if case["junk"] and k % (case["junk"] + 1) == 0:
                o.append("%s a note => about / the [ rules ]\n\n" % fl)

            def w(t, bit, side=""):
                need = (r["q"] >> bit & 1) or t != t.strip() or t == "" or t[0] in "[\"" and t[-1] in "]\"" or "/" in t and side == "b"
                return "[%s]" % t if need else t
            ln = " " * r["sp"] + w(r["a"], 0) + " => " + w(r["b"], 1, "b")
            if r["c"] or r["d"]:
                ln += " / " + (w(r["c"], 2) + " " if r["c"] else "") + r["slot"] + (" " + w(r["d"], 3) if r["d"] else "")
            o.append(ln + (" %s why" % fl if r["note"] else "") + "\n")
        return "".join(o)

    def check(self, case, ctx):
        if case["max"] is not None and case["max"] < 1:
            case["max"] = None
        ctx.write("g", self.glm(case))
        text = "".join(l + "\n" for l in case["lines"])
        if not case["eol"]:
            text = text[:-1]
        text = text.encode()
        rc, out, err = ctx.run([ctx.bins["rfilter1"], "g"], stdin=text, text=False)
        want, fired = b"", 0
        for ln in text.split(b"\n"):
            w, f = model(case, ln)
            fired += f
            want += w + (b"\n" if case["copy"] else b"")
        if case["copy"]:
            want = want[:-1]
        if out != want:
            raise Violation("rule file:\n%sinput %r\noutput %r\nexpected %r" % (self.glm(case), text, out, want))
        ctx.evals += 1
        ctx.label("case sensitive" if case["case"] else "case folded", "copied" if case["copy"] else "unmatched text dropped")
        if fired:
            ctx.nontrivial((case["rules"], text, case["case"], case["copy"]))


class Errors(Rules):
    """Rule files that cannot be applied are refused: non-zero exit, no filtered text."""
    name, quick, thorough = "refused", 1500, 15000

    def gen(self, s):
        c = Rules.gen(self, s)
        c["kind"] = s.choice(["arrow", "many", "format", "missing", "empty", "unquoted"])
        c["at"] = s.int(0, 13)
        if not c["rules"]:
            c["rules"] = [{"a": "a", "b": "b", "c": "", "d": "", "q": 0, "note": False, "sp": 0, "slot": "__"}]
        c["lines"].append("some text")
        return c

    def check(self, case, ctx):
        k = case["kind"]
        if k == "many":
            case["max"] = max(0, len(case["rules"]) - 1 - case["at"] % 3)
        if k == "format":
            case["fmt"] = "NIST3"
        g = self.glm(case)
        if k == "arrow":
            ls = g.split("\n")
            at = [i for i, l in enumerate(ls) if " => " in l and not l.startswith(case["flag"])]
            i = at[case["at"] % len(at)]
            ls[i] = ls[i].replace("=>", "->")
            g = "\n".join(ls)
        if k == "unquoted":
            g = g.replace("\n", "\n* CASE_SENSITIVE = T\n", 1)
        if k != "missing":
            ctx.write("g", "" if k == "empty" else g)
        rc, out, err = ctx.run([ctx.bins["rfilter1"], "g"], stdin="".join(l + "\n" for l in case["lines"]), ok=None)
        if rc == 0 or not (out + err).strip():
            raise Violation("a rule file that is %s was accepted: exit %d, output %r\n%s" % (k, rc, out, g))
        if "some text" in out:
            raise Violation("a rule file that is %s: text was still filtered: %r" % (k, out))
        ctx.evals += 1
        ctx.label(k)
        ctx.nontrivial((k, g))


def build():
    return {"rfilter1": B.rfilter1(asan=True) + "/rfilter1"}


SUITES = [Rules(), Errors()]
