"""C20: csrfilt applies the mapping rules to the transcript field, and to nothing else."""
import re

from checks import c19
from vf import build as B
from vf.engine import Discard, Suite, Violation

RULE = ("A case is one transcript file (trn, stm, ctm, rttm or txt; comments, optional words, hyphens, mixed case), a rule file with input-dependent sections, and options (-s, -e, -dh, -t). "
        "One evaluation is one csrfilt.sh run, compared line by line with a model. Non-trivial: the text of some line changes other than by case; counted by distinct inputs.")
ASSUMPTIONS = ["blank lines only in txt, no doubled hyphens, no slash in ctm words outside alternations, rules neither match blanks alone nor leave half a parenthesis",
               "rfilter1 itself is covered by C19; its model is reused here"]
FMTS = ["trn", "stm", "ctm", "rttm", "txt"]
TYPES = ["lex", "fp", "un-lex", "for-lex", "alpha", "acronym", "interjection", "propernoun", "other"]
L = "latin-1"


def parens_ok(t):
    """Optional words: parentheses are balanced and not nested."""
    d = 0
    for c in t:
        d += (c == "(") - (c == ")")
        if d not in (0, 1):
            return False
    return d == 0


def filt(case, text):
    """The transcript of one line (blanks collapsed) -> its filtered form, blanks collapsed."""
    if case["up"]:
        text = re.sub("[a-z]", lambda m: m.group().upper(), text)
        if case["ext"]:
            text = re.sub("[\xe0-\xff]", lambda m: chr(ord(m.group()) - 32), text)
    t = " " + text.replace("(", "( ").replace(")", " )") + " "
    rules = [r for sec in case["secs"] if applies(case, sec) for r in sec["rules"]]
    conf = {"rules": rules, "case": case["cs"], "copy": True}
    t = apply_rules(conf, t)
    if case["dh"]:
        if "--" in t:
            raise Discard()
        t = "".join(" " if c == "-" and 0 < i < len(t) - 1 and t[i - 1] not in "( " and t[i + 1] not in ") " else c for i, c in enumerate(t))
    out, inside = [], False
    for w in t.split():
        if w in "()":
            inside = w == "("
        else:
            out.append("(%s)" % w if inside else w)
    return out


def apply_rules(conf, t):
    lat = {"rules": [{k: r[k] for k in "abcd"} for r in conf["rules"]], "case": conf["case"], "copy": True}
    # c19.model encodes rules as utf-8; map through latin-1 so that bytes agree
    lat["rules"] = [{k: _L(v) for k, v in r.items()} for r in lat["rules"]]
    return c19.model(lat, t.encode(L))[0].decode(L)


class _L(str):
    def encode(self, *a):
        return str.encode(self, L)


def applies(case, sec):
    if sec["exp"] is None:
        return True
    e = sec["exp"].lower()
    return bool(re.search(e, case["fmt"]) or re.search(e, case["purp"] or ""))


class Filter(Suite):
    name, quick, thorough = "filter", 3600, 60000

    def gen(self, s):
        fmt = s.choice(FMTS)
        base = s.choice([["a", "b", "ab", "ba", "A"], ["uh", "um", "mm", "hm", "okay", "ok"], ["don't", "won't", "i", "I'm", "mister", "mr.", "mr"],
                         ["caf\xe9", "\xc9t\xe9", "na\xefve", "x"]])
        word = lambda: "-".join(s.choice(base) for _ in range(s.weighted((6, 1), (2, 2), (1, 3))))
        paren_rhs = s.bool(.15)

        def token(multi):
            w = word()
            if pool and s.bool(.4):
                w = s.choice(pool)
            k = s.int(0, 11)
            if k == 0:
                return w + "-"
            if k == 1:
                return "-" + w
            if k == 2 and not paren_rhs:
                return "(%s)" % w if s.bool() else "(%s-)" % w
            if k == 3 and not paren_rhs and multi:
                return "(%s)" % " ".join(word() for _ in range(s.int(2, 3)))
            if k == 4 and multi:
                return "{ %s / %s }" % (word(), s.choice([word(), "@", word() + " " + word()]))
            return w

        def rule():
            a = word()
            if s.bool(.15):
                a += " " + word()
            k = s.int(0, 9)
            b = "" if k == 0 else "%s %s" % (word(), word()) if k < 4 else "{%s / %s}" % (word(), s.choice([word(), word() + " " + word()])) if k == 4 else word()
            if k == 5 and paren_rhs:
                b = "(%s)" % b
            c = d = ""
            if s.bool(.7):
                c = d = " "
            elif s.bool(.3):
                c, d = s.choice([(" ", ""), ("", " "), (word()[:3], "")])
            return {"a": s.choice([a, a.upper(), a.lower()]), "b": s.choice([b, b.upper()]), "c": c, "d": d, "q": 15, "note": s.bool(.2), "sp": 0, "slot": "__"}
        exps = [fmt, "stm|ctm", "(trn|txt)", "CTM", "hyp", "ref", "rttm|hyp", ".*", "ctm", "stm", "trn", "txt", "rttm"]
        secs = [{"exp": None if i == 0 else s.choice(exps), "rules": s.list(rule, 0, 6, 2)} for i in range(s.int(1, 4))]
        pool = [r["a"] for sec in secs for r in sec["rules"] if " " not in r["a"]]
        lines = []
        for _ in range(s.int(0, 7)):
            k = s.int(0, 9)
            if k == 0:
                lines.append({"k": "comment", "t": s.choice([";;", ";; a (b) comment  mm", ";; NAME uh\tum (", ";;x"])})
                continue
            ln = {"k": "text", "w": [token(fmt in ("trn", "stm", "txt")) for _ in range(1 if fmt in ("ctm", "rttm") else s.int(0, 5))],
                  "sep": s.choice([" ", " ", "  ", "\t", " \t "]), "lead": s.choice(["", "", " ", "\t"]), "trail": s.choice(["", "", " ", "\t "])}
            if fmt in ("ctm", "rttm"):
                ln["w"] = [w for w in ln["w"] if " " not in w] or ["um"]
            ln["b"], ln["d"] = s.int(0, 90000) / 100, s.int(1, 300) / 100
            ln["conf"] = s.choice([None, "0.5", "1.000", "NA", ".25", "1", "-1.5"])
            ln["lab"] = s.choice([None, "<o,f0,male>", "<O>"])
            ln["id"] = s.choice(["spk-%d", "f_uh_%d", "um-Ab-%d"]) % s.int(1, 9)
            ln["type"] = s.choice(TYPES + ["frag", "non-lex", "SPEAKER"])
            lines.append(ln)
        return {"fmt": fmt, "secs": secs, "lines": lines, "up": not s.bool(.25), "ext": s.bool(.3), "dh": s.bool(.4), "purp": s.choice([None, None, "ref", "hyp"]),
                "cs": s.bool(), "eol": not s.bool(.1), "dflt": s.bool(.5), "file": s.choice(["um", "en_4077", "a-b"]), "chan": s.choice(["A", "1", "a"])}

    def glm(self, case):
        head = c19.Rules().glm({"flag": ";;", "quote": '"', "bool": 0, "case": case["cs"], "copy": True, "max": None, "fmt": "NIST1", "hdr": range(6), "rules": [], "desc": "x", "junk": 0})
        o = [head]
        for sec in case["secs"]:
            if sec["exp"] is not None:
                o.append(';; INPUT_DEPENDENT_APPLICATION = "%s"\n' % sec["exp"])
            for r in sec["rules"]:
                o.append("[%s] => [%s]" % (r["a"], r["b"]))
                if r["c"] or r["d"]:
                    o.append(" / " + ("[%s] " % r["c"] if r["c"] else "") + "__" + (" [%s]" % r["d"] if r["d"] else ""))
                o.append(" ;; why\n" if r["note"] else "\n")
        return "".join(o)

    def lines(self, case):
        """[(input line, expected output lines, changed)]; an expected line is a list of fields."""
        out = []
        fmt = case["fmt"]
        for ln in case["lines"]:
            if ln["k"] == "comment":
                out.append((ln["t"], [ln["t"]], False))
                continue
            sp = ln["sep"]
            toks = " ".join(ln["w"]).split()
            text = sp.join(toks)
            want = filt(case, " ".join(toks))
            if fmt == "trn":
                idf = "(%s)" % ln["id"]
                f = [ln["lead"] + text + sp + idf + ln["trail"]]
                out.append((f[0], [want + [idf]], [x.upper() for x in toks] != [x.upper() for x in want]))
            elif fmt == "txt":
                out.append((ln["lead"] + text + ln["trail"], [want], [x.upper() for x in toks] != [x.upper() for x in want]))
            elif fmt == "stm":
                h = [case["file"], case["chan"], ln["id"], "%.2f" % ln["b"], "%.2f" % (ln["b"] + ln["d"])] + ([ln["lab"]] if ln["lab"] else [])
                out.append((ln["lead"] + sp.join(h + toks) + ln["trail"], [h + want], [x.upper() for x in toks] != [x.upper() for x in want]))
            elif fmt == "ctm":
                h = [case["file"], case["chan"], "%.2f" % ln["b"], "%.2f" % ln["d"]]
                tail = [ln["conf"]] if ln["conf"] else []
                inp = ln["lead"] + sp.join(h + toks + tail) + ln["trail"]
                want = " ".join(want).replace("{", " { ").replace("}", " } ").split()
                alts, cur = [], []
                for w in want:
                    if w in "{}":
                        continue
                    if w == "/":
                        alts.append(cur)
                        cur = []
                    else:
                        cur.append(w)
                alts.append(cur)
                exp = []
                if want:
                    mark = lambda m: exp.append(h[:2] + ["*", "*", m])
                    if len(alts) > 1:
                        mark("<ALT_BEGIN>")
                    for i, al in enumerate(alts):
                        if i:
                            mark("<ALT>")
                        for j, w in enumerate(al):
                            d = ln["d"] / len(al)
                            exp.append(h[:2] + [ln["b"] + j * d, d, w] + tail)
                    if len(alts) > 1:
                        mark("<ALT_END>")
                out.append((inp, exp, [toks[0].upper()] != [x.upper() for x in want]))
            else:
                lex = ln["type"] in TYPES
                t = ["SPEAKER" if ln["type"] == "SPEAKER" else "LEXEME", case["file"], case["chan"], "%.2f" % ln["b"], "%.2f" % ln["d"]]
                tail = ["<NA>" if ln["type"] == "SPEAKER" else ln["type"], ln["id"], ln["conf"] or "<NA>"]
                inp = ln["lead"] + sp.join(t + toks + tail) + ln["trail"]
                if lex:
                    w = " ".join(want)
                    if " " in w:
                        w = "_".join(re.sub(r"([{}/@])", r" \1 ", w).split())
                    out.append((inp, [t + [w] + tail] if w else [], toks[0].upper() != w.upper()))
                else:
                    out.append((inp, [t + toks + tail], False))
        return out

    def cmd(self, case, ctx):
        o = [] if case["fmt"] == "trn" and case["dflt"] else ["-i", case["fmt"]]
        o += ([] if case["up"] else ["-s"]) + (["-e"] if case["ext"] else []) + (["-dh"] if case["dh"] else []) + (["-t", case["purp"]] if case["purp"] else [])
        return ["sh", ctx.bins["csrfilt"]] + o + ["g.glm"]

    def env(self, ctx):
        return {"PATH": ctx.bins["rf"] + ":/usr/bin:/bin"}

    def check(self, case, ctx):
        g = self.glm(case)
        ctx.write("g.glm", g.encode(L))
        exp = self.lines(case)
        for r in (r for sec in case["secs"] for r in sec["rules"]):
            if "(" in r["b"] and any("(" in t for ln in case["lines"] if ln["k"] == "text" for t in ln["w"]):
                return
        # an alternation written by a rule in the middle of a ctm word, or inside an optional word, has no defined meaning
        for ln in case["lines"]:
            if ln["k"] != "text":
                continue
            w = " ".join(filt(case, " ".join(" ".join(ln["w"]).split())))
            if re.search(r"\([^)]*[{}/]|[{}]\)", w) or case["fmt"] == "ctm" and "{" in w and not re.match(r"^\{[^{}]*\}$", w):
                return
            if re.search(r"\([^)]*\(|\)[^( ]|[^ ({/]\(", w) or re.search(r"(\{|/)\s*(/|\})", w):
                return
        text = "".join(l + "\n" for l, _, _ in exp)
        if not case["eol"] and exp and exp[-1][0].strip():
            text = text[:-1]
        rc, out, err = ctx.run(self.cmd(case, ctx), stdin=text.encode(L), env=self.env(ctx), text=False)
        out = out.decode(L)
        ctx.evals += 1
        show = "options %s\nrules:\n%s\ninput:\n%s\noutput:\n%s\n" % (self.cmd(case, ctx)[2:], g, text, out)
        got = out.split("\n")
        if got and got[-1] == "":
            got.pop()
        want = [e for _, es, _ in exp for e in es]
        if len(got) != len(want):
            raise Violation(show + "%d lines written, %d expected" % (len(got), len(want)))
        for g1, w in zip(got, want):
            if isinstance(w, str):
                if g1 != w:
                    raise Violation(show + "comment %r became %r" % (w, g1))
                continue
            if case["fmt"] == "ctm" and not isinstance(w[2], str):
                f = g1.split(" ")
                ok = len(f) == len(w) and f[:2] + f[4:] == w[:2] + w[4:]
                try:
                    ok = ok and abs(float(f[2]) - w[2]) < .0016 and abs(float(f[3]) - w[3]) < .0016
                except ValueError:
                    ok = False
                w = " ".join(str(x) for x in w)
            else:
                w = " ".join(w)
                ok = g1 == w
            if not ok:
                raise Violation(show + "line %r, expected %r" % (g1, w))
        ctx.label(case["fmt"], "-dh" if case["dh"] else "", "-s" if not case["up"] else "", "deleted" if any(not es for _, es, _ in exp) else "",
                  "split" if any(len(es) > 1 for _, es, _ in exp) else "")
        if any(c for _, _, c in exp):
            ctx.nontrivial((text, g, case["up"], case["ext"], case["dh"], case["purp"], case["fmt"]))


class Refused(Filter):
    """Input that cannot be filtered ends with exit status 1."""
    name, quick, thorough = "refused", 800, 8000

    def gen(self, s):
        c = Filter.gen(self, s)
        c["kind"] = s.choice(["parens", "nomap", "badrule", "opt", "short"])
        c["bad"] = s.choice(["(", ")", "((a)", "(a))", "(a (b) c)", ") a (", "a (b"])
        c["at"] = s.int(0, 9)
        return c

    def check(self, case, ctx):
        k, fmt = case["kind"], case["fmt"]
        text = [l for l, _, _ in self.lines(case)]
        cmd = self.cmd(case, ctx)
        g = self.glm(case)
        if k == "parens":
            if fmt in ("ctm", "rttm") and " " in case["bad"]:
                case["bad"] = "(x"
            t = {"trn": "a %s b (id)", "stm": "f A s 1 2 a %s b", "txt": "a %s b", "ctm": "f A 1 2 %s", "rttm": "LEXEME f A 1 2 %s lex spk <NA>"}[fmt] % case["bad"]
            text.insert(case["at"] % (len(text) + 1), t)
        elif k == "nomap":
            cmd[-1] = "nosuch.glm"
        elif k == "badrule":
            if case["at"] % 2:
                g = g.replace('"NIST1"\n', '"NIST9"\n[zzz] => [zz]\n')
            else:
                g = g.rstrip("\n") + "\nfoo bar\n"
                if not all(applies(case, s) for s in case["secs"][-1:]):
                    return
        elif k == "opt":
            cmd[2:2] = [["-i", "xyz"], ["-t", "both"], ["-q"]][case["at"] % 3]
        else:
            if fmt in ("txt", "rttm"):
                return
            text.insert(case["at"] % (len(text) + 1), {"trn": "no id here", "stm": "f A", "ctm": "f A 1.0 2.0"}[fmt])
        ctx.write("g.glm", g.encode(L))
        rc, out, err = ctx.run(cmd, stdin="".join(t + "\n" for t in text).encode(L), env=self.env(ctx), ok=None, text=False)
        ctx.evals += 1
        if rc != 1 or not (out.strip() or err.strip()):
            raise Violation("%s: %s\nrules:\n%s\ninput:\n%s\nexit status %d\noutput:\n%s%s" % (k, cmd[2:], g, "\n".join(text), rc, out.decode(L), err))
        ctx.label(k)
        ctx.nontrivial((k, fmt, text, g, cmd[2:]))


def build():
    return {"csrfilt": B.perl() + "/csrfilt.sh", "rf": B.rfilter1()}


SUITES = [Filter(), Refused()]
