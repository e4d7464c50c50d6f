"""C28: acomp and def_art divide the words they should, and change nothing else."""
import re

from vf import build as B
from vf.engine import Discard, Suite, Violation

RULE = ("A case is one transcript (txt, ctm or stm; comments, labels, optional words, fragments, confidences, any white space) and, for acomp and def_art -s, a lexicon. One evaluation is one run of acomp.pl or def_art.pl compared "
        "record by record with a model. Non-trivial: some word is divided; counted by distinct inputs.")
ASSUMPTIONS = ["white space between fields and words is not compared", "acomp: upper-cases its text; of several ways to divide a word the one with the longest first part, then second part ..., is taken; lexicon entries that give one spelling two readings are not generated",
               "def_art: romanised words carry il+ at most once and no asterisk"]
L = "latin-1"
UP = lambda t: re.sub("[a-z\xe0-\xff]", lambda m: chr(ord(m.group()) - 32), t)


def emit(fmt, recs, conv):
    """[(input line, expected output: str = verbatim, list of field lists otherwise)]"""
    out = []
    for r in recs:
        if r["k"] == "com":
            out.append((r["t"], r["t"]))
            continue
        sp, ws = r["sep"], r["w"]
        if fmt == "txt":
            out.append((r["lead"] + sp.join(ws) + r["trail"], [[x for w in ws for x in conv(w)]]))
        elif fmt == "stm":
            h = ["f-" + r["f"], r["c"], "s_" + r["spk"], r["b"], r["e"]] + ([r["lab"]] if r["lab"] else [])
            out.append((r["lead"] + sp.join(h + ws) + r["trail"], [h + [x for w in ws for x in conv(w)]]))
        else:
            h = ["f-" + r["f"], r["c"]]
            p = conv(ws[0])
            d = float(r["d"]) / len(p)
            out.append((r["lead"] + sp.join(h + [r["b"], r["d"], ws[0]] + r["conf"]) + r["trail"], [h + [float(r["b"]) + i * d, d, w] + r["conf"] for i, w in enumerate(p)]))
    return out


def compare(exp, out, show):
    got = out.split("\n")
    if got[-1:] == [""]:
        got.pop()
    want = [w for _, e in exp for w in ([e] if isinstance(e, str) else e)]
    if len(got) != len(want):
        raise Violation(show + "%d lines written, %d expected" % (len(got), len(want)))
    for g, w in zip(got, want):
        if isinstance(w, str):
            ok = g == w
        else:
            f = g.split()
            ok = len(f) == len(w)
            for a, b in zip(f, w):
                if isinstance(b, str):
                    ok = ok and a == b
                else:
                    try:
                        ok = ok and abs(float(a) - b) < .00051
                    except ValueError:
                        ok = False
        if not ok:
            raise Violation(show + "line %r, expected %r" % (g, w))


def records(s, fmt, tok):
    recs = []
    for _ in range(s.int(0, 6)):
        if fmt == "ctm" and s.bool(.1):
            recs.append({"k": "com", "t": "f 1 * * " + s.choice(["<ALT_BEGIN>", "<ALT>", "<ALT_END>"])})
            continue
        if s.bool(.15):
            recs.append({"k": "com", "t": s.choice([";;", ";; a (b) comment  mm", ";;il+bab fussball"])})
            continue
        b = s.int(0, 9000)
        recs.append({"k": "rec", "w": [tok() for _ in range(1 if fmt == "ctm" else s.int(1 if fmt == "txt" else 0, 5))], "sep": s.choice([" ", " ", "  ", "\t"]), "lead": s.choice(["", "", " "]), "trail": s.choice(["", "", " "]),
                     "f": s.choice(["haus", "x"]), "c": s.choice(["A", "1"]), "spk": s.choice(["il+b", "fussball", "q"]), "b": s.choice(["%.2f", "%.3f"]) % (b / 8), "e": "%.2f" % (b / 8 + 3), "d": s.choice(["%.2f", "%.3f"]) % (s.int(1, 40) / 8),
                     "conf": s.choice([[], [], ["0.75"], ["1"]]), "lab": s.choice([None, None, "<o,f0,male>", "<O>"])})
    return recs


class Acomp(Suite):
    name, quick, thorough = "acomp", 4000, 60000

    def gen(self, s):
        fmt = s.choice(["txt", "ctm", "stm"])
        base = s.choice([["fuss", "ball", "all", "spiel", "bal"], ["haus", "tier", "ente", "e", "en", "hausen"], ["schiff", "fahrt", "ahrt", "fett", "topf"], ["b\xe4r", "\xdcber", "tag", "bett", "ts"], ["aa", "ab", "a", "ba", "ss", "s"]])
        lex = []
        for _ in range(s.int(1, 8)):
            w = s.choice(base)
            if s.bool(.25):
                w = w + s.choice("-_") + s.choice(base)
            lex.append(s.choice([w, w, w.capitalize(), w.upper()]))

        def tok():
            k = s.int(0, 9)
            w = s.choice(base)
            for _ in range(s.weighted((2, 0), (4, 1), (2, 2))):
                n = s.choice(base)
                w += s.choice(["", "", "", "s", "en", "-"]) + (n[1:] if s.bool(.2) and w[-1] == n[0] else n)
            w = s.choice([w, w, w.capitalize(), w.upper()])
            if k == 0:
                w += s.choice(["-", "x-", s.choice(base)[:1] + "-"])
            if k == 1:
                w = "x" + w
            if k in (2, 3):
                return "(%s%s)" % (w, "-" if k == 2 and s.bool() else "")
            return w
        return {"fmt": fmt, "lex": lex, "recs": records(s, fmt, tok), "m": s.choice([None, 1, 2, 3, 4]), "t": s.bool(.3), "s": s.bool(.3), "f": s.bool(.4), "io": s.int(0, 3), "eol": not s.bool(.1), "dflt": s.bool()}

    def model(self, case):
        lex, comp = set(), {}

        def put(k, v):
            if comp.setdefault(k, v) != v:
                raise Discard()
        for e in case["lex"]:
            e = UP(e)
            if re.search("[-_]", e):
                parts = re.sub("[-_]+", " ", e)
                lex.update(parts.split())
                put(e.replace("_", ""), parts)
                put(e.replace("_", "").replace("-", ""), parts)
            else:
                lex.add(e)
                put(e, e)
        mn = case["m"] or 2

        def divide(v):
            if v in lex:
                return [v]
            for i in range(len(v), max(mn, 1) - 1, -1):
                h = v[:i]
                if h not in lex:
                    continue
                rests = [v[i:]]
                if not case["t"] and re.search(r"([BCDFGHJKLMNPQRSTVWXYZ])\1\Z", h):
                    rests.append(v[i - 1:])
                if not case["s"]:
                    if v[i:i + 1] == "S":
                        rests.append(v[i + 1:])
                    elif v[i:i + 2] == "EN":
                        rests.append(v[i + 2:])
                for r in rests:
                    if len(r) >= mn and r != v:
                        d = divide(r)
                        if d:
                            return [h] + d
            return None

        def look(w):
            if comp.get(w):
                return comp[w].split()
            if case["f"] and w.endswith("-"):
                for i in range(len(w) - 2, mn - 1, -1):
                    d = divide(w[:i])
                    if d:
                        return d + [w[i:]]
                return [w]
            return divide(w) or [w]

        def conv(w):
            w = UP(w)
            if re.match(r"\(.*\)\Z", w):
                p = look(w[1:-1])
                if w[-2] == "-" and case["f"]:
                    return p[:-1] + ["(%s)" % p[-1]] if p[-1].endswith("-") else p
                return ["(%s)" % x for x in p]
            return look(w)
        return conv

    def check(self, case, ctx):
        conv = self.model(case)
        exp = emit(case["fmt"], case["recs"], conv)
        text = "".join(l + "\n" for l, _ in exp)
        if not case["eol"] and exp and exp[-1][0].strip():
            text = text[:-1]
        ctx.write("lex", "".join(x + s + "\n" for x, s in zip(case["lex"], ["", " x y", "\t1"] * 9)).encode(L))
        ctx.write("in", text.encode(L))
        i, o = ("in" if case["io"] & 1 else "-"), ("out" if case["io"] & 2 else "-")
        cmd = ["perl", ctx.bins["acomp"], "-l", "lex"] + (["-m", str(case["m"])] if case["m"] else []) + ["-" + x for x in "tsf" if case[x]]
        cmd += [] if case["fmt"] == "txt" and case["dflt"] else ["-i", case["fmt"]]
        rc, out, err = ctx.run(cmd + ["--", i, o], stdin=text.encode(L) if i == "-" else None, text=False)
        if o == "out":
            out = ctx.read("out", binary=True)
        out = out.decode(L)
        ctx.evals += 1
        compare(exp, out, "%s\nlexicon: %s\ninput:\n%s\noutput:\n%s\n" % (cmd[2:], case["lex"], text, out))
        ctx.label(case["fmt"])
        if any(len(conv(w)) > 1 for r in case["recs"] if r["k"] == "rec" for w in r["w"]):
            ctx.nontrivial((text, case["lex"], cmd[2:]))


SOLAR = "tgdrzs$SDTZnjk"


class DefArt(Suite):
    name, quick, thorough = "defart", 3000, 40000

    def gen(self, s):
        fmt = s.choice(["txt", "ctm", "stm"])
        script = s.bool(.4)
        lex = []
        if script:
            for i in range(s.int(1, 6)):
                rom = s.choice(["", "&"]) + s.choice(["il+", "bi+il+", "fa+il+", "li+il+", "li+bi+il+", "", "wi+"]) + s.choice(["bab", "bEt", "sEf"]) + str(i)
                scr = "".join(s.choice("\xc7\xe4\xc8\xca") for _ in range(s.int(2, 5))) + chr(0xc1 + i)
                if "il+" in rom:
                    if rom.startswith(("&li", "li")):
                        scr, rom = "\xe4\xe4" + scr, rom.lstrip("&")
                    else:
                        scr = "\xc7\xe4" + scr
                lex.append([rom, scr, s.choice(["noun+article", "noun", "verb"]) if "il+" in rom else "noun"])
        roots = ["bab", "tabib", "$ams", "qamar", "Safir", "nUr", "&ab", "&tab", "milk", "ill", "lEl"]

        def tok():
            if script and s.bool(.8):
                e = s.choice(lex)
                return e[s.choice([0, 1, 1])]
            w = s.choice(roots)
            k = s.int(0, 6)
            return "il+" + w if k < 3 else "bi+il+" + w if k == 3 else "(il+%s)" % w if k == 4 else w
        return {"fmt": fmt, "lex": lex, "t": script and s.bool(), "recs": records(s, fmt, tok), "io": s.int(0, 3), "eol": not s.bool(.1), "dflt": s.bool()}

    def model(self, case):
        if not case["lex"]:
            def conv(w):
                w = re.sub(r"il\+(&?)([tgdrzs$SDTZnjk])", r"i\2 \1\2", w)
                return re.sub(r"il\+(&?[a-zA-Z])", r"il \1", w).split()
            return conv
        tr, div = {}, {}
        for rom, scr, m in case["lex"]:
            d = scr
            if "+article" in m:
                d = re.sub("(\xe4\xe4)" if rom.startswith("li") else "(\xe4)", r"\1 ", scr, count=1)
            if div.setdefault(scr, d) != d:
                raise Discard()
            tr[rom] = scr

        def conv(w):
            if case["t"]:
                w = tr.get(w, w)
            return div.get(w, w).split()
        return conv

    def check(self, case, ctx):
        conv = self.model(case)
        exp = emit(case["fmt"], case["recs"], conv)
        text = "".join(l + "\n" for l, _ in exp)
        if not case["eol"] and exp and exp[-1][0].strip():
            text = text[:-1]
        ctx.write("in", text.encode(L))
        ctx.write("lex", "".join("\t".join([r, c, "p", "0", m, "1", "1", "1"]) + "\n" for r, c, m in case["lex"]).encode(L))
        i, o = ("in" if case["io"] & 1 else "-"), ("out" if case["io"] & 2 else "-")
        cmd = ["perl", ctx.bins["def_art"]] + (["-s", "lex"] if case["lex"] else []) + (["-t"] if case["t"] else [])
        cmd += [] if case["fmt"] == "txt" and case["dflt"] else ["-i", case["fmt"]]
        rc, out, err = ctx.run(cmd + [i, o], stdin=text.encode(L) if i == "-" else None, text=False)
        if o == "out":
            out = ctx.read("out", binary=True)
        out = out.decode(L)
        ctx.evals += 1
        compare(exp, out, "%s\nlexicon: %s\ninput:\n%s\noutput:\n%s\n" % (cmd[2:], case["lex"], text, out))
        ctx.label(case["fmt"], "script" if case["lex"] else "romanised")
        if any(len(conv(w)) > 1 for r in case["recs"] if r["k"] == "rec" for w in r["w"]):
            ctx.nontrivial((text, case["lex"], cmd[2:]))


def build():
    d = B.perl()
    return {"acomp": d + "/acomp.pl", "def_art": d + "/def_art.pl"}


SUITES = [Acomp(), DefArt()]
