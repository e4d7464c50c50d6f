"""C08: letter case, encodings, language profiles and character alignment (-e, -s, -c)."""
import re
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run in a generated encoding (default, ASCII, EXT_ASCII, GB, UTF-8 with one of ten language profiles), case "
        "sensitive or not, word or character alignment (-c, NOASCII, DH), trn or stm/ctm input. One evaluation is one utterance whose alignment "
        "is compared with an exhaustive minimum over the transcripts after folding letters by the language's alphabet and splitting words into "
        "characters. Non-trivial: the minimum cost is above 0 or a non-ASCII letter is present, counted by distinct utterances and options.")
ASSUMPTIONS = ["the alphabets below are the letters whose case each language profile folds; words contain none of { } / @ ; * which are markup"]
ALPHA = {
    "generic": "",
    "babel_turkish": "ÇÖÜĞŞ",
    "babel_lithuanian": "ĄČĘĖĮŠŲŪŽ",
    "babel_kurmanji": "ÇÊÎÛŞ",
    "babel_cebuano": "Ñ",
    "babel_kazakh": "АӘБВГҒДЕЁЖЗИЙКҚЛМНҢОӨПРСТУҰҮФХҺЦЧШЩЪЫІЬЭЮЯ",
    "babel_mongolian": "ЁАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯҮӨ",
    "babel_vietnamese": "ĐÁÀẢÃẠĂẮẰẲẴẶÂẤẦẨẪẬÉÈẺẼẸÊẾỀỂỄỆÍÌỈĨỊÓÒỎÕỌƠỚỜỞỠỢÔỐỒỔỖỘÚÙỦŨỤƯỨỪỬỮỰÝỲỶỸỴ",
    "babel_guarani": "ÃÁẼÉĨÍÕÓŨÚỸÝÑ",
    "ukrainian": "АБВГҐДЕЄЖЗИІЇЙКЛМНОПРСТУФХЦЧШЩЬЮЯЁЪЫЭ",
}
UKR_MORE = "ӐӒҼҾӠҨӨӪҠѪҶӴҸЂЅЏӬӅӍҢӇӉҎҪѲӶҔҒӺЃҲӼӾӤЍӢӖЀѬѤѨѴѶЈҚӃҞҜӋЌҀѮѦЉЊӦѠѼѾҦѰѺӘӚҌҺҊЎҮҰҬЋӰӲӮѸѢӸҘӞӁҖӜӔҤҴ"
OTHER = ["中", "文", "字", "é", "É", "ß", "ñ", "Ω", "ω", "Ж", "ж", "\U0001F600", "\U00020000", "ع", "ก"]
GT = "g\u0303"
HAN = "中文字大小人口手"


def fold(w, enc, prof):
    out = ""
    for c in w:
        if enc == "utf-8":
            if prof == "babel_turkish" and c in "Iİ":
                out += {"I": "ı", "İ": "i"}[c]
                continue
            if c in ALPHA[prof] or (prof == "ukrainian" and c in UKR_MORE):
                out += c.lower()
                continue
        elif enc == "EXT_ASCII" and 192 <= ord(c) <= 222:
            out += chr(ord(c) + 32)
            continue
        out += chr(ord(c) + 32) if "A" <= c <= "Z" else c
    return out


def chars(w, enc, prof, noascii, dh):
    """the characters a word is scored as"""
    out, last = [], False
    i = 0
    while i < len(w):
        c = w[i]
        if prof == "babel_guarani" and c in "gG" and w[i + 1:i + 2] == "\u0303":
            out.append(c + "\u0303")
            last = False
            i += 2
            continue
        i += 1
        if dh and c == "-":
            continue
        # single-byte encodings have no characters outside their own set
        asc = ord(c) < 128 or enc not in ("utf-8", "gb", "euc")
        if noascii and asc and last and out:
            out[-1] += c
        else:
            out.append(c)
        last = asc
    return out


class Enc(Suite):
    def __init__(self, name, quick, thorough, chr_):
        self.name, self.quick, self.thorough, self.chr = name, quick, thorough, chr_

    def word(self, s, enc, prof, case):
        if enc == "utf-8":
            base = ALPHA[prof] + (UKR_MORE if prof == "ukrainian" and s.bool(.3) else "")
            pool = ["abcgiIAGY"] * 2 + ([base, base.lower(), base + base.lower()] * 2 if base else []) + [OTHER]
            if prof == "babel_turkish":
                pool += ["iıİI"] * 3
            if prof == "babel_guarani":
                pool += [[GT, "G\u0303", "g"]] * 2
        elif enc in ("gb", "euc"):
            pool = ["abcAB", HAN, HAN]
        elif enc == "EXT_ASCII":
            pool = ["abcAB", [chr(c) for c in list(range(192, 215)) + list(range(216, 223)) + list(range(224, 247)) + list(range(248, 255))]]
        else:
            pool = ["abcAB", "ABCabcxyz", [chr(c) for c in range(0xC0, 0xF5)]]
        w = "".join(s.choice(s.choice(pool)) for _ in range(s.weighted((3, 1), (3, 2), (2, 3), (1, 5))))
        if s.bool(.12):
            w = s.choice([w + "-" + s.choice("ab"), w + "'s", "-" + w, w + "-", w + "1", "--", "-", w + "-" + w])
        return w

    def gen(self, s):
        enc = s.weighted((3, None), (1, "ASCII"), (2, "EXT_ASCII"), (2, "gb"), (1, "euc"), (8, "utf-8"))
        prof = s.choice(sorted(ALPHA)) if enc == "utf-8" else "generic"
        D = s.bool(.3)
        o = {"alt": s.choice([0, 0, .2]), "depth": 2}
        vocab = [self.word(s, enc, prof, 1) for _ in range(s.int(1, 6))]

        def w():
            x = s.choice(vocab) if s.bool(.7) else self.word(s, enc, prof, 1)
            if s.bool(.25):
                x = x.swapcase() if len(x.swapcase()) == len(x) and "ß" not in x else x
            if enc == "EXT_ASCII" and any(ord(c) > 254 or ord(c) in (215, 247, 223, 255) for c in x):
                x = "a"
            if D and s.bool(.3):
                x = "(" + x + ")"
            return x

        def seq(depth=0, hi=12):
            def item():
                if o["alt"] and depth < 2 and s.bool(o["alt"]):
                    return ["alt", [[] if s.bool(.15) else seq(depth + 1, 3) or ["a"] for _ in range(s.int(2, 3))]]
                return w()
            return s.list(item, 0, hi, 3)

        def edit(ws):
            out = []
            for x in ws:
                k = s.draw(9)
                if k == 9:
                    continue
                out += [x.swapcase() if k == 8 and len(x.swapcase()) == len(x) and enc == "utf-8" else x] if k != 7 else [w()]
                if k == 6:
                    out.append(w())
            return out
        kind = "ctm" if s.bool(.2) else "trn"
        utts = []
        for i in range(s.int(1, 8)):
            r = seq()
            utts.append([r, edit(scl.reading(s, r)) if kind == "ctm" or not s.bool(.1) else seq()])
        return {"enc": enc, "prof": prof if s.bool(.9) or prof != "generic" else None, "D": D, "cs": s.bool(.35), "utts": utts, "kind": kind,
                "noascii": self.chr and s.bool(.4), "dh": self.chr and s.bool(.3)}

    def check(self, case, ctx):
        enc, prof = case["enc"], case["prof"] or "generic"
        codec = {"utf-8": "utf-8", "gb": "gb2312", "euc": "gb2312"}.get(enc, "latin-1")
        W = scl.Words(False, case["D"])
        U = case["utts"]
        b = lambda t: t.encode(codec)
        cmd = [ctx.bins["sclite"], "-O", ctx.dir, "-n", "x", "-f", "0", "-o", "sgml"]
        if enc:
            cmd += ["-e", enc] + ([case["prof"]] if enc == "utf-8" and case["prof"] else [])
        cmd += (["-s"] if case["cs"] else []) + (["-D"] if case["D"] else [])
        if self.chr:
            cmd += ["-c"] + (["NOASCII"] if case["noascii"] else []) + (["DH"] if case["dh"] else [])
        times = {}
        if case["kind"] == "trn":
            ctx.write("r", b("".join("%s (s-%d)\n" % (scl.render(u[0]), i) for i, u in enumerate(U))))
            ctx.write("h", b("".join("%s (s-%d)\n" % (scl.render(u[1]), i) for i, u in enumerate(U))))
            cmd += ["-r", "r", "trn", "-h", "h", "trn", "-i", "swb"]
        else:
            rt, ht = "", ""
            for i, u in enumerate(U):
                rt += "f 1 s %d %d %s\n" % (i * 20, i * 20 + 20, scl.render(u[0]))
                for k, w in enumerate(u[1]):
                    t1, d = i * 20 + k * .5, .1 + .06 * (len(w) % 5)
                    ht += "f 1 %.2f %.2f %s\n" % (t1, d, w)
                    times.setdefault(i, []).append((t1, d))
            if not ht:
                return
            ctx.write("r", b(rt))
            ctx.write("h", b(ht))
            cmd += ["-r", "r", "stm", "-h", "h", "ctm"]
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("x.sgml", binary=True).decode("latin-1"))[0]
        paths = {int(re.search(r"-(\d+)\)", p["attrs"]["id"])[1]): p for sp in sy["speakers"] for p in sp["paths"]}
        if sorted(paths) != list(range(len(U))):
            raise Violation("%d utterances in, alignments for %r out" % (len(U), sorted(paths)))
        for i, u in enumerate(U):
            r, h = (self.expand(x, case, enc, prof, W, codec) for x in u)
            cost = scl.check_alignment(paths[i]["toks"], r, h, W, "utterance %d (%s %s)" % (i, enc, prof))
            ctx.evals += 1
            if cost or any(ord(c) > 127 for c in scl.render(u[0])):
                ctx.nontrivial((u, enc, prof, case["cs"], case["noascii"], case["dh"]))
            if i in times:
                self.times(case, enc, prof, W, codec, u[1], times[i], paths[i], ctx)
        ctx.label("encoding %s" % enc, "profile %s" % prof, case["kind"], "case sensitive" if case["cs"] else "case folded")

    def split(self, w, case, enc, prof, W):
        """the scored tokens of one word"""
        if not case["cs"]:
            w = fold(w, enc, prof)
        if not self.chr:
            return [w]
        if W.is_opt(w):
            return ["(" + c + ")" for c in chars(w[1:-1], enc, prof, case["noascii"], case["dh"])]
        return chars(w, enc, prof, case["noascii"], case["dh"])

    def expand(self, seq, case, enc, prof, W, codec):
        out = []
        for it in seq:
            if isinstance(it, str):
                out += [c.encode(codec).decode("latin-1") for c in self.split(it, case, enc, prof, W)]
            else:
                out.append(["alt", [self.expand(a, case, enc, prof, W, codec) for a in it[1]]])
        return out

    def times(self, case, enc, prof, W, codec, words, tm, p, ctx):
        """a word's characters share its time span equally"""
        exp = []
        for w, (t1, d) in zip(words, tm):
            cs = self.split(w, case, enc, prof, W)
            exp += [(t1 + d * k / len(cs), t1 + d * (k + 1) / len(cs)) for k in range(len(cs))]
        col = p["attrs"]["word_aux"].split(",").index("h_t1+t2")
        got = [t[3][col] for t in p["toks"] if t[2] is not None]
        for g, (a, b) in zip(got, exp):
            x = [float(v) for v in g.split("+")]
            if abs(x[0] - a) > .0015 or abs(x[1] - b) > .0015:
                raise Violation("times of the scored units %r, expected %r" % (got, exp))
        ctx.label("unit times checked")


def build():
    return {"sclite": B.sclite() + "/sclite"}


SUITES = [Enc("case", 20000, 120000, False), Enc("chars", 20000, 120000, True)]
