"""C24: the validators accept exactly the files that obey their format's rules, and name every offending line."""
import re

from vf import build as B
from vf.engine import Suite, Violation

RULE = ("A case is one ctm, stm or rttm file: records built to be valid, some of them then damaged (fields dropped, added, swapped for others; times shifted; objects removed). One evaluation is one run of a "
        "validator, its verdict and every line it names compared with a model of the rules. Non-trivial: the file has a damaged record, or several records of different kinds; counted by distinct inputs.")
ASSUMPTIONS = ["record types of an RTTM are upper case, times multiples of 10 ms, edits end before their SU ends",
               "of several overlapping objects of a speaker, at least one is named", "an stm is judged on the words of its transcripts"]
NUM = re.compile(r"\d+(\.\d+)?\Z")
NAME = re.compile(r"[A-Za-z0-9_-]+\Z")
CTYPES = ["lex", "frag", "fp", "un-lex", "for-lex", "non-lex", "misc", "noscore"]


class Ctm(Suite):
    name, quick, thorough = "ctm", 1500, 20000

    def gen(self, s):
        recs = []
        for _ in range(s.int(0, 8)):
            k = s.int(0, 11)
            if k == 0:
                recs.append(";; comment 1 2 3")
                continue
            f = [s.choice(["file", "f-1_a", "7654", "XYZ_Q-9k"]), s.choice(["1", "A", "B", "12"]), s.choice(["0", "1.5", "12.25"]), s.choice(["0.1", "3"])]
            if s.bool(.12):
                f = f[:2] + ["*", "*", s.choice(["<ALT_BEGIN>", "<ALT>", "<ALT_END>"])]
            else:
                f.append(s.choice(["word", "don't", "well-known", "wh-", "a.", "B.'s", "%HESITATION", "%bcack", "x@y"]))
            n = s.weighted((3, 0), (3, 1), (2, 2), (3, 3))
            f += [s.choice(["0", "0.5", "1.0"]), s.choice(CTYPES), s.choice(["spk", "s_1-b"])][:n]
            if s.bool(.35):
                d = s.int(0, 9)
                if d == 0:
                    f = f[:s.int(1, 4)]
                elif d == 1:
                    f = (f + ["0.5", "lex", "spk", "x"])[:5] + ["0.5", "lex", "spk", "extra"]
                else:
                    i = s.int(0, len(f) - 1)
                    f[i] = s.choice([["a.b", "é", "f/g"], ["C", "a", "1a"], ["-1", "x", "1.", ".5", "1e3", "*"], ["-1", "x", "1.", ".5", "*"], ["word1", "a,b", "é", "<x>", "%UM", "[n]"],
                                     ["-0.5", "NA", ".9", "1."], ["LEX", "word", "x"], ["s p".replace(" ", "+"), "a.b", "(s)"]][i])
            recs.append(s.choice([" ", "  ", "\t"]).join(f))
        return {"recs": recs, "lang": s.choice([None, None, "english", "English", "arabic"]), "eol": not s.bool(.1)}

    def errors(self, c):
        out = []
        english = (c["lang"] or "english").lower() == "english"
        for n, r in enumerate(c["recs"], 1):
            if r.startswith(";;"):
                continue
            f = r.split()
            if len(f) < 5 or len(f) > 8:
                out.append((n, "record"))
                continue
            f += [["0.0", "lex", "spkr"][i - 5] for i in range(len(f), 8)]
            if not NAME.match(f[0]):
                out.append((n, "source"))
            if not re.match(r"([0-9]+|[AB])\Z", f[1]):
                out.append((n, "channel"))
            if f[4] in ("<ALT>", "<ALT_BEGIN>", "<ALT_END>"):
                out += [(n, "begin")] * (f[2] != "*") + [(n, "duration")] * (f[3] != "*")
            else:
                out += [(n, "begin")] * (not NUM.match(f[2])) + [(n, "duration")] * (not NUM.match(f[3]))
                t = f[4]
                if english and f[6] == "lex" and not (re.match(r"[A-Za-z'-]+\Z", t) or re.match(r"[A-Za-z]\.", t) or "@" in t or re.search(r"%(bcn?ack|hesitation)", t, re.I)):
                    out.append((n, "token"))
            if not NUM.match(f[5]):
                out.append((n, "confidence"))
            if f[6] not in CTYPES:
                out.append((n, "type"))
            if not NAME.match(f[7]):
                out.append((n, "speaker"))
        return out

    def check(self, c, ctx):
        p = ctx.write("x.ctm", "\n".join(c["recs"]) + ("\n" if c["eol"] and c["recs"] else ""))
        rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/ctmValidator.pl", "-i", p] + (["-l", c["lang"]] if c["lang"] else []), ok=None)
        want = self.errors(c)
        got = []
        for ln in out.splitlines():
            q = re.match(r"ERROR: \[line (\d+)\] (ctm )?(\w+)", ln)
            if q:
                got.append((int(q[1]), q[3]))
        ctx.evals += 1
        if rc != (1 if want else 0) or sorted(got) != sorted(want):
            raise Violation("ctmValidator: exit %d, errors %s; should find %s\n%s" % (rc, got, want, "\n".join(c["recs"])))
        q = re.search(r"failed due to the (\d+) previous", out)
        if bool(q) != bool(want) or (q and int(q[1]) != len(want)) or (not want and "Validated" not in out):
            raise Violation("ctmValidator: verdict %r for %d errors" % (out[-200:], len(want)))
        if want or len(c["recs"]) > 3:
            ctx.nontrivial(c)


EN_OK = ["word", "A", "well-known", "-self", "a-b-c", "(uh)", "(mm-hmm)", "IBM.", "a.", "a.'s", "b.s", "(u.)", "(u.'s)", "wh-", "(wh-)", "it's", "don't", "we've", "I'll", "dogs'", "(it's)", "(don't)",
         "o'clock", "d'etre", "%hesitation", "(%HESITATION)", "%bcack", "(%bcnack)", "{", "/", "}", "@", "ignore_time_segment_in_scoring", "IGNORE_TIME_SEGMENT_IN_SCORING"]
EN_BAD = ["3rd", "50%", "a,b", "hello!", "(word", "word)", "((a))", "{word", "%foo", "<noise>", "(it's", "it's)", "(don't))", "-", "a--", "it'x", "a.b", "{}", "é", "[laugh]", "_", "x/y", "(%um)", "(wh-", "a.)", "*b*"]
AR_OK = ["\u0643\u062a", "word", "(\u0643\u062a)", "it's", "%hesitation", "(%HESITATION)", "50%", "{", "/", "}", "@", "a:b", "ignore_time_segment_in_scoring"]
AR_BAD = ["a,b", "\u0643.", "a-b", "wh-", "(\u0643", "\u0643)", "a_b", "x/y", "[n]", "a]", "<x>", "\u0643!", "a?", "x@y", "((a))", "\u0643]", "a|b", "a\\b", "a+b", "a=b", "a~", "a#b", "a$", "a^b", "a&b", "a*"]


class Stm(Suite):
    name, quick, thorough = "stm", 1500, 20000

    def gen(self, s):
        lang = s.choice([None, None, "english", "English", "arabic", "mandarin"])
        ok, bad = (AR_OK, AR_BAD) if lang in ("arabic", "mandarin") else (EN_OK, EN_BAD)
        lines, nbad = [], []
        damage = s.bool(.5)
        for _ in range(s.int(0, 6)):
            k = s.int(0, 9)
            if k == 0:
                lines.append(s.choice([';; LABEL "M" "Male" "Men, 50%"', ';; CATEGORY "0" "x" "y!"', ";; a comment, 3", "", "   "]))
                continue
            ws = []
            for _ in range(s.int(0, 6)):
                if damage and s.bool(.15):
                    w = s.choice(bad)
                    nbad.append(w)
                else:
                    w = s.choice(ok)
                ws.append(w)
            t = s.choice([" ", "  ", "\t"]).join([s.choice(["f1", "f-2"]), s.choice(["A", "1"]), s.choice(["s1", "s_2"]), "0.5", "1.5"] + ([s.choice(["<o,f0,male>", "<O>", "<>"])] if s.bool() or (ws and ws[0][0] == "<") else []) + ws)
            lines.append(s.choice(["", "", " "]) + t + s.choice(["", "", " ", " ;; remark, 3!"]))
        return {"lines": lines, "bad": nbad, "lang": lang, "silent": s.bool(.2)}

    def check(self, c, ctx):
        p = ctx.write("x.stm", "".join(x + "\n" for x in c["lines"]))
        rc, out, err = ctx.run(["perl", ctx.bins["perl"] + "/stmValidator.pl", "-i", p] + (["-l", c["lang"]] if c["lang"] else []) + (["-s"] if c["silent"] else []), ok=None)
        got = re.findall(r"Unrecognized token \S+ -(.*)-$", out, re.M)
        ctx.evals += 1
        if rc != (1 if c["bad"] else 0) or (not c["silent"] and sorted(got) != sorted(c["bad"])) or (c["silent"] and out):
            raise Violation("stmValidator: exit %d, rejects %s; should reject %s\n%s" % (rc, got, c["bad"], "\n".join(c["lines"])))
        if not c["silent"] and ("Validated" in out) == bool(c["bad"]):
            raise Violation("stmValidator: verdict %r" % out[-100:])
        if c["bad"] or len(c["lines"]) > 3:
            ctx.nontrivial(c)


SUB = {"SEGMENT": ["eval", "<NA>"], "NOSCORE": ["<NA>"], "NO_RT_METADATA": ["<NA>"], "SPEAKER": ["<NA>"], "A/P": ["<NA>"],
       "LEXEME": ["lex", "fp", "frag", "un-lex", "for-lex", "alpha", "acronym", "interjection", "propernoun", "other"],
       "NON-LEX": ["laugh", "breath", "lipsmack", "cough", "sneeze", "other"], "NON-SPEECH": ["noise", "music", "other"],
       "FILLER": ["filled_pause", "discourse_marker", "explicit_editing_term", "discourse_response", "other"],
       "EDIT": ["repetition", "restart", "revision", "simple", "complex", "other"],
       "SU": ["statement", "question", "incomplete", "backchannel", "unannotated", "discourse_response", "other"],
       "IP": ["edit", "filler", "edit&filler", "other"], "CB": ["coordinating", "clausal", "other"], "SPKR-INFO": ["adult_male", "adult_female", "child", "unknown"]}
RNUM = re.compile(r"(-?[0-9]+\.?[0-9]*|-?\.[0-9]+)\Z")
SPK = ["spk1", "s.2", "B+c", "d(e", "[f]", "F_3"]


def t2(cs):
    return "%d.%02d" % (cs // 100, cs % 100) if cs % 100 else str(cs // 100)


class Rttm(Suite):
    name, quick, thorough = "rttm", 2500, 40000

    def gen(self, s):
        R = []      # records as field lists
        srcs = ["x"] if s.bool(.8) else ["x", "other.file"]
        bn = s.choice([None, None, "bnews", "cts"])
        for src in srcs:
            for ch in (["1"] if bn == "bnews" or s.bool(.7) else ["1", "2"]):
                hi = 0
                for spk in s.subset(SPK, 1)[:s.int(1, 3)]:
                    R.append(["SPKR-INFO", src, ch, "<NA>", "<NA>", "<NA>", s.choice(SUB["SPKR-INFO"]), spk, "<NA>"])
                    add = lambda ty, a, b, w, st: R.append([ty, src, ch, t2(a), "<NA>" if b is None else t2(b - a), w, st, spk, s.choice(["<NA>", "0.5", "1", "0", ".25"])])
                    pos = s.int(0, 100)
                    for _ in range(s.int(1, 2)):
                        segb = pos
                        pos += s.choice([0, 0, 10])
                        for _ in range(s.int(1, 3)):
                            sub, marks = pos, [pos]
                            words = []
                            for _ in range(s.int(1, 5)):
                                d = s.int(1, 40)
                                words.append((pos, pos + d))
                                pos += d + s.choice([0, 0, 0, 20])
                            sue = words[-1][1]
                            for a, b in words:
                                st = s.choice(SUB["LEXEME"])
                                add("LEXEME", a, b, "A." if st == "alpha" else s.choice(["word", "it's", "wh-", "%uh", "<NA>"]), st)
                            add("SU", sub, sue, "<NA>", s.choice(SUB["SU"]))
                            i, last = 0, None
                            while i + 1 < len(words):
                                # an edit or a filler over the words i..j
                                if s.bool(.5):
                                    j = s.int(i, len(words) - 2)
                                    if s.bool(.5):
                                        add("EDIT", words[i][0], words[j][1], "<NA>", s.choice(SUB["EDIT"]))
                                        t = words[j][1]
                                        if j + 1 < len(words) and words[j + 1][0] == t and s.bool(.5):
                                            add("FILLER", t, words[j + 1][1], "<NA>", s.choice(SUB["FILLER"]))
                                            add("IP", t, None, "<NA>", "edit&filler")
                                            j += 1
                                        else:
                                            add("IP", t, None, "<NA>", "edit")
                                        last = t
                                    elif last != words[i][0]:
                                        add("FILLER", words[i][0], words[j][1], "<NA>", s.choice(SUB["FILLER"]))
                                        add("IP", words[i][0], None, "<NA>", "filler")
                                    i = j + 1
                                else:
                                    i += 1
                            pos = sue + s.choice([0, 0, 15])
                        add("SPEAKER", segb, max(pos, sue), "<NA>", "<NA>")
                        if s.bool(.2):
                            add(s.choice(["SEGMENT", "A/P"]), segb, pos, "<NA>", "<NA>")
                        if s.bool(.2):
                            add("CB", segb, None, "<NA>", s.choice(SUB["CB"]))
                        pos += s.int(1, 100)
                        if s.bool(.2):
                            add("NON-LEX", pos, pos + 10, "<NA>", s.choice(SUB["NON-LEX"]))
                            pos += 15
                    hi = max(hi, pos)
                for ty in ("NOSCORE", "NON-SPEECH"):
                    if s.bool(.25):
                        a, b = s.choice([(hi, hi + 50), (hi + 10, hi + 20), (0, hi), (s.int(0, hi), hi + 5)])
                        if ty == "NON-SPEECH" and a < hi + 50:
                            a, b = hi + 60, hi + 70
                        R.append([ty, src, ch, t2(a), t2(b - a), "<NA>", s.choice(SUB[ty]), "<NA>", "<NA>"])
        # damage
        for _ in range(s.weighted((3, 0), (4, 1), (1, 2))):
            if not R:
                break
            r = R[s.int(0, len(R) - 1)]
            k = s.int(0, 13)
            if k == 0:
                del r[s.int(8, len(r) - 1):]
            elif k == 1:
                r += ["<NA>", "x"][:s.int(1, 2)] if len(r) == 9 else []
            elif k == 2:
                r[0] = s.choice(["WORD", "SPKRINFO", "SEG"])
            elif k == 3:
                r[2] = s.choice(["3", "A", "12", "2"])
            elif k == 4:
                r[3] = s.choice(["x", "-1", "<NA>", "1,5", "1", "1*"])
            elif k == 5:
                r[4] = s.choice(["x", "-0.5", "<NA>", "0.1"])
            elif k == 6:
                r[5] = s.choice(["word", "<NA>"])
            elif k == 7:
                r[6] = s.choice(["statement", "x", "<NA>", "lexx", "adult_male", "laugh"])
            elif k == 8:
                r[7] = s.choice(["nobody", "spk1x", "sx2", "BBc"])
            elif k == 9 and len(r) > 8:
                r[8] = s.choice(["1.5", "-0.1", "high", "1", "0"])
            elif k == 10:
                R.remove(r)
            elif RNUM.match(r[3]) and len(r) > 6:
                cs = max(0, round(float(r[3]) * 100) + s.int(-30, 30))
                if k == 12 and RNUM.match(r[4]):
                    r[4] = t2(max(1, round(float(r[4]) * 100) + s.int(-30, 30)))
                elif k == 13 and r[0] == "IP":
                    r[6] = s.choice(SUB["IP"][:3])
                else:
                    r[3] = t2(cs)
        order = list(range(len(R)))
        if s.bool(.5):
            order = s.shuffle(order)
        return {"recs": [R[i] for i in order], "bn": bn, "opts": "".join(o for o in "uspe" if s.bool(.15)), "t": s.bool(.2), "fname": s.choice(["x", "x", "a+b", "c(d"])}

    def model(self, c):
        """-> None if nothing, or (set of acceptable error keys required, exact?)"""
        S = []
        known = {r[7].lower() for n, r in self.lines(c) if r[0] == "SPKR-INFO" and len(r) > 7}
        for n, r in self.lines(c):
            if len(r) not in (9, 10):
                S.append((n, "n"))
            if len(r) < 9:
                continue
            ty = r[0]
            if ty not in SUB:
                S.append((n, 0))
            if r[2] not in ("1", "2"):
                S.append((n, 3))
            elif c["bn"] == "bnews" and r[2] != "1":
                S.append((n, 3))
            for f, none in ((3, ("SPKR-INFO",)), (4, ("SPKR-INFO", "IP", "CB"))):
                v = r[f]
                if ty in none:
                    if v != "<NA>":
                        S.append((n, f + 1))
                elif not RNUM.match(v.rstrip("*")) or float(v.rstrip("*")) < 0:
                    S.append((n, f + 1))
            if ty in SUB and ty not in ("LEXEME", "NON-LEX") and r[5] != "<NA>":
                S.append((n, 6))
            if ty in SUB and r[6] not in SUB[ty]:
                S.append((n, 7))
            if ty == "LEXEME" and r[6] == "alpha" and r[5] not in ("A.", "<NA>"):
                S.append((n, 6))
            if r[8] != "<NA>" and (not RNUM.match(r[8]) or not 0 <= float(r[8]) <= 1):
                S.append((n, 9))
            if "p" not in c["opts"] and ty not in ("SPKR-INFO", "NOSCORE", "NON-SPEECH") and r[7].lower() not in known:
                S.append((n, "spk"))
        if S:
            return S, S
        # logic
        objs = []
        for n, r in self.lines(c):
            if r[0] != "SPKR-INFO":
                a = round(float(r[3].rstrip("*")) * 100)
                d = 0 if r[4] == "<NA>" else round(float(r[4]) * 100)
                objs.append((n, r[0], r[1], r[2], r[7], a, a + d, r[6]))
        same = lambda x, y: x[2:5] == y[2:5]
        over = {x[0] for x in objs for y in objs if x is not y and x[1] == y[1] and same(x, y) and x[1] not in ("IP", "CB") and x[5] < y[6] and y[5] < x[6]}
        if over:
            return [], [(n, "logic") for n in over]
        lex = [x for x in objs if x[1] == "LEXEME"]
        MD = ("SU", "EDIT", "FILLER")
        E = [x[0] for x in objs if x[1] in MD and not any(same(x, w) and x[5] <= w[5] and w[6] <= x[6] for w in lex)]
        part = lambda x, z: x[5] < z[6] and z[5] < x[6] and not (z[5] <= x[5] and x[6] <= z[6])
        if not E:
            E = [w[0] for w in lex for ty in MD if any(m[1] == ty and same(m, w) and part(w, m) for m in objs)]
        if not E:
            E = [x[0] for x in objs if x[1] in MD + ("SPEAKER", "LEXEME", "NON-LEX", "NON-SPEECH") and
                 any(z[1] == "NOSCORE" and z[2:4] == x[2:4] and z[4] == "<NA>" and part(x, z) for z in objs)]
        for o, ty in (("u", "SU"), ("s", "SPEAKER")):
            if not E and o not in c["opts"]:
                E = [w[0] for w in lex if not any(m[1] == ty and same(m, w) and m[5] <= w[5] and w[6] <= m[6] for m in objs)]
        if not E and "e" not in c["opts"]:
            for su in objs:
                if su[1] != "SU":
                    continue
                ins = [x for x in objs if same(x, su) and su[5] <= x[5] and x[6] <= su[6]]
                ed = {x[6]: x for x in ins if x[1] == "EDIT"}
                fi = {x[5]: x for x in ins if x[1] == "FILLER"}
                ip = {x[5]: x for x in ins if x[1] == "IP" and x[5] < su[6]}
                ips = [x for x in ins if x[1] == "IP" and x[5] < su[6]]
                if len(ip) < len(ips) or any(t == su[6] for t in ed) or any(x[1] == "IP" and x[5] == su[6] for x in ins):
                    return None        # two points at one place, or an edit up to the end of its SU: not judged
                for t in set(ed) | set(fi) | set(ip):
                    e, f, p = ed.get(t), fi.get(t), ip.get(t)
                    okE = p and (p[7] == "edit" or (p[7] == "edit&filler" and f))
                    okF = p and (p[7] == "filler" or (p[7] == "edit&filler" and e))
                    okP = (p and (p[7] == "edit" and e or p[7] == "filler" and f or p[7] == "edit&filler" and e and f))
                    E += [x[0] for x, ok in ((e, okE), (f, okF), (p, okP)) if x and not ok]
        E = [(n, "logic") for n in E]
        return E, E

    def lines(self, c):
        return [(i + 2, r) for i, r in enumerate(c["recs"])]

    def check(self, c, ctx):
        want = self.model(c)
        ctx.evals += 1
        head = ";; EXP-ID: 2004_%s_x" % c["bn"] if c["bn"] else ";; type file chnl"
        p = ctx.write(c["fname"] + ".rttm", head + "\n" + "".join(" ".join(r) + "\n" for r in c["recs"]))
        cmd = ["perl", ctx.bins["perl"] + "/rttmValidator.pl"] + ["-" + o for o in c["opts"]] + (["-t"] if c["t"] else []) + ["-i", p]
        rc, out, err = ctx.run(cmd, ok=None)
        if want is None:
            return
        got = []
        for ln in out.splitlines():
            if ln.startswith("ERROR"):
                n = int(re.search(r"line (\d+)$", ln)[1])
                q = re.search(r"field \((\d)\)", ln)
                got.append((n, int(q[1]) if q else "n" if "instead of the required" in ln else "spk" if "any of the speaker IDs" in ln else "logic"))
        need, may = want
        good = sorted(map(str, got)) == sorted(map(str, need)) if need or not may else got and set(got) <= set(may)
        if rc != (1 if may else 0) or not good:
            raise Violation("rttmValidator: exit %d, errors %s; should find %s%s\n%s\n%s" % (rc, got, "all of " if need else "some of ", may, "\n".join(" ".join(r) for r in c["recs"]), err[-300:]))
        if may or len({r[0] for r in c["recs"]}) > 3:
            ctx.nontrivial(c)


SUITES = [Ctm(), Stm(), Rttm()]


def build():
    return {"perl": B.perl()}
