"""C22: hubscr scores every system on exactly the filtered, sorted transcripts."""
import os, re

from checks import c20, c21, c28
from vf import build as B
from vf.engine import Discard, Suite, Violation

RULE = ("A case is a reference stm and one to three systems' ctm files (several recordings, channels and speakers, records in any order, mixed white space, comments, optional words, fragments, hyphens, "
        "extended ctm columns), a rule file, a language, a task and the alignment engine. One evaluation is one hubscr.pl run: the filtered files are compared with a model record by record, and every report with the one "
        "the scoring engine writes for those filtered files under the options of the language. Non-trivial: the records are not in order to begin with or filtering changes a word; counted by distinct inputs.")
ASSUMPTIONS = ["the filters and engines themselves are covered by C01-C21; their models or programs are reused here",
               "no alternations in the systems' ctm; Mandarin input is not sorted by hubscr and is generated sorted; -V unless the words are valid for the language"]
L = "latin-1"
WORDS = {"english": ["a", "b", "ab", "ba", "uh", "um", "ok", "don't", "new-york"], "spanish": ["a", "b", "si", "ma\xf1ana", "\xc9l", "uh", "tal-vez"],
         "italian": ["a", "B", "perch\xe9", "cos\xec", "uh", "via-vai"], "german": ["haus", "tier", "haustier", "fussball", "ballspiel", "uh", "b\xe4r", "ball-haus"],
         "mandarin": ["\xd6\xd0", "\xce\xc4\xd6\xd0", "\xd7\xd6", "a", "b-c", "uh"],
         "arabic": [w.encode().decode(L) for w in ("\u0623\u0628", "\u0627\u0628", "\u0628\u064b", "\u0628", "\u0622\u0643\u064d", "uh", "a-b")]}


def tree(ctx, d, skip):
    o = {}
    for r, _, fs in os.walk(ctx.path(d)):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), ctx.path(d))
            if rel in skip:
                continue
            b = open(os.path.join(r, f), "rb").read()
            b = re.sub(rb'creation_date="[^"]*"', b"", b)
            b = re.sub(rb"(?m)^.*\(run on .*$", b"", b)
            o[rel] = re.sub(rb"(?m)^.*(Date|DATE|date)[:=].*$", b"", b)
    return o


def same(ctx, skip, show):
    a, b = tree(ctx, "run", skip), tree(ctx, "exp", skip)
    if set(a) != set(b):
        raise Violation(show + "files written: %s\nexpected: %s" % (sorted(set(a) - set(b)), sorted(set(b) - set(a))))
    for f in sorted(a):
        if a[f] != b[f]:
            raise Violation(show + "report %s:\n%s\nexpected:\n%s" % (f, a[f].decode(L)[:2000], b[f].decode(L)[:2000]))


LEX = ["Haus", "Tier", "Fuss-Ball", "Ball", "Spiel", "B\xe4r"]


class Hub(Suite):
    name, quick, thorough = "hubscr", 320, 6000

    def gen(self, s):
        lang = s.weighted((6, "english"), (2, "spanish"), (2, "italian"), (2, "arabic"), (2, "mandarin"), (2, "german"))
        base = WORDS[lang]
        word = lambda: s.choice(base)
        asc = lang == "english" and s.bool(.35)
        hub = s.choice(["hub4", "hub5", "rt-stt"])
        nfile = s.int(1, 3)
        chans = ["A", "B"] if s.bool() else ["1"]
        ref, nsys = [], s.weighted((4, 1), (3, 2), (1, 3))
        hyps = [[] for _ in range(nsys)]
        conf = s.bool()
        ext = hub == "rt-stt" and s.bool(.8)

        def tok():
            w, k = word(), s.int(0, 11)
            return "(%s)" % w if k == 0 else w + "-" if k == 1 and w[-1] != "-" and "-" not in w else w
        for fi in range(nfile):
            for ch in chans:
                t = s.int(0, 20)
                for _ in range(s.int(1, 4)):
                    n = s.int(0, 5)
                    ws = [tok() for _ in range(n)]
                    d = s.int(2, 20) + 4 * n
                    ref.append({"f": "f%d" % fi, "c": ch, "spk": "s%s%d" % (ch, s.int(0, 2)), "b": t, "e": t + d, "w": ws})
                    for h in hyps:
                        cur = [w for w in ws if s.bool(.85)]
                        cur = [word() if s.bool(.2) else w.strip("()") for w in cur] + ([word()] if s.bool(.2) else [])
                        for i, w in enumerate(cur):
                            b, e = t * 8 + i * d * 8 // len(cur), t * 8 + (i + 1) * d * 8 // len(cur)
                            h.append({"f": "f%d" % fi, "c": ch, "b": b, "d": max(1, (e - b) * s.int(5, 9) // 10), "w": w})
                    t += d + s.choice([0, 0, 5, 20])
        if not all(len({(x["f"], x["c"]) for x in h}) == nfile * len(chans) for h in hyps):
            for h in hyps:
                for fi in range(nfile):
                    for ch in chans:
                        if not any(x["f"] == "f%d" % fi and x["c"] == ch for x in h):
                            h.append({"f": "f%d" % fi, "c": ch, "b": 8000, "d": 2, "w": word()})
        for h in hyps:
            h.sort(key=lambda x: (x["f"], x["c"], x["b"]))
            for x in h:
                x["conf"] = s.choice(["0.5", "0.9", "0.25", "1.0", "0.75"]) if conf or ext else None
                x["type"] = s.choice(["lex", "lex", "lex", "fp", "frag", "misc", "non-lex"]) if ext else None
                if ext and s.bool(.2):
                    x["conf"] = s.choice(["NA", "na"])
            if ext and conf:
                for x in h:
                    x["conf"] = "0.5" if x["conf"].lower() == "na" else x["conf"]
            elif ext:
                for x in h:
                    x["conf"] = s.choice(["NA", "na", "Na"])
        rules = []
        for _ in range(s.int(0, 4)):
            a = s.choice(base)
            b = s.choice([word(), word() + " " + word(), "", "(%s)" % word(), "{ %s / %s }" % (word(), word())])
            rules.append({"a": a, "b": b, "c": " ", "d": " ", "q": 15, "note": False, "sp": 0, "slot": "__"})
        secs = [{"exp": None, "rules": rules}] + ([{"exp": s.choice(["hyp", "ref", "ctm", "stm"]), "rules": [{"a": word(), "b": word(), "c": " ", "d": " ", "q": 15, "note": False, "sp": 0, "slot": "__"}]}] if s.bool(.4) else [])
        return {"lang": lang, "asc": asc, "hub": hub, "ref": ref, "hyps": hyps, "secs": secs, "cs": s.bool(),
                "shuf": lang != "mandarin" and s.bool(.6), "order": [s.int(0, 9999) for _ in range(40)], "sep": s.choice([" ", "\t", "mix", "  "]),
                "H": lang == "arabic" and s.bool(), "T": lang == "arabic" and s.bool(), "sub": s.bool(.3), "V": lang in ("arabic", "mandarin", "spanish", "italian", "german") or s.bool(.3),
                "com": s.bool(.4), "d": s.bool(.6), "w": not asc and lang == "english" and s.bool(.3), "o": s.choice([None, 1, 2]) if asc else None, "n": s.choice([None, "ens"]), "e": s.choice([None, "a description"])}

    # -- model of the filter -------------------------------------------------
    def filt(self, case, fmt, purp):
        lang = case["lang"]
        return {"fmt": fmt, "up": lang not in ("italian", "arabic"), "ext": lang in ("spanish", "italian", "german"), "dh": True, "purp": purp, "secs": case["secs"], "cs": case["cs"]}

    def norm(self, case, w):
        if case["lang"] == "arabic":
            u = w.encode(L).decode("utf-8")
            if case["H"]:
                u = c21.hamza(u)
            if case["T"]:
                u = c21.tanween(u, True)
            w = u.encode("utf-8").decode(L)
        return w

    def words(self, case, conf, toks):
        out = c20.filt(conf, " ".join(toks))
        t = " ".join(out)
        if re.search(r"\([^)]*[{}/]|[{}]\)", t) or re.search(r"\([^)]*\(|\)[^( ]|[^ ({/]\(", t) or re.search(r"(\{|/)\s*(/|\})", t):
            raise Discard()
        if conf["fmt"] == "ctm" and ("{" in t and not re.match(r"^\{[^{}]*\}$", t)):
            raise Discard()
        return self.divide(case, out) if conf["fmt"] == "stm" else out

    def divide(self, case, ws):
        """German compounds, after the rules"""
        if case["lang"] != "german":
            return ws
        conv = c28.Acomp().model({"lex": LEX, "m": 2, "t": False, "s": False, "f": True})
        return [x for w in ws for x in conv(w)]

    def check(self, case, ctx):
        for r in (r for sec in case["secs"] for r in sec["rules"]):
            if "(" in r["b"] and any("(" in w for x in case["ref"] for w in x["w"]):
                raise Discard()
        key = case["order"]
        seps = lambda i: case["sep"] if case["sep"] != "mix" else [" ", "\t", "  "][key[i % len(key)] % 3]
        changed = False

        def layout(recs, head):
            """lines in file order; the model's order is the sorted one"""
            idx = list(range(len(recs)))
            if case["shuf"]:
                idx.sort(key=lambda i: (key[i % len(key)] * (i + 3)) % 101)
            return idx
        # reference
        cf = self.filt(case, "stm", "ref")
        idx = layout(case["ref"], None)
        lines, want = [], []
        if case["com"]:
            lines.append(";; a comment (uh")
            want.append([";; a comment (uh"])
        for i in idx:
            x = case["ref"][i]
            f = [x["f"], x["c"], x["spk"], "%.2f" % (x["b"] / 8), "%.2f" % (x["e"] / 8)] + x["w"]
            lines.append(f[0] + "".join(seps(i + j) + t for j, t in enumerate(f[1:])))
        order = sorted(idx, key=lambda i: (case["ref"][i]["f"], case["ref"][i]["c"], case["ref"][i]["b"])) if case["lang"] != "mandarin" else idx
        for i in order:
            x = case["ref"][i]
            ws = self.words(case, cf, [self.norm(case, w) for w in x["w"]])
            changed |= [w.upper() for w in ws] != [w.upper() for w in x["w"]]
            want.append([x["f"], x["c"], x["spk"], "%.2f" % (x["b"] / 8), "%.2f" % (x["e"] / 8)] + ws)
        sub = "d/" if case["sub"] else ""
        names = [sub + "sys%d.ctm" % k for k in range(len(case["hyps"]))]
        files = {"ref.stm": (lines, want)}
        cf = self.filt(case, "ctm", "hyp")
        for k, h in enumerate(case["hyps"]):
            idx = layout(h, None)
            lines, want = [], []
            if case["com"]:
                lines.append(";; another one")
                if case["lang"] == "mandarin":
                    want.append([";; another one"])
            for i in idx:
                x = h[i]
                f = [x["f"], x["c"], "%.3f" % (x["b"] / 64), "%.3f" % (x["d"] / 64), x["w"]] + ([x["conf"]] if x["conf"] else []) + ([x["type"], "spk"] if x["type"] else [])
                lines.append(f[0] + "".join(seps(i + j) + t for j, t in enumerate(f[1:])))
            order = sorted(idx, key=lambda i: (h[i]["f"], h[i]["c"], h[i]["b"])) if case["lang"] != "mandarin" else idx
            for i in order:
                x = h[i]
                if x["type"] and x["type"] != "lex":
                    changed = True
                    continue
                conf = [x["conf"]] if x["conf"] and not (x["type"] and x["conf"].lower() == "na") else []
                ws = " ".join(self.words(case, cf, [self.norm(case, x["w"])])).replace("{", " { ").replace("}", " } ").split()
                changed |= [w.upper() for w in ws] != [x["w"].upper()]
                alts, cur = [], []
                for w in ws:
                    if w in "{}":
                        continue
                    if w == "/":
                        alts.append(cur)
                        cur = []
                    else:
                        cur.append(w)
                alts.append(cur)
                if not ws:
                    continue
                if len(alts) > 1:
                    want.append([x["f"], x["c"], "*", "*", "<ALT_BEGIN>"])
                for n, al in enumerate(alts):
                    if n:
                        want.append([x["f"], x["c"], "*", "*", "<ALT>"])
                    for j, w in enumerate(al):
                        # the rules share the word's time out first, the compounds then share theirs
                        d = x["d"] / 64 / len(al)
                        parts = self.divide(case, [w])
                        for i2, p in enumerate(parts):
                            want.append([x["f"], x["c"], x["b"] / 64 + j * d + i2 * d / len(parts), d / len(parts), p] + conf)
                if len(alts) > 1:
                    want.append([x["f"], x["c"], "*", "*", "<ALT_END>"])
            files[names[k]] = (lines, want)
        g = c20.Filter().glm({"cs": case["cs"], "secs": case["secs"]})
        for d in ("run", "exp"):
            os.makedirs(ctx.path(d + "/d"), exist_ok=True)
        ctx.write("run/g.glm", g.encode(L))
        ctx.write("run/lex", "".join(x + "\n" for x in LEX).encode(L))
        wwl = "".join("%s %g\n" % (w.replace("-", " ").split()[0].upper(), (i % 4 + 1) / 2) for i, w in enumerate(WORDS[case["lang"]]))
        for d in ("run", "exp"):
            ctx.write(d + "/w.wwl", wwl.encode(L))
        for f, (lines, _) in files.items():
            ctx.write("run/" + f, "".join(l + "\n" for l in lines).encode(L))
        cmd = ["hubscr.pl", "-g", "g.glm", "-l", case["lang"], "-h", case["hub"], "-r", "ref.stm"]
        cmd += (["-V"] if case["V"] else []) + (["-a"] if case["asc"] else []) + (["-o", str(case["o"])] if case["o"] else []) + (["-H"] if case["H"] else []) + (["-T"] if case["T"] else [])
        cmd += (["-w", "w.wwl"] if case["w"] else []) + (["-L", "lex"] if case["lang"] == "german" else [])
        cmd += (["-d"] if case["lang"] == "arabic" and case["d"] else []) + (["-n", case["n"]] if case["n"] else []) + (["-e", case["e"]] if case["e"] else []) + names
        env = {"PATH": ":".join(ctx.bins[x] for x in ("perl", "sclite", "asclite", "rf")) + ":/usr/bin:/bin"}
        cmd[0] = ctx.bins["perl"] + "/" + cmd[0]
        rc, out, err = ctx.run(cmd, env=env, cwd=ctx.path("run"), ok=None, text=False, timeout=120)
        out, err = out.decode(L), err.decode(L) if isinstance(err, bytes) else err
        ctx.evals += 1
        show = "%s\nrules:\n%s\n" % (" ".join(cmd[1:]), g) + "".join("%s:\n%s\n" % (f, "\n".join(l)) for f, (l, _) in files.items())
        # what the engine does with the modelled files decides whether the run may fail
        ok = True
        for f, (_, want) in files.items():
            p = "run/" + f + ".filt"
            if not os.path.exists(ctx.path(p)):
                if rc == 0:
                    raise Violation(show + "no filtered file for %s\n%s%s" % (f, out, err))
                raise Violation(show + "exit status %d before %s was filtered\n%s%s" % (rc, f, out, err))
            got = ctx.read(p, binary=True).decode(L).split("\n")[:-1]
            bad = len(got) != len(want)
            for gl, w in zip(got, want):
                a = gl.split()
                if f != "ref.stm" and len(w) > 2 and not isinstance(w[2], str):
                    try:
                        bad |= a[:2] + a[4:] != w[:2] + w[4:] or abs(float(a[2]) - w[2]) > .0016 or abs(float(a[3]) - w[3]) > .0016
                    except (ValueError, IndexError):
                        bad = True
                else:
                    bad |= a != " ".join(w).split()
            if bad:
                raise Violation(show + "filtered %s:\n%s\nexpected:\n%s\n%s" % (f, "\n".join(got), "\n".join(" ".join(str(x) for x in w) for w in want), err[-600:]))
            ctx.write("exp/" + f + ".filt", ctx.read(p, binary=True))
        # score the filtered files again with the engine
        exp_ok, sgml = True, []
        if not case["V"]:
            for f in files:
                v = "stmValidator.pl" if f == "ref.stm" else "ctmValidator.pl"
                rv, _, _ = ctx.run(["perl", ctx.bins["perl"] + "/" + v, "-l", case["lang"], "-i", f + ".filt"], env=env, cwd=ctx.path("exp"), ok=None, text=False)
                exp_ok &= rv == 0
        for nm in names if exp_ok else []:
            o = nm + ".filt"
            on = ["-O", "d", "-n", o[2:]] if case["sub"] else ["-n", o]
            if case["asc"]:
                r1, _, e1 = ctx.run(["asclite", "-f", "6"] + (["-overlap-limit", str(case["o"])] if case["o"] else []) + ["-adaptive-cost", "-time-prune", "100", "-word-time-align", "100", "-memory-compression", "256",
                                     "-memory-limit", "1", "-r", "ref.stm.filt", "stm", "-h", o, "ctm", nm, "-F", "-D", "-spkrautooverlap", "ref", "-o", "sgml", "sum", "rsum"],
                                    env=env, cwd=ctx.path("exp"), ok=None, text=False, timeout=120)
                exp_ok &= r1 == 0
                if r1 == 0:
                    r2, _, e2 = ctx.run(["sclite", "-P", "-o", "dtl", "pra", "prf", "-C", "det", "sbhist", "hist"] + on, stdin=ctx.read("exp/" + o + ".sgml", binary=True), env=env, cwd=ctx.path("exp"), ok=None, text=False)
                    exp_ok &= r2 == 0
            else:
                c = ["sclite", "-r", "ref.stm.filt", "stm", "-h", o, "ctm", nm, "-F", "-D", "-o", "sum", "rsum", "sgml", "lur", "dtl", "pra", "prf", "-C", "det", "sbhist", "hist"] + on
                c += ["-c", "NOASCII", "DH", "-e", "gb"] if case["lang"] == "mandarin" else ["-s"] if case["lang"] == "arabic" else []
                c += ["-w", "w.wwl", "-o", "wws"] if case["w"] else []
                r1, _, e1 = ctx.run(c, env=env, cwd=ctx.path("exp"), ok=None, text=False)
                exp_ok &= r1 == 0
            if not exp_ok:
                break
            sgml.append(ctx.read("exp/" + o + ".sgml", binary=True))
        if exp_ok and len(names) > 1:
            c = ["sc_stats", "-p", "-r", "sum", "rsum", "es", "res", "lur", "-t", "std4", "-u", "-g", "grange2", "det"] + (["-n", case["n"]] if case["n"] else []) + (["-e", case["e"]] if case["e"] else [])
            r3, ens, _ = ctx.run(c, stdin=b"".join(sgml), env=env, cwd=ctx.path("exp"), ok=None, text=False)
            exp_ok &= r3 == 0
        if (rc == 0) != exp_ok:
            raise Violation(show + "exit status %d, but the engine %s on the filtered files\n%s%s" % (rc, "succeeds" if exp_ok else "fails", out, err[-800:]))
        if not exp_ok:
            raise Discard()

        same(ctx, set(files) | {"g.glm", "lex", "w.wwl"}, show)
        ctx.label(case["lang"], case["hub"], "asclite" if case["asc"] else "", "%d systems" % len(names), "shuffled" if case["shuf"] else "")
        if changed or case["shuf"]:
            ctx.nontrivial(show)


class Sastt(Suite):
    """Speaker-attributed scoring: rttm systems, rttm or stm reference."""
    name, quick, thorough = "sastt", 60, 1500

    def gen(self, s):
        word = lambda: s.choice(["a", "b", "ab", "ba", "uh", "ok", "new-york", "don't"])
        ref, hyps = [], [[] for _ in range(s.int(1, 2))]
        for fi in range(s.int(1, 2)):
            t = s.int(0, 16)
            for _ in range(s.int(1, 4)):
                spk = s.int(0, 2)
                d = s.int(4, 30)
                ws = [word() for _ in range(s.int(1, 4))]
                ref.append(["f%d" % fi, "s%d" % spk, t, d, ws])
                for h in hyps:
                    h.append(["f%d" % fi, "h%d" % (spk if s.bool(.8) else s.int(0, 2)), t + s.int(0, 1), max(2, d - s.int(0, 3)), [w if s.bool(.8) else word() for w in ws if s.bool(.9)] or [word()]])
                t += d + s.choice([0, 2, 9])
        rules = [{"a": word(), "b": s.choice([word(), word() + " " + word(), ""]), "c": " ", "d": " ", "q": 15, "note": False, "sp": 0, "slot": "__"} for _ in range(s.int(0, 2))]
        return {"ref": ref, "hyps": hyps, "rules": rules, "stm": s.bool(.3), "V": s.bool(.5), "u": s.bool(.3), "shuf": s.bool(.5), "order": [s.int(0, 999) for _ in range(30)], "M": s.choice([None, None, "-nafcs -c 0.5 -o", "-c 0"]), "n": s.choice([None, "ens"])}

    def rttm(self, case, segs):
        o = []
        for f, sp in sorted({(x[0], x[1]) for x in segs}):
            o.append("SPKR-INFO %s 1 <NA> <NA> <NA> unknown %s <NA>" % (f, sp))
        body = []
        for f, sp, t, d, ws in segs:
            body.append("SPEAKER %s 1 %.3f %.3f <NA> <NA> %s <NA>" % (f, t / 8, d / 8, sp))
            for i, w in enumerate(ws):
                step = d / 8 / len(ws)
                body.append("LEXEME %s 1 %.3f %.3f %s lex %s %s" % (f, t / 8 + i * step, step * .75, w, sp, "<NA>"))
        if case["shuf"]:
            k = case["order"]
            body = [b for _, b in sorted(enumerate(body), key=lambda x: (k[x[0] % 30] * (x[0] + 7)) % 97)]
        return "".join(x + "\n" for x in o + body)

    def check(self, case, ctx):
        for d in ("run", "exp"):
            os.makedirs(ctx.path(d), exist_ok=True)
        g = c20.Filter().glm({"cs": False, "secs": [{"exp": None, "rules": case["rules"]}]})
        fm = "stm" if case["stm"] else "rttm"
        names = ["h%d.rttm" % i for i in range(len(case["hyps"]))]
        files = {"ref." + fm: "".join("%s 1 %s %.3f %.3f %s\n" % (f, sp, t / 8, (t + d) / 8, " ".join(ws)) for f, sp, t, d, ws in case["ref"]) if case["stm"] else self.rttm(case, case["ref"])}
        files.update({n: self.rttm(case, h) for n, h in zip(names, case["hyps"])})
        files["g.glm"] = g
        end = max(t + d for _, _, t, d, _ in case["ref"])
        files["u.uem"] = "".join("%s 1 0 %.2f\n" % (f, end / 8 + 1) for f in sorted({x[0] for x in case["ref"]}))
        for n, t in files.items():
            ctx.write("run/" + n, t)
            ctx.write("exp/" + n, t)
        ref = "ref." + fm
        cmd = [ctx.bins["perl"] + "/hubscr.pl", "-g", "g.glm", "-l", "english", "-h", "sastt", "-a", "-f", "rttm", "-F", fm, "-r", ref] + (["-V"] if case["V"] else []) + (["-u", "u.uem"] if case["u"] else []) + (["-M", case["M"]] if case["M"] else []) + (["-n", case["n"]] if case["n"] else []) + names
        env = {"PATH": ":".join(ctx.bins[x] for x in ("perl", "sclite", "asclite", "rf")) + ":/usr/bin:/bin"}
        rc, out, err = ctx.run(cmd, env=env, cwd=ctx.path("run"), ok=None, timeout=120)
        ctx.evals += 1
        show = " ".join(cmd[1:]) + "\n" + "".join("%s:\n%s\n" % x for x in files.items())
        ok = True
        sh = lambda c: ctx.run(["bash", "-o", "pipefail", "-c", c], env=env, cwd=ctx.path("exp"), ok=None, timeout=120)[0] == 0
        sort = {"stm": "hubscr.pl sortSTM", "rttm": "rttmSort.pl"}
        for n, f, pu in [(ref, fm, "ref")] + [(n, "rttm", "hyp") for n in names]:
            ok = sh("%s < %s | csrfilt.sh -i %s -t %s -dh g.glm > %s.filt" % (sort[f], n, f, pu, n)) and ok
        if not case["V"]:
            for n in [ref] + names:
                ok = sh("stmValidator.pl -l english -i %s.filt" % n if n == "ref.stm" else "rttmValidator.pl -S -f -u -i %s.filt" % n) and ok
        md = ref + ".filt"
        for n in names:
            if not ok:
                break
            if case["stm"]:
                md = ref + ".filt.rttm"
                ok = sh("stm2rttm.pl -e rt05s < %s.filt > %s" % (ref, md))
            ok = ok and sh("md-eval.pl %s %s -r %s -s %s.filt -M %s.filt.mdeval.spkrmap > %s.filt.mdeval" % (case["M"] or "-nafcs -c 0.25 -o", "-u u.uem" if case["u"] else "", md, n, n, n))
            ok = ok and sh("asclite -f 6 -spkr-align %s.filt.mdeval.spkrmap -adaptive-cost -time-prune 100 -word-time-align 100 -memory-compression 256 -memory-limit 1 -r %s.filt %s -h %s.filt rttm %s -F -D -spkrautooverlap ref -o sgml sum rsum" % (n, ref, fm, n, n))
            ok = ok and sh("sclite -P -o dtl pra prf -C det sbhist hist -n %s.filt < %s.filt.sgml" % (n, n))
        if ok and len(names) > 1:
            ok = sh("cat %s | sc_stats -p -r sum rsum es res lur -t std4 -u -g grange2 det %s" % (" ".join(n + ".filt.sgml" for n in names), "-n ens" if case["n"] else ""))
        if (rc == 0) != ok:
            raise Violation(show + "exit status %d, but the steps %s\n%s%s" % (rc, "succeed" if ok else "fail", out[-500:], err[-800:]))
        if not ok:
            ctx.label("refused")
            raise Discard()
        same(ctx, set(files), show)
        ctx.label(fm, "%d systems" % len(names))
        ctx.nontrivial(show)


class Refused(Suite):
    """Runs that cannot be scored end with a non-zero status and without scores."""
    name, quick, thorough = "refused", 80, 1500
    KINDS = ["noref", "nohyp", "noglm", "badglm", "parens", "ctm", "stm", "lang", "hub", "nolex", "noargs", "overlap", "asclite", "lm", "wwl", "hamza", "short", "sastt"]

    def gen(self, s):
        return {"kind": s.choice(self.KINDS), "n": s.int(1, 3), "at": s.int(0, 2), "lines": s.int(1, 4), "pos": s.int(0, 9), "a": s.bool(.3)}

    def check(self, case, ctx):
        k = case["kind"]
        env = {"PATH": ":".join(ctx.bins[x] for x in ("perl", "sclite", "asclite", "rf")) + ":/usr/bin:/bin"}
        g = c20.Filter().glm({"cs": False, "secs": [{"exp": None, "rules": []}]})
        ref = ["f 1 s %d %d ab ba" % (3 * i, 3 * i + 2) for i in range(case["lines"])]
        hyp = ["f 1 %d.5 0.25 ab 0.5" % (3 * i) for i in range(case["lines"])]
        names = ["h%d.ctm" % i for i in range(case["n"])]
        bad = case["at"] % case["n"]
        hyps = [list(hyp) for _ in names]
        ins = lambda l, x: l.insert(case["pos"] % (len(l) + 1), x)
        opt = {"-g": "g.glm", "-l": "english", "-h": "hub5", "-r": "ref.stm"}
        extra = ["-a"] if case["a"] else []
        if k == "noref":
            opt["-r"] = "none.stm"
        elif k == "nohyp":
            names[bad] = "none.ctm"
        elif k == "noglm":
            opt["-g"] = "none.glm"
        elif k == "badglm":
            g += "foo bar\n"
        elif k == "parens":
            (ins(ref, "f 1 s 100 102 (ab")) if case["pos"] % 2 else ins(hyps[bad], "f 1 100 0.5 (ab")
        elif k == "ctm":
            ins(hyps[bad], ["f 1 100 ab 0.5", "f 1 x 0.5 ab"][case["pos"] % 2])
        elif k == "stm":
            ins(ref, ["f 1 s 100 102 a?b", "f 1 s 100 102 a,b"][case["pos"] % 2])
        elif k == "short":
            ins(ref, "f 1 s") if case["pos"] % 2 else ins(hyps[bad], "f 1 100")
        elif k == "lang":
            opt["-l"] = "klingon"
        elif k == "hub":
            opt["-h"] = "hub6"
        elif k == "nolex":
            extra, opt["-l"] = (["-L", "none"] if case["pos"] % 2 else []), "german"
        elif k == "noargs":
            opt.pop(["-g", "-l", "-h", "-r"][case["pos"] % 4])
        elif k == "overlap":
            extra = [["-o", "2"], ["-m", "2"]][case["pos"] % 2]
        elif k == "asclite":
            extra, opt["-l"] = ["-a"], "spanish"
        elif k == "lm":
            extra = ["-K", "none"]
        elif k == "wwl":
            extra = ["-w", "none"]
        elif k == "hamza":
            extra = [["-H", "-T"][case["pos"] % 2]]
        elif k == "sastt":
            opt["-h"] = "sastt"
        ctx.write("g.glm", g)
        ctx.write("ref.stm", "".join(x + "\n" for x in ref))
        for n, h in zip(["h%d.ctm" % i for i in range(case["n"])], hyps):
            ctx.write(n, "".join(x + "\n" for x in h))
        cmd = [ctx.bins["perl"] + "/hubscr.pl"] + [x for kv in opt.items() for x in kv] + extra + names
        rc, out, err = ctx.run(cmd, env=env, ok=None, timeout=120)
        ctx.evals += 1
        made = [n for n in os.listdir(ctx.dir) if n.endswith((".sys", ".raw", ".sgml")) and (k not in ("ctm", "short") or n.startswith(names[bad]))]
        if rc == 0 or not (out + err).strip() or made:
            raise Violation("%s: %s\nref:\n%s\nhyps:\n%s\nexit status %d, scores %s\n%s%s" % (k, " ".join(cmd[1:]), "\n".join(ref), "\n".join(map(str, hyps)), rc, made, out[-600:], err[-600:]))
        ctx.label(k)
        ctx.nontrivial((k, cmd[1:], ref, hyps))


def build():
    return {"perl": B.perl(), "sclite": B.sclite(), "asclite": B.asclite(), "rf": B.rfilter1()}


SUITES = [Hub(), Sastt(), Refused()]
