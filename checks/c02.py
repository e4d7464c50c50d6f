"""C02: every report of one sclite run states the same, arithmetically correct, result."""
import os, re
from vf import build as B, scl, reports as R
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run (1-12 speakers, empty transcripts, speakers without reference words, long words) writing every report; "
        "each is re-derived from the run's own SGML alignments, which are themselves checked to be faithful readings of the input. "
        "One evaluation is one report. Non-trivial: at least one error and two speakers; distinct inputs counted.")
ASSUMPTIONS = ["printed percentages are accepted within rounding (0.0501)", "pretty-printed columns are checked on ASCII words"]


def build():
    return {"sclite": B.sclite() + "/sclite"}


def totals(sy, case_ids=None):
    out = []
    for sp in sy["speakers"]:
        t = R.Tot()
        for p in sp["paths"]:
            t.add(*scl.counts(p["toks"]))
        out.append((sp["id"], t))
    return out


class Reports(Suite):
    name, quick, thorough = "reports", 6500, 60000

    def gen(self, s):
        o = {"case": s.bool(.3), "frag": s.bool(.2), "opt": s.bool(.3), "ascii": 1}
        flags = [f for f in ("-s", "-F", "-D") if s.bool(.3)]
        if s.bool(.25):
            flags += ["-l", str(s.choice([8, 12, 20, 30, 45, 80, 200]))]
        nsp = s.weighted((4, 1), (4, 2), (4, 3), (3, 5), (2, 12), (1, 24))
        mean = s.choice([1, 3, 8])

        def utt():
            sp = s.draw(nsp - 1)
            empty = s.bool(.15)
            ref = [] if empty else scl.gen_seq(s, o, mean, hi=30)
            if s.bool(.8):
                hyp = scl.corrupt(s, ref, o, s.choice([0, .2, .5]))
            else:
                hyp = scl.gen_seq(s, o, mean, hi=30)
            if s.bool(.04):
                hyp = hyp + ["w" * s.int(30, 130)]
            if s.bool(.04):
                ref = ["v" * s.int(30, 130)] + ref
            return [sp, ref, hyp]
        # now and then many distinct words, so that every lexicon of the reports has to grow
        bulk = [s.choice([60, 120, 230, 450, 900]), s.choice([1, 2, 3, 7]), nsp] if s.bool(.03) else None
        return {"flags": flags, "bulk": bulk, "utts": s.list(utt, 1, 60, 10), "names": s.choice(["s%d", "spk%02d", "VeryLongSpeakerName%d", "%d"])}

    def check(self, case, ctx):
        fl = case["flags"]
        cs = "-s" in fl
        rt, ht, ids = "", "", {}
        order = []
        utts = list(case["utts"])
        if case.get("bulk"):
            n, m, k = case["bulk"]
            for i in range(n):
                j = i * 7919 % (n // m)
                r = ["p%d" % j, "q%d" % i] if i % m == 0 else ["p%d" % j]
                utts.append([i % k, r, [["x%d" % j], ["x%d" % j, "q%d" % i, "y%d" % j], []][i % 3]])
        for i, (sp, r, h) in enumerate(utts):
            r = scl.map_words(r, lambda w: w.encode("ascii", "replace").decode())
            h = scl.map_words(h, lambda w: w.encode("ascii", "replace").decode())
            nm = case["names"] % sp
            uid = "(%s-%d)" % (nm, i)
            rt += "%s %s\n" % (scl.render(r), uid)
            ht += "%s %s\n" % (scl.render(h), uid)
            nm, uid = scl.fold(nm, cs), scl.fold(uid, cs)
            f = lambda w: scl.fold(w, cs)
            ids[uid] = (nm, scl.map_words(r, f), scl.map_words(h, f))
            if nm not in order:
                order.append(nm)
        ctx.write("r.trn", rt)
        ctx.write("h.trn", ht)
        os.mkdir(ctx.path("o"))
        ctx.run([ctx.bins["sclite"], "-r", "r.trn", "trn", "-h", "h.trn", "trn", "-i", "spu_id", "-O", "o", "-n", "x",
                 "-o", "sum", "rsum", "pralign", "prf", "dtl", "snt", "spk", "sgml", "nl.sgml"] + fl)
        sy = scl.parse_sgml(ctx.read("o/x.sgml"))[0]
        seen = set()
        W = scl.Words("-F" in fl, "-D" in fl)
        alltoks = {}
        for sp in sy["speakers"]:
            for p in sp["paths"]:
                uid = p["attrs"]["id"]
                if uid not in ids or uid in seen or ids[uid][0] != sp["id"]:
                    raise Violation("utterance %s reported under speaker %s" % (uid, sp["id"]))
                seen.add(uid)
                scl.check_alignment(p["toks"], ids[uid][1], ids[uid][2], W, uid)
                alltoks[uid] = p["toks"]
                if int(p["attrs"]["word_cnt"]) != len(p["toks"]):
                    raise Violation("%s: word_cnt=%s for %d tokens" % (uid, p["attrs"]["word_cnt"], len(p["toks"])))
        if seen != set(ids):
            raise Violation("utterances missing from the alignment: %r" % (set(ids) - seen))
        if sorted(x["id"] for x in sy["speakers"]) != sorted(order):
            raise Violation("speakers %r, expected %r" % ([x["id"] for x in sy["speakers"]], order))
        spk = totals(sy)
        R.check_summary(ctx.read("o/x.sys"), spk, False, "sum report")
        tot = R.check_summary(ctx.read("o/x.raw"), spk, True, "rsum report")
        for ext in ("pra", "prf"):
            ent = R.parse_pra(ctx.read("o/x." + ext))
            if sorted(e[0] for e in ent) != sorted(ids):
                raise Violation("%s report lists %d utterances of %d" % (ext, len(ent), len(ids)))
            for e in ent:
                R.check_pra_utt(e, alltoks[e[0]], cs, "%s %s" % (ext, e[0]))
        R.check_detail(ctx.read("o/x.dtl"), tot, list(alltoks.values()), "dtl report")
        for (name, t), sp in zip(spk, sy["speakers"]):
            R.check_detail(ctx.read("o/x.spk." + name), t, [p["toks"] for p in sp["paths"]], "spk report " + name)
            self.snt(ctx.read("o/x.snt." + name), sp, name)
        self.nl(ctx.read("o/x.nl.sgml"), sy)
        ctx.evals += 6 + 2 * len(spk)
        if tot.err and len(spk) > 1:
            ctx.nontrivial(case)
        ctx.label("speakers:%s" % (len(spk) if len(spk) < 4 else "4+"))
        nz = sum(1 for _, t in spk if t.ref == 0)
        ctx.label("speakers without reference words: %s" % (nz if nz < 2 else "2+"))
        if "-l" in fl:
            ctx.label("line width set")

    def snt(self, text, sp, name):
        blocks = re.split(r"^id: ", text, flags=re.M)[1:]
        if len(blocks) != len(sp["paths"]):
            raise Violation("snt report of %s has %d utterances of %d" % (name, len(blocks), len(sp["paths"])))
        by = {p["attrs"]["id"]: p["toks"] for p in sp["paths"]}
        run = [0] * 5
        for b in blocks:
            uid = b.split("\n")[0]
            c, s, d, i = scl.counts(by[uid])
            run = [x + y for x, y in zip(run, (c, s, d, i, 0))]
            for lab, n, cum in (("Correct", c, run[0]), ("Substitutions", s, run[1]), ("Deletions", d, run[2]), ("Insertions", i, run[3]),
                                ("Errors", s + d + i, run[1] + run[2] + run[3])):
                m = re.search(r"^%s +=  *([\d.]+|UNDEF)%% +(\d+) +\( *(\d+)\)$" % lab, b, re.M)
                ref = c + s + d
                if not m or int(m[2]) != n or int(m[3]) != cum or (m[1] != "UNDEF" if not ref else abs(float(m[1].replace("UNDEF", "nan")) - R.pct(n, ref)) > .0501):
                    raise Violation("snt report %s: %s line %r, expected %d (cumulative %d)" % (uid, lab, m and m[0], n, cum))
            for lab, n, cum in (("Ref. words", c + s + d, sum(run[:3])), ("Hyp. words", c + s + i, run[0] + run[1] + run[3]),
                                ("Aligned words", c + s + d + i, sum(run[:4]))):
                m = re.search(r"^%s += +(\d+) +\( *(\d+)\)$" % re.escape(lab), b, re.M)
                if not m or int(m[1]) != n or int(m[2]) != cum:
                    raise Violation("snt report %s: %s line %r, expected %d (cumulative %d)" % (uid, lab, m and m[0], n, cum))

    def nl(self, text, sy):
        """the newline-separated SGML holds the same tokens"""
        cur, got = None, {}
        for ln in text.split("\n"):
            m = re.match(r'^<PATH id="(.*?)" ', ln)
            if m:
                cur = []
                got[m[1]] = cur
            elif ln.startswith("</PATH"):
                cur = None
            elif cur is not None:
                cur.append(ln)
        for sp in sy["speakers"]:
            for p in sp["paths"]:
                exp = []
                for ev, r, h, _ in p["toks"]:
                    exp += [ev, r, h]
                g = got.get(p["attrs"]["id"])
                gg = [(x.strip('"') or None) if k % 3 else x for k, x in enumerate(g or [])]
                if not p["toks"]:
                    gg = [x for x in gg if x]
                if gg != exp:
                    raise Violation("nl.sgml %s: %r, expected %r" % (p["attrs"]["id"], gg, exp))


AUX = {"r_t1+t2": ("R_T1", "R_T2"), "h_t1+t2": ("H_T1", "H_T2"), "r_conf": ("RCNF",), "h_conf": ("CONF",), "r_weight": ("R_WE",), "h_weight": ("H_WE",)}
ROWS = ["REF", "R_T1", "R_T2", "RCNF", "HYP", "H_T1", "H_T2", "CONF", "R_WE", "H_WE", "Eval"]


class Printouts(Suite):
    """timed input: the printed alignments show the times, confidences, weights, labels and places of their words"""
    name, quick, thorough = "printouts", 1500, 30000

    def gen(self, s):
        segs = []
        for _ in range(s.int(1, 8)):
            n = s.int(0, 9)
            r = [s.choice(["a", "bb", "ccc", "D", "seven77", "verylongword", "b-", "(o)"]) for _ in range(n)]
            h = [x for x in ([w if s.bool(.7) else s.choice(["x", "bb", "quitelongword"]) for w in r] + (["ins"] if s.bool(.3) else [])) if s.bool(.85)]
            segs.append([s.choice(["f1", "g"]), s.choice(["1", "A"]), s.choice(["s1", "S2"]), [[w, s.int(1, 100), s.int(0, 1000)] for w in r], [[w.strip("()"), s.int(1, 100), s.int(0, 1000)] for w in h], s.choice(["<m>", "<f>", "<m,f>", ""])])
        flags = [f for f in ("-s", "-F", "-D") if s.bool(.3)]
        if s.bool(.5):
            flags += ["-l", str(s.choice([8, 12, 20, 30, 45, 80, 200]))]
        kind = s.choice(["ctm", "stm"])
        return {"kind": kind, "segs": segs, "labels": s.bool(.5), "conf": s.bool(.6), "rconf": s.bool(.3), "w": s.choice([None, None, "unity", "file"]) if kind == "ctm" or True else None, "wts": {w: s.int(0, 40) / 8 for w in ("a", "bb", "ccc", "d", "x")}, "flags": flags}

    def check(self, c, ctx):
        stm, rc, hc = [], [], []
        clock = {}
        if c["labels"] and c["kind"] == "stm":
            stm += [';; LABEL "m" "Male" "Men"', ';; LABEL "f" "Female" ""']
        order = sorted(range(len(c["segs"])), key=lambda i: c["segs"][i][:2])
        for i in order:
            f, ch, sp, r, h, lab = c["segs"][i]
            t0 = clock.get((f, ch), 0)
            ends = []
            for ws, out, cf in ((r, rc, c["rconf"]), (h, hc, c["conf"])):
                t = t0
                for w, d, k in ws:
                    out.append("%s %s %.2f %.2f %s%s" % (f, ch, t / 100, d / 100, w, " %.3f" % (k / 1000) if cf else ""))
                    t += d + k % 3
                ends.append(t)
            e = max(ends) + 10
            stm.append("%s %s %s %.2f %.2f %s %s" % (f, ch, sp, t0 / 100, e / 100, lab if c["labels"] else "", " ".join(w for w, d, k in r)))
            clock[f, ch] = e
        ctx.write("r.stm", "\n".join(stm) + "\n")
        ctx.write("r.ctm", "\n".join(rc) + "\n")
        ctx.write("h.ctm", "\n".join(hc) + "\n")
        if c["kind"] == "ctm" and {tuple(x.split()[:2]) for x in rc} != {tuple(x.split()[:2]) for x in hc} or not hc or not rc:
            return
        if c["kind"] == "stm" and {tuple(x.split()[:2]) for x in stm if x[0] != ";"} != {tuple(x.split()[:2]) for x in hc}:
            return
        os.mkdir(ctx.path("o"))
        cmd = [ctx.bins["sclite"], "-r", "r." + c["kind"], c["kind"], "-h", "h.ctm", "ctm", "-O", "o", "-n", "x", "-o", "sgml", "pra", "prf"] + c["flags"]
        if c["w"]:
            ctx.write("wwl", "".join("%s %.4f\n" % x for x in sorted(c["wts"].items())))
            cmd += ["-w", "unity" if c["w"] == "unity" else "wwl"]
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("o/x.sgml"))[0]
        for ext in ("pra", "prf"):
            text = ctx.read("o/x." + ext)
            blocks = re.split(r"^Speaker sentences +", text, flags=re.M)[1:]
            full = {}
            if ext == "prf":
                for b in blocks:
                    head, u = re.split(r"^id: ", b, flags=re.M)
                    k, sp, j, n = re.match(r"(\d+): +(.*?) +utt# (\d+) of (\d+)\n\Z", head).groups()
                    full[int(k), sp, int(j), int(n)] = u
                if len(full) != len(blocks):
                    raise Violation("prf: headings are repeated")
            for k, sp in enumerate(sy["speakers"]):
                if ext == "pra":
                    head, *utts = re.split(r"^id: ", blocks[k], flags=re.M)
                else:
                    utts = [full.pop((k, sp["id"], j, len(sp["paths"]))) for j in range(len(sp["paths"])) if (k, sp["id"], j, len(sp["paths"])) in full]
                if ext == "pra" and re.match(r"(\d+): +(.*?) +#utts: (\d+)\n\Z", head).groups() != (str(k), sp["id"], str(len(sp["paths"]))):
                    raise Violation("pra: heading %r of speaker %d %s with %d utterances" % (head, k, sp["id"], len(sp["paths"])))
                if len(utts) != len(sp["paths"]):
                    raise Violation("%s: %d utterances of %s, should be %d" % (ext, len(utts), sp["id"], len(sp["paths"])))
                for p, u in zip(sp["paths"], utts):
                    self.utt(p, u.split("\n"), ext, c)
                    ctx.evals += 1
            if full:
                raise Violation("prf: utterances nobody has: %s" % sorted(full))
        if any(p["toks"] for sp in sy["speakers"] for p in sp["paths"]):
            ctx.nontrivial(c)

    def utt(self, p, lines, ext, c):
        a, toks = p["attrs"], p["toks"]
        what = "%s %s" % (ext, a["id"])
        n = scl.counts(toks)
        want = [a["id"]] + ["%s: %s" % (k, a[v]) for k, v in (("Labels", "labels"), ("File", "file"), ("Channel", "channel")) if v in a]
        want.append("Scores: (#C #S #D #I) %d %d %d %d" % n)
        aux = a.get("word_aux", "").split(",") if ext == "prf" else []
        at = ["Case_sensitve"] * ("-s" in c["flags"]) + ["Ref_weight"] * ("r_weight" in aux) + ["Hyp_weight"] * ("h_weight" in aux)
        got = [x.rstrip() for x in lines[:len(want)]]
        if got != [x.rstrip() for x in want]:
            raise Violation("%s: heading %r, should be %r" % (what, got, want))
        rest = lines[len(want):]
        while rest and re.match("Attributes|Ref times|Hyp times", rest[0]):
            x = rest.pop(0)
            if x.startswith("Attr"):
                if ext == "prf" and x.split()[1:] != at:
                    raise Violation("%s: %r, should be %r" % (what, x, at))
                at = []
            else:
                v = re.findall(r"[\d.]+", x.split(":")[1].replace("t1=", "").replace("t2=", ""))
                if [round(float(y) - float(a[x[0] + z]), 6) for y, z in zip(v, ("_T1", "_T2"))] != [0, 0]:
                    raise Violation("%s: %r, but the segment has %r" % (what, x, a))
        if ext == "prf" and at:
            raise Violation("%s: attributes %r are not shown" % (what, at))
        names = ["REF", "HYP", "Eval"] + [y for x in aux if x in AUX for y in AUX[x]]
        names.sort(key=ROWS.index)
        w0 = 7 if len(names) > 3 else 1
        k = 0
        groups = []
        for ln in rest:
            m = re.match(r"(>> )?(\w+): ? ?", ln)
            if m and m[2] in ROWS:
                if m[2] == "REF":
                    groups.append([])
                if bool(m[1]) != (len(groups) > 1):
                    raise Violation("%s: %r is line %d of the alignment" % (what, ln, len(groups)))
                groups[-1].append((m[2], ln[9 if m[1] else 6:]))
            elif ln.strip() and not re.match(r"Speaker|\s", ln):
                raise Violation("%s: unexpected line %r" % (what, ln))
        for g in groups:
            if [x for x, _ in g] != names:
                raise Violation("%s: lines %r, should be %r" % (what, [x for x, _ in g], names))
            pos = 0
            while pos < max(len(x) for _, x in g):
                if k >= len(toks):
                    raise Violation("%s: more columns than words" % what)
                ev, r, h, ex = toks[k][0], toks[k][1] or "", toks[k][2] or "", toks[k][3]
                w = max(w0, len(r or ""), len(h or ""))
                up = (lambda x: x) if "-s" in c["flags"] or ev == "C" else (lambda x: x.upper())
                val = {"REF": up(r) if ev != "I" else "*" * len(h), "HYP": up(h) if ev != "D" else "*" * len(r), "Eval": "" if ev == "C" else ev}
                # a word of nothing (an alternation's empty branch) is shown as nothing
                for nm, v in zip(p["attrs"].get("word_aux", "").split(","), ex):
                    if nm in AUX:
                        for q, x in zip(AUX[nm], v.split("+") if "t1" in nm else [v]):
                            val[q] = x
                for nm, ln in g:
                    s = ln[pos:pos + w].strip()
                    v = val.get(nm, "")
                    if nm in ("REF", "HYP", "Eval") or not v or not s:
                        ok = s == v
                    else:
                        ok = abs(float(s) - float(v)) <= (.0051 if "_T" in nm else .000051)
                    if not ok:
                        raise Violation("%s: word %d (%r): %s shows %r, should be %r" % (what, k, toks[k], nm, s, v))
                pos += w + 1
                k += 1
        if k != len(toks):
            raise Violation("%s: %d of %d words are shown" % (what, k, len(toks)))


SUITES = [Reports(), Printouts()]
