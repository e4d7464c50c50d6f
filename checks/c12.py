"""C12: labelled utterance reports of sclite and sc_stats."""
import re
from vf import build as B, reports as R, scl
from vf.engine import Suite, Violation

RULE = ("A case is a set of labels in categories, 1 to 8 speakers and their labelled (or unlabelled) segments. 'sclite' writes an stm reference and a ctm hypothesis and scores "
        "them with -o lur sgml; 'multi' gives sc_stats -r lur the alignments of several systems. One evaluation is one cell group (speaker or statistic row by label) "
        "recomputed from the labelled alignments. Non-trivial: the label covers at least two segments with different error counts; counted by distinct (label, counts).")
ASSUMPTIONS = ["every label used is defined, and its id is distinct ignoring case; labels are listed category by category, with at most 22 labels (the report generator refuses more than 50 columns, loudly)",
               "category headings are judged only when every defined label is used (the position of an unused label is not known)",
               "mean, deviation and median numbers of words are printed as integers and accepted when within one"]


def fail(what, *a):
    raise Violation(what % a if a else what)


def gen_labels(s):
    ncat = s.weighted((2, 1), (8, 2), (8, 3), (2, 5), (1, 12))
    cats, labs = [], []
    k = 0
    many = s.bool(.15)
    for c in range(ncat):
        cats.append(s.choice(["", "Sex", "Story", "Focus Conditions", "K%d" % c]) if not c else "Cat%d" % c)
        n = s.int(1, 3 if not many else 7)
        if sum(map(len, labs)) + n > 22:
            n = 22 - sum(map(len, labs))
        ids = []
        for _ in range(n):
            i = s.choice(["l%d", "%02d", "x%d-y", "a-very-long-label-identifier-of-the-subset-%d"]) % k
            ids.append({"id": i, "title": "T%d" % k + s.choice(["", "a", " with blank", "longer"]), "desc": s.choice(["", "a description", "Words, phrases: not contained in a story"])})
            k += 1
        labs.append(ids)
    return cats, labs


def gen_field(s, labs):
    """one label (or none) per category"""
    if s.bool(.1):
        return None
    return [s.choice(c)["id"] if c and not s.bool(.1) else "" for c in labs]


def gen(s, multi):
    cats, labs = gen_labels(s)
    nspk = s.int(1, 8)
    segs = []
    for i in range(nspk):
        for k in range(s.size(1, 6, 3)):
            segs.append(["s%d" % i, gen_field(s, labs), s.weighted((1, 0), (6, s.int(1, 8)))])
    if s.bool(.3):
        segs = s.shuffle(segs)
    case = {"cats": cats, "labs": labs, "nocat": s.bool(.15), "segs": segs}
    W = ["a", "b", "c", "dd"]
    if multi:
        case["systems"] = []
        for k in range(s.weighted((2, 1), (8, 2), (4, 4), (1, 12))):
            q = s.choice([.1, .4, .8])
            case["systems"].append({"name": "sys%d" % k, "order": s.bool(.2), "drop": s.bool(.1), "paths": [
                ["".join(("I" * (s.int(1, 3) if s.bool(q / 4) else 0)) + (("C" if s.bool(1 - q) else s.choice("SD")) if j < n else "") for j in range(n + 1))][0]
                for _, _, n in segs]})
    else:
        for g in segs:
            ref = [s.choice(W) for _ in range(g[2])]
            hyp = [w if s.bool(.6) else s.choice(W) for w in ref if s.bool(.85)] + (["zz"] * s.int(1, 2) if s.bool(.2) else [])
            g[2] = [ref, hyp]
    return case


class Lur(Suite):
    def gen(self, s):
        return gen(s, self.multi)

    def field(self, f):
        return "<%s>" % ",".join(f)


class Sclite(Lur):
    """the report of one system"""
    name, quick, thorough, multi = "sclite", 1500, 25000, False

    def check(self, case, ctx):
        o = []
        if not case["nocat"]:
            o += [';; CATEGORY "%d" "%s" ""' % (i, c) for i, c in enumerate(case["cats"])]
        o += [';; LABEL "%s" "%s" "%s"' % (x["id"], x["title"], x["desc"]) for c in case["labs"] for x in c]
        h, t = [], 0
        info = {}
        for spk, f, (ref, hyp) in case["segs"]:
            o.append("f A %s %d %d %s%s" % (spk, t, t + 10, self.field(f) + " " if f is not None else "", " ".join(ref)))
            info["%.3f" % t] = (spk, f, ref)
            h += ["f A %.2f .05 %s" % (t + .5 + k * .5, w) for k, w in enumerate(hyp)]
            t += 10
        if not h:
            h = ["f A %d .1 dd" % (t + 5)]
            o.append("f A s0 %d %d dd" % (t, t + 10))
            info["%.3f" % t] = ("s0", None, ["dd"])
        ctx.write("r.stm", "\n".join(o) + "\n")
        ctx.write("h.ctm", "\n".join(h) + "\n")
        ctx.run([ctx.bins["sclite"], "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-o", "lur", "sgml", "-f", "0"], cwd=ctx.dir)
        sy = scl.parse_sgml(ctx.read("h.ctm.sgml"))[0]
        exp = [(x["id"], x["title"], x["desc"]) for c in case["labs"] for x in c]
        got = [(x["id"], x["title"], x["desc"]) for x in sy["labels"]]
        if got != exp:
            fail("labels of the SGML file %r, defined %r", got, exp)
        per, seen = {}, 0
        for sp in sy["speakers"]:
            for p in sp["paths"]:
                spk, f, ref = info[p["attrs"]["R_T1"]]
                want = self.field(f) if f is not None else ""
                if p["attrs"].get("labels", "") != want:
                    fail("segment at %s has labels %r, expected %r", p["attrs"]["R_T1"], p["attrs"].get("labels"), want)
                if [t[1] for t in p["toks"] if t[0] != "I"] != ref:
                    fail("segment at %s aligned for reference %r, not %r", p["attrs"]["R_T1"], p["toks"], ref)
                seen += 1
                c, s_, d, i = scl.counts(p["toks"])
                for x in f or []:
                    if x:
                        per.setdefault(x, {}).setdefault(spk, []).append((c + s_ + d, s_ + d + i))
        if seen != len(info):
            fail("%d segments in the SGML file, %d in the reference", seen, len(info))
        text = ctx.read("h.ctm.lur")
        rows = parse(text)
        hd = header(rows, case, text, "SPKR", any(True for _ in per), per)
        speakers = list(dict.fromkeys(v[0] for v in info.values()))
        body = rows[hd + 2:]
        got = {}
        for r in body:
            if r[0].rstrip(" +") and len(r) > 1:
                if r[0] in got:
                    fail("lur: two rows %r", r[0])
                got[r[0]] = r[1:]
        labs = [x for c in case["labs"] for x in c]
        anynull = False
        for sp in speakers:
            if sp not in got:
                fail("lur: no row for speaker %s", sp)
        for j, x in enumerate(labs):
            d = per.get(x["id"], {})
            tot = {k: (sum(a for a, _ in v), sum(b for _, b in v)) for k, v in d.items()}
            for sp in speakers:
                n, e = tot.get(sp, (0, 0))
                cell = got[sp][j].split()
                want = "[%d] %.1f" % (n, 100 * e / n) if n else "0 * %d *" % e if e else ""
                if n and (len(cell) != 2 or cell[0] != "[%d]" % n or abs(float(cell[1]) - 100 * e / n) > .0505) or not n and cell != want.split():
                    fail("lur: speaker %s, label %s: %r, expected %r", sp, x["id"], got[sp][j], want)
                anynull |= n == 0 and e > 0
                ctx.evals += 1
            stats(lambda name: [v for k, v in got.items() if k.split(" ")[0] == name.split(" ")[0] and k not in speakers], j, tot, "lur, label %s" % x["id"],
                  ("Set Sum/Avg", "Mean", "StdDev", "Median"))
            if len(set(sum(d.values(), []))) > 1:
                ctx.nontrivial((j, tuple(sorted(map(tuple, d.values())))))
        if ("Speaker Has no reference word tokens" in text) != anynull:
            fail("lur: the note on speakers without reference words does not match the table")


class Multi(Lur):
    """the report over several systems"""
    name, quick, thorough, multi = "multi", 1500, 25000, True

    def check(self, case, ctx):
        o, seq = [], 0
        sysper = []
        for sy in case["systems"]:
            o.append('<SYSTEM title="%s" ref_fname="r" hyp_fname="h" creation_date="x" format="2.4" frag_corr="FALSE" opt_del="FALSE" weight_ali="FALSE" weight_filename="">' % sy["name"])
            o += ['<LABEL id="%s" title="%s" desc="%s">\n</LABEL>' % (x["id"], x["title"], x["desc"]) for c in case["labs"] for x in c]
            if not case["nocat"]:
                o += ['<CATEGORY id="%d" title="%s" desc="">\n</CATEGORY>' % (i, c) for i, c in enumerate(case["cats"])]
            per = {}
            sps = list(dict.fromkeys(g[0] for g in case["segs"]))
            if sy["drop"] and len(sps) > 1:
                sps = sps[1:] if sy["order"] else sps[:-1]
            for sp in reversed(sps) if sy["order"] else sps:
                o.append('<SPEAKER id="%s">' % sp)
                for k, (g, p) in enumerate(zip(case["segs"], sy["paths"])):
                    if g[0] != sp:
                        continue
                    o.append('<PATH id="(%s-%d)" word_cnt="%d" %ssequence="%d">' % (sp, k, len(p), 'labels="%s" ' % self.field(g[1]) if g[1] is not None else "", seq))
                    seq += 1
                    o.append(":".join({"C": 'C,"a","a"', "S": 'S,"a","b"', "D": 'D,"a",', "I": 'I,,"b"'}[e] for e in p))
                    o.append("</PATH>")
                    for x in g[1] or []:
                        if x:
                            per.setdefault(x, {}).setdefault(sp, []).append((sum(e != "I" for e in p), sum(e != "C" for e in p)))
                o.append("</SPEAKER>")
            o.append("</SYSTEM>")
            sysper.append(per)
        ctx.run([ctx.bins["sc_stats"], "-p", "-r", "lur", "-n", "out"], stdin="\n".join(o) + "\n", cwd=ctx.dir)
        text = ctx.read("out.lur")
        rows = parse(text)
        used = {}
        for p in sysper:
            used.update(p)
        hd = header(rows, case, text, "SYSTEM", True, used)
        body = [r for r in rows[hd + 2:]]
        secs, cur = [], None
        for r in body:
            if len(r) == 2 and r[0] == "" and re.match(r"Set/Subset|Associated", r[1]):
                cur = {}
                secs.append(cur)
            elif cur is not None and r[0]:
                if r[0] in cur:
                    fail("lur: two rows for %s", r[0])
                cur[r[0]] = r[1:]
        if len(secs) != 4:
            fail("lur: %d sections, expected 4", len(secs))
        names = [y["name"] for y in case["systems"]]
        for c in secs:
            if sorted(c) != sorted(names):
                fail("lur: rows %r for systems %r", sorted(c), names)
        labs = [x for c in case["labs"] for x in c]
        for n, per in zip(names, sysper):
            for j, x in enumerate(labs):
                d = per.get(x["id"], {})
                tot = {k: (sum(a for a, _ in v), sum(b for _, b in v)) for k, v in d.items()}
                stats(lambda name: [secs[int(name)][n]], j, tot, "lur, system %s, label %s" % (n, x["id"]), "0123")
                ctx.evals += 1
                if len(set(sum(d.values(), []))) > 1:
                    ctx.nontrivial((j, tuple(sorted(map(tuple, d.values())))))


def parse(text):
    return R.table(text.replace("||", "|").replace("++", "+"))


def header(rows, case, text, first, judge, used):
    """the position of the heading row; labels must come in their order, under their category"""
    labs = [x for c in case["labs"] for x in c]
    hd = [k for k, r in enumerate(rows) if r[0] == first and len(r) > 1]
    if not hd:
        fail("lur: no heading row")
    if rows[hd[0]][1:] != [x["title"] for x in labs]:
        fail("lur: columns %r, expected %r", rows[hd[0]][1:], [x["title"] for x in labs])
    if judge and not case["nocat"] and all(x["id"] in used for x in labs):
        row = rows[hd[0] - 1]
        exp = [c for c, l in zip(case["cats"], case["labs"]) if l]
        if len(case["labs"][-1]) and [len(l) > 0 for l in case["labs"]].count(False) == 0 and row[1:] != exp:
            fail("lur: categories %r, expected %r", row[1:], exp)
    return hd[0]


def stats(find, j, tot, what, names):
    v = [(n, 100.0 * e / n) for n, e in tot.values() if n]
    n, e = sum(a for a, _ in tot.values()), sum(b for _, b in tot.values())
    f = [lambda x: None, R.mean, R.sd, R.median]
    for k, name in enumerate(names):
        r = find(name)
        if len(r) != 1:
            fail("%s: %d rows %s", what, len(r), name)
        m = re.match(r"^\[(-?\d+)\]\s+(-?[\d.]+|-?nan)$", r[0][j])
        if not m:
            fail("%s: %s is %r", what, name, r[0][j])
        if k == 0:
            a, b = n, 100.0 * e / n if n else 0
        else:
            a, b = (f[k]([x for x, _ in v]), f[k]([y for _, y in v])) if v else (0, 0)
        if k == 0 and int(m[1]) != a or abs(int(m[1]) - a) >= 1 + 1e-6 or not abs(float(m[2]) - b) <= .0505:
            fail("%s: %s is %r, expected [%.2f] %.3f", what, name, r[0][j], a, b)


def build():
    d = B.sclite()
    return {"sclite": d + "/sclite", "sc_stats": d + "/sc_stats"}


SUITES = [Sclite(), Multi()]
