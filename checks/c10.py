"""C10: diff-based alignment (-d, and stm references with txt hypotheses)."""
import re, subprocess
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one run of sclite -d (trn/trn, stm/ctm) or of an stm reference with a txt hypothesis. One evaluation is one run: the reference side of every "
        "record, the hypothesis side over all records, every evaluation code, the documented re-chunking rule (a record's chunk ends with its last reference word, the "
        "last record takes the rest) and the number of correct words (as found by running diff independently on the two word lists) are checked. Non-trivial: some word "
        "is wrong; counted by distinct inputs.")
ASSUMPTIONS = ["GNU diff at /usr/bin/diff is the documented aligner and is trusted; words are at most 40 bytes and are not one of its column markers < > | ( / \\"]


def matched(ref, hyp, ctx):
    ctx.write("dr", "".join(w + "\n" for w in ref))
    ctx.write("dh", "".join(w + "\n" for w in hyp))
    p = subprocess.run(["/usr/bin/diff", ctx.path("dr"), ctx.path("dh")], stdout=subprocess.PIPE, env={"LC_ALL": "C"})
    return len(ref) - len([1 for l in p.stdout.split(b"\n") if l.startswith(b"<")])


class Diff(Suite):
    name, quick, thorough = "diff", 20000, 160000

    def gen(self, s):
        kind = s.choice(["trn", "ctm", "txt"])
        o = {"case": True}
        alt = s.choice([0, 0, .15])

        def word():
            w = scl.gen_word(s, o).strip("<>")
            if s.bool(.03):
                w = (w * 40)[:s.int(20, 40)]
            return w if len(w.encode()) <= 40 else "a"

        def seq(hi):
            def item():
                if alt and s.bool(alt):
                    return ["alt", [[] if s.bool(.2) else [word() for _ in range(s.int(1, 2))] for _ in range(2)]]
                return word()
            return s.list(item, 0, hi, s.choice([2, 4, 8]))
        recs = []
        for i in range(s.int(1, 7)):
            r = seq(25)
            h = scl.corrupt(s, scl.reading_first(r), o, s.choice([.1, .35, .7])) if not s.bool(.12) else scl.reading_first(seq(12))
            recs.append([r, [w for w in h if len(w.encode()) <= 40]])
        return {"kind": kind, "cs": s.bool(.3), "recs": recs, "order": s.shuffle(range(len(recs))), "chan": s.int(0, len(recs)) if kind == "ctm" else 0,
                "spk": [s.int(0, 2) for _ in recs], "eol": not s.bool(.2), "comment": s.bool(.2), "split": s.int(1, 5),
                "places": sorted([s.choice([0, 0, 1, 2]), s.int(0, 1)] for _ in recs), "labs": [s.choice(["", "<o>", "<o,f0,male>"]) for _ in recs]}

    def check(self, case, ctx):
        R = case["recs"]
        f = lambda w: scl.fold(w, case["cs"])
        refs = [[f(w) for w in scl.reading_first(r[0])] for r in R]
        hyps = [[f(w) for w in r[1]] for r in R]
        end = lambda t: t if case["eol"] else t[:-1]
        com = ";; note\n\n" if case["comment"] else ""
        cmd = [ctx.bins["sclite"], "-O", ctx.dir, "-n", "x", "-f", "0", "-o", "sgml"] + (["-s"] if case["cs"] else [])
        sp = lambda i: "s%d" % case["spk"][i]
        if case["kind"] == "trn":
            ctx.write("r", end(com + "".join("%s (%s-%d)\n" % (scl.render(R[i][0]), sp(i), i) for i in case["order"])))
            ctx.write("h", end(com + "".join("%s (%s-%d)\n" % (" ".join(r[1]), sp(i), i) for i, r in enumerate(R))))
            cmd += ["-d", "-r", "r", "trn", "-h", "h", "trn", "-i", "swb"]
            groups = [list(range(len(R)))]
        else:
            pl = [("f%d" % a, "12"[b]) for a, b in case["places"]] if case["kind"] == "ctm" else [("f", "1")] * len(R)
            groups = [[i for i in range(len(R)) if pl[i] == g] for g in sorted(set(pl))]
            lab = lambda i: case["labs"][i] or ("<o>" if scl.render(R[i][0])[:1] == "<" else "")
            t = "".join("%s %s %s %d %d %s %s\n" % (*pl[i], sp(i), i * 100, i * 100 + 100, lab(i), scl.render(r[0])) for i, r in enumerate(R))
            ctx.write("r", end(com + t))
            if case["kind"] == "ctm":
                if any(not sum((hyps[i] for i in g), []) for g in groups):
                    return
                ctx.write("h", end(com.rstrip() + ("\n" if com else "") + "".join("%s %s %.2f 0.1 %s\n" % (*pl[i], i * 100 + k * .5, w) for i, r in enumerate(R) for k, w in enumerate(r[1]))))
                cmd += ["-d", "-r", "r", "stm", "-h", "h", "ctm"]
            else:
                groups = [list(range(len(R)))]
                ws = sum((r[1] for r in R), [])
                n = case["split"]
                ctx.write("h", end(com + "".join(" ".join(ws[i:i + n * 3]) + "\n" for i in range(0, len(ws), n * 3)) or "\n"))
                cmd += ["-r", "r", "stm", "-h", "h", "txt"]
        ctx.run(cmd)
        sy = scl.parse_sgml(ctx.read("x.sgml", binary=True).decode("latin-1"))[0]
        paths = sorted((p for q in sy["speakers"] for p in q["paths"]), key=lambda p: int(p["attrs"]["sequence"]))
        if len(paths) != len(R):
            raise Violation("%d records, %d alignments" % (len(R), len(paths)))
        e = lambda w: w.encode().decode("latin-1")
        by = {}
        for q in sy["speakers"]:
            for p in q["paths"]:
                by[int(p["attrs"]["sequence"])] = q["id"]
        wrong = 0
        for g in groups:
            hall, corr = [], 0
            for i in g:
                p = paths[i]
                if by[int(p["attrs"]["sequence"])] != sp(i):
                    raise Violation("record %d is listed under speaker %s instead of %s" % (i, by[int(p["attrs"]["sequence"])], sp(i)))
                toks = p["toks"]
                if case["kind"] != "trn":
                    at = p["attrs"]
                    # known finding (known_findings.json): the channel is given as the file
                    kn = (pl[i][1] if not case.get("strict") else pl[i][0], pl[i][1])
                    if (at.get("file"), at.get("channel")) not in (pl[i], kn) and case["kind"] == "ctm" or (at.get("labels") or "") != lab(i):
                        raise Violation("record %d of %s with label %r is reported as of %s %s, label %r" % (i, pl[i], lab(i), at.get("file"), at.get("channel"), at.get("labels")))
                rs = [t[1] for t in toks if t[1] is not None]
                if rs != [e(w) for w in refs[i]]:
                    raise Violation("record %d: reference side %r instead of %r" % (i, rs, refs[i]))
                hall += [t[2] for t in toks if t[2] is not None]
                for t in toks:
                    if not {"C": t[1] is not None and t[1] == t[2], "S": t[1] and t[2] and t[1] != t[2], "D": t[1] and t[2] is None, "I": t[2] and t[1] is None}.get(t[0]):
                        raise Violation("record %d: token %r" % (i, t[:3]))
                    corr += t[0] == "C"
                    wrong += t[0] != "C"
                if i != g[-1] and toks and toks[-1][1] is None:
                    raise Violation("record %d does not end with its last reference word: %r" % (i, [t[:3] for t in toks]))
            want = sum((hyps[i] for i in g), [])
            if hall != [e(w) for w in want]:
                raise Violation("hypothesis words scored %r instead of %r" % (hall, want))
            m = matched(sum((refs[i] for i in g), []), want, ctx)
            if corr != m:
                raise Violation("%d words counted correct, diff finds %d" % (corr, m))
        ctx.evals += 1
        ctx.label(case["kind"], "case sensitive" if case["cs"] else "case folded", "unterminated last line" if not case["eol"] else "terminated")
        if wrong:
            ctx.nontrivial((case["kind"], R, case["cs"]))


def build():
    return {"sclite": B.sclite() + "/sclite"}


SUITES = [Diff()]
