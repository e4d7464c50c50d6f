"""C03: in transcript mode every hypothesis utterance is scored exactly once, against the reference of the same id, under its speaker."""
import os
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run over generated trn files: shuffled utterances, extra references, comments, blank lines, tabs, long lines, "
        "ids differing in case, missing final newline, 1-3 hypothesis files, every speaker-id style; or a malformed pair (missing or "
        "conflicting reference) that must be refused. One evaluation is one utterance placed or one refusal. Non-trivial: at least two "
        "utterances whose order differs between the files, or a refusal; distinct cases counted.")


def build():
    return {"sclite": B.sclite() + "/sclite"}


IDT = ["spu_id", "wsj", "rm", "swb", "sp"]


def speaker(uid, idt):
    inner = uid[1:-1]
    if idt == "sp":
        return uid
    if idt in ("wsj", "atis"):
        return inner[:3]
    if "-" in inner:
        return inner[:inner.index("-")]
    return inner[:inner.index("_")]


class Pairing(Suite):
    name, quick, thorough = "pairing", 25000, 200000

    def gen(self, s):
        idt = s.choice(IDT)
        cs = s.bool(.3)
        o = {"case": s.bool(.3)}
        sep = s.choice("-_")
        nsp = s.weighted((3, 2), (3, 1), (3, 4), (1, 30))
        ids, seen = [], set()

        def one():
            sp = s.draw(nsp - 1)
            nm = {"wsj": "%03d", "atis": "a%02d"}.get(idt, s.choice(["s%d", "Spk%dA", "fsh_%d-B"] if sep == "-" else ["s%d", "Spk%dA"])) % sp
            u = "(%s%s%d)" % (nm, "" if idt in ("wsj", "atis") and s.bool() else sep, len(ids))
            if idt == "sp":
                u = "(%s)" % (nm if s.bool(.3) else nm + sep + str(len(ids)))
            k = u if cs else u.lower()
            if k in seen:
                u = u[:-1] + "x%d)" % len(ids)
                k = u if cs else u.lower()
            if k in seen:
                return
            seen.add(k)
            ids.append(u)
            ref = scl.gen_seq(s, o, 3, hi=40)
            hyp = scl.corrupt(s, ref, o, .3)
            if s.bool(.02):
                ref = ref + ["w%d" % (i % 7) for i in range(s.int(200, 700))]
            rid = u if cs or s.bool(.7) else (u.upper() if s.bool() else u.lower())
            utts.append({"id": u, "rid": rid, "ref": ref, "hyp": hyp})
        utts = []
        for _ in range(s.int(1, 8) if s.bool(.8) else s.int(1, 60)):
            one()
        nh = s.weighted((7, 1), (2, 2), (1, 3))
        hyps = []
        for k in range(nh):
            sel = [i for i in range(len(utts)) if not s.bool(.25)] or [0]
            hyps.append(s.shuffle(sel))
        rorder = s.shuffle(range(len(utts)))
        bad = s.weighted((6, None), (1, "missing"), (1, "conflict"), (1, "same"))
        return {"idt": idt, "cs": cs, "utts": utts, "hyps": hyps, "rorder": rorder, "bad": bad, "badk": s.draw(7), "badn": s.int(1, 3),
                "noise": [s.draw(9) for _ in range(12)], "nl_r": s.bool(.8), "nl_h": s.bool(.8)}

    @staticmethod
    def render(lines, noise, nl):
        out = []
        for i, ln in enumerate(lines):
            k = noise[i % len(noise)]
            if k == 7:
                out.append(";; a comment (not-an-utterance)")
            elif k == 8:
                out.append("   ")
            elif k == 9:
                ln = "\t" + ln.replace(" ", "  ", 1) + "  "
            out.append(ln)
        t = "\n".join(out)
        return t + "\n" if nl else t

    def check(self, case, ctx):
        U, idt, cs = case["utts"], case["idt"], case["cs"]
        f = lambda w: scl.fold(w, cs)
        used = sorted({i for h in case["hyps"] for i in h})
        rl = [("%s %s" % (scl.render(U[i]["ref"]), U[i]["rid"]), i) for i in case["rorder"]]
        refuse, missing = None, []
        if case["bad"] == "missing":
            h0 = case["hyps"][0]
            missing = sorted({h0[(case["badk"] + j) % len(h0)] for j in range(case["badn"])})
            rl = [x for x in rl if x[1] not in missing]
            refuse = "missing"
        elif case["bad"] in ("conflict", "same"):
            h0 = case["hyps"][0]
            i = h0[case["badk"] % len(h0)]
            ref = U[i]["ref"]
            if case["bad"] == "conflict":
                refuse = "conflict"
                ref = ref[:-1] if ref and case["badn"] == 1 else ref + ["zzz"]
            at = [k for k, x in enumerate(rl) if x[1] == i][0]
            rl.insert((at + 1 + case["badk"]) % (len(rl) + 1), ("%s %s" % (scl.render(ref), U[i]["rid"]), i))
        ctx.write("r.trn", self.render([x[0] for x in rl], [0] if case["bad"] == "same" else case["noise"], case["nl_r"]))
        args = []
        for k, h in enumerate(case["hyps"]):
            ctx.write("h%d.trn" % k, self.render(["%s %s" % (scl.render(U[i]["hyp"]), U[i]["id"]) for i in h], case["noise"][k:], case["nl_h"]))
            args += ["-h", "h%d.trn" % k, "trn"]
        os.mkdir(ctx.path("o"))
        cmd = [ctx.bins["sclite"], "-r", "r.trn", "trn"] + args + ["-i", idt, "-O", "o", "-o", "sgml"] + (["-s"] if cs else [])
        if refuse:
            rc, out, err = ctx.run(cmd, ok=None)
            if rc == 0:
                raise Violation("a %s reference was accepted (exit 0)" % refuse)
            if refuse == "missing":
                for i in missing:
                    if f(U[i]["id"]) not in err and f(U[i]["id"]) not in out:
                        raise Violation("the error does not name utterance %s, which has no reference" % U[i]["id"])
            ctx.evals += 1
            ctx.label("refused: " + refuse)
            ctx.nontrivial(case)
            return
        ctx.run(cmd)
        for k, h in enumerate(case["hyps"]):
            sy = scl.parse_sgml(ctx.read("o/h%d.trn.sgml" % k))[0]
            exp = {}
            for i in h:
                exp.setdefault(speaker(f(U[i]["id"]), idt), []).append(i)
            got = [(sp["id"], [p["attrs"]["id"] for p in sp["paths"]]) for sp in sy["speakers"]]
            want = [(sp, [f(U[i]["id"]) for i in v]) for sp, v in exp.items()]
            if got != want:
                raise Violation("scored utterances by speaker %r, expected %r" % (got, want))
            by = {f(U[i]["id"]): i for i in h}
            seq = {}
            for sp in sy["speakers"]:
                for p in sp["paths"]:
                    i = by[p["attrs"]["id"]]
                    seq[int(p["attrs"]["sequence"])] = i
                    scl.check_alignment(p["toks"], scl.map_words(U[i]["ref"], f), scl.map_words(U[i]["hyp"], f), scl.Words(), p["attrs"]["id"])
                    ctx.evals += 1
            if [seq[j] for j in sorted(seq)] != h:
                raise Violation("sequence numbers do not follow the hypothesis file order: %r, expected %r" % (seq, h))
            if len(h) > 1 and [i for i in case["rorder"] if i in h] != h:
                ctx.nontrivial(case)
                ctx.label("order differs")
        ctx.label("id style " + idt, "hypothesis files: %d" % len(case["hyps"]))
        if len(U) > len(used):
            ctx.label("unused references")
        if not case["nl_r"] or not case["nl_h"]:
            ctx.label("no final newline")
        if case["bad"] == "same":
            ctx.label("identical duplicate reference")


SUITES = [Pairing()]
