"""C01: sclite's word alignments are valid readings of the two transcripts and minimal."""
from vf import build as B, scl
from vf.engine import Suite, Violation

RULE = ("A case is one sclite run over a generated trn pair (1-60 utterances; flat, nested alternations, optional words, fragments, "
        "letter case, long utterances) with generated -s/-D/-F; one evaluation is one utterance alignment compared with an exhaustive "
        "minimum over all readings of both networks. Non-trivial: the minimum cost is above 0 and both sides have words, counted by "
        "distinct (reference, hypothesis, options).")
ASSUMPTIONS = ["documented word distances 0/3/3/4, 2 for an optional word left unmatched; ties may be resolved either way"]


def build():
    return {"sclite": B.sclite() + "/sclite"}


class Align(Suite):
    def __init__(self, name, quick, thorough, alt, mean, maxu, hi=60, depth=2):
        self.name, self.quick, self.thorough = name, quick, thorough
        self.alt, self.mean, self.maxu, self.hi, self.depth = alt, mean, maxu, hi, depth

    def gen(self, s):
        o = {"alt": self.alt, "depth": self.depth, "case": s.bool(), "frag": s.bool(.4), "opt": s.bool(.4)}
        flags = [f for f in ("-s", "-F", "-D") if s.bool()]
        ho = dict(o, alt=0)
        utts = []

        def utt():
            ref = scl.gen_seq(s, o, self.mean, hi=self.hi)
            if self.alt and s.bool(.12):
                hyp = scl.gen_seq(s, o, self.mean, hi=self.hi)
            elif s.bool(.8):
                hyp = scl.corrupt(s, scl.reading(s, ref), ho, s.choice([.1, .3, .6]))
            else:
                hyp = scl.gen_seq(s, ho, self.mean, hi=self.hi)
            return [ref, hyp]
        utts = s.list(utt, 1, self.maxu, self.maxu / 2)
        return {"flags": flags, "utts": utts}

    def check(self, case, ctx):
        fl = case["flags"]
        cs = "-s" in fl
        W = scl.Words("-F" in fl, "-D" in fl)
        ctx.write("r.trn", "".join("%s (s%d_%d)\n" % (scl.render(r), i % 3, i) for i, (r, h) in enumerate(case["utts"])))
        ctx.write("h.trn", "".join("%s (s%d_%d)\n" % (scl.render(h), i % 3, i) for i, (r, h) in enumerate(case["utts"])))
        rc, out, err = ctx.run([ctx.bins["sclite"], "-r", "r.trn", "trn", "-h", "h.trn", "trn", "-i", "spu_id", "-o", "sgml", "stdout"] + fl)
        sy = scl.parse_sgml(out)
        got = {p["attrs"]["id"]: p["toks"] for x in sy for sp in x["speakers"] for p in sp["paths"]}
        if len(got) != len(case["utts"]):
            raise Violation("%d utterances in, %d alignments out" % (len(case["utts"]), len(got)))
        for i, (r, h) in enumerate(case["utts"]):
            uid = "(s%d_%d)" % (i % 3, i)
            if uid not in got:
                raise Violation("no alignment for utterance " + uid)
            f = lambda w: scl.fold(w, cs)
            r, h = scl.map_words(r, f), scl.map_words(h, f)
            cost = scl.check_alignment(got[uid], r, h, W, uid)
            ctx.evals += 1
            if cost and r and h:
                ctx.nontrivial((r, h, fl))
            c = scl.counts(got[uid])
            ctx.label("cost>0" if cost else "cost=0", *["has " + k for k, n in zip("CSDI", c) if n])
            if scl.has_alt(r):
                ctx.label("alternation in reference")
            if scl.has_alt(h):
                ctx.label("alternation in hypothesis")
            if any(t[0] == "C" and None in t[1:3] for t in got[uid]):
                ctx.label("optional word forgiven")
            if any(t[0] == "C" and t[1] and t[2] and t[1] != t[2] for t in got[uid]):
                ctx.label("fragment/optional match")
            if not r or not h:
                ctx.label("one side empty")


SUITES = [
    Align("flat", 5000, 40000, 0, 6, 40),
    Align("alternation", 7000, 50000, .25, 4, 25, depth=3),
    Align("long", 100, 800, .02, 120, 2, hi=400),
]
