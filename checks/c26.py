"""C26: the language-model toolkit counts every n-gram of a text exactly once."""
import os
import random
from collections import Counter

from vf import build as B
from vf.engine import Discard, Suite, Violation

RULE = ("A case is a text (words over a small alphabet, any white space), a vocabulary that covers part of it, n, the format, buffer sizes and a division of the text into files. One evaluation is one tool run compared with counts made in "
        "Python. Non-trivial: some n-gram occurs twice and some word is out of vocabulary; counted by distinct inputs.")
ASSUMPTIONS = ["vocabularies are sorted by byte value and free of duplicates (documented)", "words have fewer than 150 bytes and no ## at the start of a vocabulary entry", "the programs are built with AddressSanitizer"]


class Counts(Suite):
    name, quick, thorough = "counts", 240, 6000

    def gen(self, s):
        alpha = ["a", "b", "ab", "b-a", "A", "<s>", "</s>", "\xe9", "x" * s.int(1, 60)][:s.int(1, 9)]
        if s.bool(.4):
            # words that share their hash value ("ap" and "b0" do), and all but their end
            k = "w" * s.choice([0, 1, 20, 60, 110, 130])
            alpha += [k + "ap", k + "b0", k + "c", k]
            alpha = [a for a in alpha if a]
        n = s.int(1, 4)
        big = s.bool(.15)
        ln = s.int(100, 500) if big else s.int(0, 40)
        words = [s.choice(alpha) for _ in range(max(ln, n))]
        return {"words": words, "n": n, "vocab": [a for a in alpha if s.bool(.8)] or alpha[:1], "seps": [s.choice([" ", "\n", "  ", "\t", " \n", "\n\n"]) for _ in range(9)], "lead": s.choice(["", "", " ", "\n"]), "trail": s.choice(["\n", "\n", "", " ", " \n\n"]),
                "ascii": s.bool(), "com": s.bool(.3), "m": s.int(1, max(1, n - 1)), "top": s.int(1, 12), "gt": s.int(0, 6), "hash": s.choice([1, 2, 10, 1000]),
                "cut": [s.int(0, 1000) for _ in range(s.int(0, 2))], "fof": s.choice([None, 0, 1, 3, 10])}

    def text(self, case, words):
        return case["lead"] + "".join(w + case["seps"][i % 9] for i, w in enumerate(words[:-1])) + (words[-1] if words else "") + case["trail"]

    def check(self, case, ctx):
        L = "utf-8"
        ws, n = case["words"], case["n"]
        t = self.text(case, ws)
        bins = ctx.bins["slm"] + "/"
        show = "text: %r\n" % t
        run = lambda c, i=None, ok=(0,): self.run(ctx, c, i, ok)

        def tool(cmd, inp=None):
            rc, out, err = ctx.run([bins + cmd[0]] + [str(x) for x in cmd[1:]], stdin=inp, ok=None, text=False, env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}, timeout=120)
            ctx.evals += 1
            if rc:
                e = err if isinstance(err, str) else err.decode("latin-1")
                raise Violation(show + "%s: exit status %d\n%s" % (" ".join(map(str, cmd)), rc, e[-1800:]))
            return out

        def differ(cmd, got, want):
            if got != want:
                raise Violation(show + "vocabulary %s\n%s:\n%s\nexpected:\n%s" % (voc, " ".join(map(str, cmd)), "\n".join(map(str, got))[:2500], "\n".join(map(str, want))[:2500]))
        voc = sorted(case["vocab"], key=lambda w: w.encode(L))
        raw = t.encode(L)
        # word frequencies
        cmd = ["text2wfreq", "-hash", case["hash"], "-verbosity", 0]
        o = tool(cmd, raw).decode(L)
        freq = Counter(ws)
        differ(cmd, sorted(o.splitlines()), sorted("%s %d" % x for x in freq.items()))
        wf = o.encode(L)
        # vocabularies
        cmd = ["wfreq2vocab", "-gt", case["gt"], "-verbosity", 0, "-records", len(freq) + 1]
        by = lambda s: sorted(s, key=lambda w: w.encode(L))
        differ(cmd, [x for x in tool(cmd, wf).decode(L).splitlines() if not x.startswith("##")], by(w for w in freq if freq[w] > case["gt"]))
        cmd = ["wfreq2vocab", "-top", case["top"], "-verbosity", 0, "-records", len(freq) + 1]
        got = [x for x in tool(cmd, wf).decode(L).splitlines() if not x.startswith("##")]
        differ(cmd, got, by(set(got) & set(freq)))
        if len(got) != min(case["top"], len(freq)) or got and max([freq[w] for w in freq if w not in got] + [0]) > min(freq[w] for w in got):
            raise Violation(show + "%s: %s of %s" % (cmd, got, freq))
        # word n-grams
        grams = lambda seq, k: [tuple(seq[i:i + k]) for i in range(len(seq) - k + 1)]
        wng = Counter(grams(ws, n))
        key = lambda g: " ".join(g).encode(L)
        wtext = "".join("%s %d\n" % (" ".join(g), wng[g]) for g in sorted(wng, key=key))
        # id n-grams
        vt = ("## a comment\n" if case["com"] else "") + "".join(w + "\n" for w in voc)
        ctx.write("v.vocab", vt.encode(L))
        ids = [voc.index(w) + 1 if w in voc else 0 for w in ws]
        ing = Counter(grams(ids, n))
        itext = lambda c: "".join("%s %d\n" % (" ".join(map(str, g)), c[g]) for g in sorted(c))
        buf = ["-buffer", 1, "-temp", ctx.dir + "/", "-verbosity", 0]
        fof = [] if case["fof"] is None else ["-fof_size", case["fof"]]
        cmd = ["text2idngram", "-vocab", ctx.path("v.vocab"), "-n", n, "-write_ascii"] + buf + fof
        o = tool(cmd, raw).decode()
        differ(cmd, o.splitlines(), itext(ing).splitlines())
        if not case["ascii"]:
            cmd = ["text2idngram", "-vocab", ctx.path("v.vocab"), "-n", n] + buf + fof
            bn = tool(cmd, raw)
            ctx.write("all.bin", bn)
            cmd2 = ["mergeidngram", "-n", n, "-ascii_output", ctx.path("all.bin")]
            differ(cmd + ["|"] + cmd2, tool(cmd2).decode().splitlines(), itext(ing).splitlines())
        # parts of the text merged
        cuts = sorted({min(c % (len(ws) + 1), len(ws)) for c in case["cut"]} | {0, len(ws)})
        tot, names = Counter(), []
        for a, b in zip(cuts, cuts[1:]):
            c = Counter(grams(ids[a:b], n))
            if not c:
                continue
            tot += c
            cmd = ["text2idngram", "-vocab", ctx.path("v.vocab"), "-n", n] + (["-write_ascii"] if case["ascii"] else []) + buf
            names.append(ctx.write("p%d" % a, tool(cmd, self.text(case, ws[a:b]).encode(L))))
        names = [ctx.path("p%d" % a) for a, b in zip(cuts, cuts[1:]) if Counter(grams(ids[a:b], n))]
        if names:
            cmd = ["mergeidngram", "-n", n] + (["-ascii_input"] if case["ascii"] else []) + ["-ascii_output"] + names
            differ(cmd, tool(cmd).decode().splitlines(), itext(tot).splitlines())
        # shorter n-grams
        if n > 1:
            m = case["m"]
            short = Counter()
            for g, c in ing.items():
                short[g[:m]] += c
            cmd = ["ngram2mgram", "-n", n, "-m", m, "-ascii"]
            differ(cmd, tool(cmd, itext(ing).encode()).decode().splitlines(), itext(short).splitlines())
            short = Counter()
            for g, c in wng.items():
                short[g[:m]] += c
            cmd = ["ngram2mgram", "-n", n, "-m", m, "-words"]
            differ(cmd, sorted(tool(cmd, wtext.encode(L)).decode(L).splitlines()), sorted("%s %d" % (" ".join(g), c) for g, c in short.items()))
        ctx.label("n=%d" % n, "oov" if 0 in ids else "")
        if max(ing.values()) > 1 and 0 in ids:
            ctx.nontrivial((t, voc, n))


class Buffers(Suite):
    """Texts larger than the n-gram buffer: sorted in parts that are merged, a few at a time."""
    name, quick, thorough = "buffers", 10, 200

    def gen(self, s):
        n = s.choice([3, 4])
        size = 1000000 // (2 * n)
        return {"n": n, "words": s.choice([size - 1, size, size + 1, 2 * size, 3 * size]) + s.choice([n - 1, n, n - 2, s.int(0, 200)]), "seed": s.int(1, 10 ** 6), "k": s.int(1, 6), "oov": s.bool(), "files": s.choice([2, 3, 20]), "eol": s.bool(), "ascii": s.bool()}

    def check(self, case, ctx):
        n, k = case["n"], case["k"]
        rnd = random.Random(case["seed"])
        ids = [rnd.randint(0 if case["oov"] else 1, k) for _ in range(case["words"])]
        ctx.write("v.vocab", "".join("w%d\n" % i for i in range(1, k + 1)))
        env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0"}
        t = " ".join("w%d" % i for i in ids) + ("\n" if case["eol"] else "")
        cmd = [ctx.bins["slm"] + "/text2idngram", "-vocab", ctx.path("v.vocab"), "-n", str(n), "-buffer", "1", "-files", str(case["files"]), "-temp", ctx.dir + "/", "-verbosity", "0"] + (["-write_ascii"] if case["ascii"] else [])
        rc, out, err = ctx.run(cmd, stdin=t.encode(), ok=None, text=False, env=env, timeout=120)
        ctx.evals += 1
        if rc == 0 and not case["ascii"]:
            ctx.write("o.bin", out)
            rc, out, err = ctx.run([ctx.bins["slm"] + "/mergeidngram", "-n", str(n), "-ascii_output", ctx.path("o.bin")], ok=None, text=False, env=env)
        c = Counter(zip(*[ids[i:] for i in range(n)]))
        want = ["%s %d" % (" ".join(map(str, g)), c[g]) for g in sorted(c)]
        got = out.decode("latin-1").splitlines()
        if rc or got != want:
            bad = [x for x in zip(got, want) if x[0] != x[1]][:5]
            raise Violation("%d words of seed %d over %d: %s\nexit status %d, %d n-grams (%d expected), first differences %s\n%s" % (len(ids), case["seed"], k, " ".join(cmd[1:]), rc, len(got), len(want), bad, str(err)[-500:]))
        left = [f for f in os.listdir(ctx.dir) if "tmp" in f]
        if left:
            raise Violation("temporary files left behind: %s" % left)
        ctx.label("n=%d" % n, "files=%d" % case["files"])
        ctx.nontrivial(str(case))


def build():
    return {"slm": B.sclite(True)}


SUITES = [Counts(), Buffers()]
