"""C29: language models are normalised, follow their discounting scheme and are evaluated as estimated."""
import math
import re
from collections import Counter, defaultdict

from vf import build as B
from vf.engine import Discard, Suite, Violation

RULE = ("A case is a training text, a vocabulary (closed, open, or open without OOVs in the training text), context cues, n (2 or 3), a discounting scheme, cutoffs, and a test text. One evaluation is one model estimated, written in both formats and evaluated: its n-grams, "
        "probabilities and back-off weights are compared with counts made in Python, its sums with 1, and evallm's probabilities and perplexity with a back-off evaluation of the ARPA file. Non-trivial: the test text needs backing off; counted by distinct inputs.")
ASSUMPTIONS = ["absolute discounting needs n-grams that occur once or twice; linear discounting with context cues is judged by a constant ratio per order, Witten-Bell discounting with cutoffs by ratios of at most 1, Good-Turing discounting by its sums only", "n = 2 or 3; binary models only for evallm",
               "probabilities compared within the four decimals of the ARPA format", "the programs are built with AddressSanitizer"]
TINY = -90


def arpa(text):
    m, cur = {}, None
    for l in text.split("\\data\\")[-1].splitlines():
        if l.startswith("\\"):
            k = re.match(r"\\(\d)-grams", l)
            cur = int(k.group(1)) if k else None
            if cur:
                m[cur] = {}
        elif cur and l.strip():
            f = l.split()
            g = tuple(f[1:1 + cur])
            if g in m[cur]:
                raise Violation("n-gram %s twice" % (g,))
            m[cur][g] = (float(f[0]), float(f[1 + cur]) if len(f) > 1 + cur else 0.0)
    return m, {int(a): int(b) for a, b in re.findall(r"(?m)^ngram (\d)=(\d+)$", text.split("\\data\\")[-1])}


def logp(m, h, w):
    """(log10 P(w|h), order of the n-gram found)"""
    k = len(h) + 1
    if h + (w,) in m[k]:
        return m[k][h + (w,)][0], k
    if k == 1:
        return None, 0
    p, o = logp(m, h[1:], w)
    if p is None:
        return p, o
    return (p + m[k - 1][h][1] if h in m[k - 1] else p), o


class Model(Suite):
    name, quick, thorough = "model", 250, 6000

    def gen(self, s):
        v = ["a", "b", "c", "d", "e", "f", "g", "h"][:s.int(2, 8)]
        cc = s.subset(["<s>", "</s>"]) if s.bool(.5) else []
        n = s.int(2, 3)
        vt = s.weighted((3, 1), (1, 0), (2, 2))
        wt = [s.int(1, 6) for _ in v]
        bag = [w for w, k in zip(v, wt) for _ in range(k)] + (["oov", "oov2"] if vt == 1 and s.bool(.6) else [])

        def text(ln, extra):
            o, prev = [], None
            for _ in range(ln):
                if cc and s.bool(.2):
                    o.append(s.choice(cc))
                    continue
                prev = v[(v.index(prev) + 1) % len(v)] if prev in v and s.bool(.4) else s.choice(bag + extra)
                o.append(prev)
            return o
        train = text(s.choice([10, 30, 60, 120, 300]), [])
        if s.bool(.6):
            v = v + ["z"]     # a word that occurs twice, in one context
            for i in sorted(s.int(0, len(train)) for _ in range(2)):
                train[i:i] = [v[0], "z", v[1]]
        return {"v": v, "cc": cc, "n": n, "vt": vt, "train": train, "test": text(s.int(n, 25), ["oov"] if vt and s.bool() else []), "disc": s.choice(["linear", "absolute", "witten_bell", "good_turing"]),
                "cut": sorted([s.weighted((3, 0), (1, 1), (1, 2)) for _ in range(n - 1)]), "four": s.bool(.3), "mem": s.choice(["calc", "spec"]), "zf": s.choice([None, "0.5", "0.1"]), "of": s.choice([None, "0.3"]), "ascii": s.bool(.4), "dr": s.choice([None, 2, 5]),
                "unks": s.bool(.3), "fb": s.choice([None, None, "-backoff_from_unk_inc", "-backoff_from_unk_exc", "-backoff_from_ccs_inc", "-backoff_from_ccs_exc", "list"]), "two": False}

    def check(self, case, ctx):
        n, vt, cc = case["n"], case["vt"], case["cc"]
        voc = sorted(case["v"] + cc)
        train = case["train"]
        if vt != 1 and any(w not in voc for w in train) or len(train) < n + 2:
            raise Discard()
        env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0"}
        bins = ctx.bins["slm"] + "/"
        ctx.write("v.vocab", "".join(w + "\n" for w in voc))
        ctx.write("c.ccs", "".join(w + "\n" for w in cc))
        show = "training text: %s\nvocabulary: %s\ncontext cues: %s\n" % (" ".join(train), voc, cc)
        log = []

        def tool(cmd, inp=None):
            cmd = [str(x) for x in cmd]
            rc, out, err = ctx.run([bins + cmd[0]] + cmd[1:], stdin=inp, ok=None, text=True, env=env, timeout=120)
            log.append(" ".join(cmd))
            if rc:
                raise Violation(show + "%s\nexit status %d\n%s" % ("\n".join(log), rc, err[-1500:]))
            return out, err
        idn = "t.id.ascii" if case["ascii"] else "t.idn"
        # counts: k-grams are the first k words of the n-grams
        sym = [w if w in voc else "<UNK>" for w in train]
        grams = Counter(tuple(sym[i:i + n]) for i in range(len(sym) - n + 1))
        cnt = {k: Counter() for k in range(1, n + 1)}
        for g, c in grams.items():
            for k in cnt:
                cnt[k][g[:k]] += c
        # discounting that takes the whole mass, or is not defined
        if case["disc"] == "absolute" and any(2 not in x.values() for x in cnt.values()) or case["disc"] == "linear" and any(set(x.values()) == {1} for x in cnt.values()):
            raise Discard()
        if case["disc"] in ("absolute", "linear") and {c for g, c in cnt[1].items() if g[0] not in cc} <= {1}:
            raise Discard()
        if not any(g[0] not in cc for g in grams):
            raise Discard()
        idtext = lambda: "".join("%s %d\n" % (" ".join(str(0 if w == "<UNK>" else voc.index(w) + 1) for w in g), c) for g, c in sorted(grams.items(), key=lambda x: [0 if w == "<UNK>" else voc.index(w) + 1 for w in x[0]]))
        if case["ascii"]:
            ctx.write(idn, idtext())
        else:
            ctx.write("t.x", idtext())
            rc, out, err = ctx.run([bins + "mergeidngram", "-n", str(n), "-ascii_input", ctx.path("t.x")], ok=(0,), text=False, env=env)
            ctx.write(idn, out)
        opt = ["-idngram", ctx.path(idn), "-vocab", ctx.path("v.vocab"), "-n", n, "-vocab_type", vt, "-" + case["disc"], "-verbosity", 1] + (["-context", ctx.path("c.ccs")] if cc else []) + ["-cutoffs"] + case["cut"]
        opt += (["-four_byte_counts"] if case["four"] else []) + (["-calc_mem"] if case["mem"] == "calc" else ["-spec_num"] + [len(grams) + 20] * (n - 1)) + (["-zeroton_fraction", case["zf"]] if case["zf"] else []) + (["-oov_fraction", case["of"]] if case["of"] and vt == 2 else [])
        opt += ["-disc_ranges"] + [1] + [case["dr"]] * (n - 1) if case["dr"] and case["disc"] == "good_turing" else []
        opt += ["-ascii_input"] if case["ascii"] else []
        tool(["idngram2lm"] + opt + ["-binary", ctx.path("m.binlm")])
        tool(["idngram2lm"] + opt + ["-arpa", ctx.path("m.arpa")])
        tool(["binlm2arpa", "-binary", ctx.path("m.binlm"), "-arpa", ctx.path("n.arpa")])
        ctx.evals += 1
        a, b = ctx.read("m.arpa"), ctx.read("n.arpa")
        show += "\n".join(log) + "\n" + a[a.rindex("\\data\\"):] + "\n"
        if a[a.rindex("\\data\\"):] != b[b.rindex("\\data\\"):]:
            raise Violation(show + "binlm2arpa writes\n" + b[b.rindex("\\data\\"):])
        m, head = arpa(a)
        if sorted(m) != list(range(1, n + 1)) or head != {k: len(m[k]) for k in m}:
            raise Violation(show + "the header announces %s" % head)
        full = voc + (["<UNK>"] if vt else [])
        # the n-grams
        if {g[0] for g in m[1]} != set(full):
            raise Violation(show + "unigrams of %s" % sorted(m[1]))
        for k in range(2, n + 1):
            cut = case["cut"][k - 2]
            want = {g for g, c in cnt[k].items() if c > cut}
            if set(m[k]) != want:
                raise Violation(show + "%d-grams: missing %s, extra %s" % (k, sorted(want - set(m[k])), sorted(set(m[k]) - want)))
            ff = Counter(cnt[k].values())
            for g in sorted(m[k]):
                c, ch = cnt[k][g], cnt[k - 1][g[:-1]]
                p = 10 ** m[k][g][0] if m[k][g][0] > TINY else 0
                d = p * ch / c
                if case["disc"] == "absolute":
                    e = (c - ff[1] / (ff[1] + 2 * ff[2])) / c
                elif case["disc"] == "linear":
                    e = 1 - ff[1] / sum(cnt[k].values())
                elif case["disc"] == "witten_bell" and not any(case["cut"]):
                    e = ch / (ch + len({x for x in cnt[k] if x[:-1] == g[:-1]}))
                elif case["disc"] == "good_turing":
                    continue    # counts of contexts without discounted n-grams are incremented
                else:
                    e = min(d, 1)
                if abs(d - e) > 4e-4 * max(d, e) + 1e-6:
                    raise Violation(show + "P%s = %g: count %d of %d, discounted by %g, not %g" % (g, p, c, ch, d, e))
        # normalisation
        pr = lambda h, w: (lambda q: 0.0 if q is None or q < TINY else 10 ** q)(logp(m, h, w)[0])
        ctxs = [()] + [(w,) for w in full] + ([(u, w) for u in full for w in full] if n == 3 else [])
        for h in ctxs:
            t = sum(pr(h, w) for w in full)
            seen = [w for w in full if h + (w,) in m[len(h) + 1]]
            if not h:
                if abs(t - 1) > 2e-3:
                    raise Violation(show + "P(.) sums to %g" % t)
                continue
            # what the words seen leave is shared by the others in proportion to the probabilities without the first word
            low = sum(pr(h[1:], w) for w in seen)
            alls = sum(pr(h[1:], w) for w in full)
            if t > 1.005:
                raise Violation(show + "P(.|%s) sums to %g" % (" ".join(h), t))
            if 1 - low < .02 or alls - low < 1e-3:
                continue        # nothing is left to back off to
            p = sum(pr(h, w) for w in seen)
            want = p + (1 - p) / (1 - low) * (alls - low) if seen else alls
            if abs(t - want) > 2e-3 + 3e-4 / (1 - low):
                raise Violation(show + "P(.|%s) sums to %g, not %g" % (" ".join(h), t, want))
        # words that did not occur share one probability, at most that of a word that occurred once
        uc = Counter()
        for (w,), c in cnt[1].items():
            uc[w] = c
        zero = [w for w in full if not uc[w] and w not in cc and not (w == "<UNK>" and vt == 2)]
        if len({m[1][w,][0] for w in zero}) > 1:
            raise Violation(show + "words that did not occur differ: %s" % {w: m[1][w,][0] for w in zero})
        one = [w for w in full if uc[w] == 1 and w not in cc]
        if zero and one and m[1][zero[0],][0] > m[1][one[0],][0] + 2e-4 + (math.log10(float(case["zf"])) if case["zf"] else 0):
            raise Violation(show + "P(zeroton) = 10^%g, P(singleton) = 10^%g" % (m[1][zero[0],][0], m[1][one[0],][0]))
        for w in cc:
            if m[1][w,][0] > TINY:
                raise Violation(show + "context cue %s has probability 10^%g" % (w, m[1][w,][0]))
        # evaluation
        test = [w if w in voc else "<UNK>" for w in case["test"]]
        if vt == 0 and "<UNK>" in test:
            raise Discard()
        fb = {}
        args = []
        if case["fb"] == "list":
            ctx.write("f.fblist", "%s i\n%s e\n" % (voc[0], voc[-1]))
            fb, args = {voc[0]: "i", voc[-1]: "e"}, ["-backoff_from_list", ctx.path("f.fblist")]
        elif case["fb"]:
            k = case["fb"][-3]
            fb, args = {w: k for w in (["<UNK>"] if "unk" in case["fb"] else cc)}, [case["fb"]]
        unks = case["unks"] and vt
        want, oov, ccs = [], 0, 0
        hits = Counter()
        for i, w in enumerate(test):
            h = tuple(test[max(0, i - n + 1):i])
            for j in range(len(h) - 1, -1, -1):
                if h[j] in fb:
                    h = h[j + (fb[h[j]] == "e"):]
                    break
            if w in cc:
                ccs += 1
            elif w == "<UNK>" and not unks:
                oov += 1
            else:
                oov += w == "<UNK>"
                q, o = logp(m, h, w)
                hits[o] += 1
                want.append((w, h, q))
        if not want or any(q is None or q < -5 or q > -1e-3 for _, _, q in want):
            raise Discard()
        ctx.write("x.text", " ".join(case["test"]) + "\n")
        cmd = "perplexity -text %s -probs %s -oovs %s -annotate %s %s %s\n" % (ctx.path("x.text"), ctx.path("x.fprobs"), ctx.path("x.oov"), ctx.path("x.ann"), " ".join(args), "-include_unks" if unks else "")
        val = [h for h in ctxs if len(h) == n - 1 and sum(pr(h, w) for w in full) > .998 and max(pr(h, w) for w in full) < .999][:4]
        cmd += "".join("validate %s\n" % " ".join(h) for h in val if "<UNK>" not in h) + "quit\n"
        out, err = tool(["evallm", "-binary", ctx.path("m.binlm")], cmd)
        show += "test text: %s\n%s\n%s\n" % (" ".join(case["test"]), cmd, out)
        got = [float(x) for x in ctx.read("x.fprobs").split()]
        if len(got) != len(want) or any(abs(g - 10 ** q) > 6e-4 * 10 ** q + 1e-9 for g, (_, _, q) in zip(got, want)):
            raise Violation(show + "probabilities %s\nexpected %s" % (got, [("%s|%s" % (w, " ".join(h)), 10 ** q) for w, h, q in want]))
        ent = -sum(math.log2(g) for g in got) / len(got)
        f = re.search(r"Perplexity = ([\d.]+), Entropy = ([\d.]+) bits\nComputation based on (\d+) words", out)
        if not f or abs(float(f.group(2)) - ent) > .0051 + 1e-3 * ent or abs(float(f.group(1)) - 2 ** ent) > .0051 + 1e-3 * 2 ** ent or int(f.group(3)) != len(want):
            raise Violation(show + "entropy %g, perplexity %g over %d words" % (ent, 2 ** ent, len(want)))
        for k in range(1, n + 1):
            x = re.search(r"Number of %d-grams hit = (\d+)" % k, out)
            if not x or int(x.group(1)) != hits[k]:
                raise Violation(show + "%d %d-grams hit" % (hits[k], k))
        x = re.search(r"(\d+) OOVs \([\d.]+%\) and (\d+) context cues were removed", out)
        if not unks and (not x or (int(x.group(1)), int(x.group(2))) != (oov, ccs)):
            raise Violation(show + "%d OOVs and %d context cues" % (oov, ccs))
        if ctx.read("x.oov").split() != [w for w in case["test"] if w not in voc]:
            raise Violation(show + "OOVs listed: %s" % ctx.read("x.oov").split())
        for t in re.findall(r"Sum of P\(.*\) = ([\d.]+)", out):
            if abs(float(t) - 1) > 5e-3:     # back-off weights are stored in two bytes
                raise Violation(show + "sum %s" % t)
        ctx.label(case["disc"], "n=%d" % n, "type %d" % vt, "cc" if cc else "", "fb" if fb else "", "cutoffs" if any(case["cut"]) else "")
        if any(hits[k] for k in range(1, n)):
            ctx.nontrivial(show)


def build():
    return {"slm": B.sclite(True)}


SUITES = [Model()]
