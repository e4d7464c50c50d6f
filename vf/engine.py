"""A small property-based testing engine.

Every random choice of a case is drawn from a `Src`, a recorded sequence of
bounded integers.  A case is a pure function of that sequence, so a failure is
shrunk by shrinking the sequence (delete blocks, zero blocks, lower values) and
re-generating, and a run is a pure function of the code and VERIF_SEED.
Replay files hold the generated case itself (JSON), not the choices.
"""
import collections, hashlib, json, multiprocessing as mp, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH_ROOT = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
# Quick budgets are the suites' own numbers times this (C27 searches by time; C31 is slow).
BOOST = {"C27": 1.0, "C31": 1.0}


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The generated case is outside the property's domain."""


# ----------------------------------------------------------------- choices
class Src:
    def __init__(self, rng=None, prefix=()):
        self.rng, self.prefix, self.i, self.rec = rng, prefix, 0, []

    def draw(self, n):
        """an integer in 0..n; 0 is the simplest"""
        if self.i < len(self.prefix):
            v = min(self.prefix[self.i], n)
        elif self.rng is not None:
            v = self.rng.randint(0, n)
        else:
            v = 0
        self.i += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def bool(self, p=0.5):
        """True with probability p; shrinks to False"""
        return self.draw(999) >= 1000 - int(p * 1000 + .5)

    def weighted(self, *pairs):
        """weighted((w, v), ...); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        x = self.draw(tot - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def size(self, lo, hi, mean=None):
        """a geometric-ish length, drawn as one flag per element by list()"""
        if mean is None:
            return self.int(lo, hi)
        n = lo
        while n < hi and self.bool(mean / (mean + 1.0)):
            n += 1
        return n

    def list(self, elem, lo, hi, mean=None):
        """list whose elements shrink away one by one"""
        out = []
        p = 0.5 if mean is None else mean / (mean + 1.0)
        if mean is None:
            for _ in range(self.int(lo, hi)):
                out.append(elem())
            return out
        while len(out) < lo or (len(out) < hi and self.bool(p)):
            out.append(elem())
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i)          # 0 = stay
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]


# ----------------------------------------------------------------- context
class Ctx:
    def __init__(self, bins, tmp):
        self.bins, self.tmp = bins, tmp
        self.labels = collections.Counter()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.n = self.k = 0
        self.dir = tmp

    def fresh(self):
        self.n += 1
        self.dir = os.path.join(self.tmp, "c%d" % self.n)
        os.makedirs(self.dir)
        return self.dir

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        return p

    def read(self, name, binary=False):
        p = name if os.path.isabs(name) else os.path.join(self.dir, name)
        try:
            with open(p, "rb") as f:
                b = f.read()
        except FileNotFoundError:
            raise Violation("expected output file %s was not written" % os.path.basename(name))
        return b if binary else b.decode("utf-8", "surrogateescape")

    def label(self, *ls):
        for l in ls:
            self.labels[l] += 1

    def nontrivial(self, key):
        if len(self.keys) < 400000:
            self.keys.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogateescape"), digest_size=6).digest())

    def run(self, cmd, stdin=None, ok=(0,), timeout=40, env=None, cwd=None, text=True):
        """Runs a program of the code under test in the case's directory.
        A signal, a sanitizer report, an exit status outside `ok` (None: any) or
        a hang is a violation."""
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.dir, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PERL_HASH_SEED": "0",
             "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
        if env:
            e.update(env)
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogateescape")
        # output goes to files so that RLIMIT_FSIZE bounds a runaway program
        self.k += 1
        fo, fe = self.tmp + "/.o%d" % self.n, self.tmp + "/.e%d" % self.n
        try:
            with open(fo, "wb") as ho, open(fe, "wb") as he:
                p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=ho, stderr=he, cwd=cwd or self.dir, env=e, start_new_session=True)
                global CHILD
                CHILD = p.pid
                try:
                    for left in (3, 2, 1, 0):
                        try:
                            p.communicate(stdin if stdin is not None else b"", timeout=timeout)
                            break
                        except subprocess.TimeoutExpired:
                            # a busy machine is not a hang: what counts is the processor time
                            if not left or cputime(p.pid) > timeout * .6:
                                raise
                except subprocess.TimeoutExpired:
                    # the whole group: a script's own children must not run on
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    raise
            with open(fo, "rb") as h:
                p.stdout = h.read()
            with open(fe, "rb") as h:
                err = h.read().decode("utf-8", "surrogateescape")
        except subprocess.TimeoutExpired:
            raise Violation("no answer after %d s from: %s" % (timeout, short(cmd)))
        finally:
            os.remove(fo)
            os.remove(fe)
        if p.returncode < 0:
            raise Violation("killed by signal %d: %s\n%s" % (-p.returncode, short(cmd), err[-800:]))
        if p.returncode == 99 and ("Sanitizer" in err or "runtime error" in err):
            raise Violation("sanitizer report: %s\n%s" % (short(cmd), err[:1800]))
        if ok is not None and p.returncode not in ok:
            raise Violation("exit status %d: %s\n%s%s" % (p.returncode, short(cmd), err[-600:], p.stdout.decode("utf-8", "replace")[-300:]))
        return p.returncode, (p.stdout.decode("utf-8", "surrogateescape") if text else p.stdout), err


CHILD = None


def on_term(*_):
    """a worker told to stop takes the program it is running with it"""
    try:
        if CHILD:
            os.killpg(CHILD, signal.SIGKILL)
    except OSError:
        pass
    os._exit(1)


def cputime(sid):
    """processor seconds used so far by the processes of a session"""
    t = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as h:
                    f = h.read().rsplit(")", 1)[1].split()
                if int(f[3]) == sid:
                    t += sum(map(int, f[11:15]))
            except (OSError, ValueError, IndexError):
                pass
    return t / os.sysconf("SC_CLK_TCK")


def short(cmd):
    return " ".join(os.path.basename(c) if c.startswith("/") else c for c in cmd)[:400]


class Suite:
    """One generator with its oracle.  Subclasses set name, quick, thorough and
    implement gen(src) -> JSON-able case and check(case, ctx)."""
    name = "suite"
    quick = 100
    thorough = 1000

    def gen(self, s):
        raise NotImplementedError

    def check(self, case, ctx):
        raise NotImplementedError


# ----------------------------------------------------------------- running
def _rng(seed, prop, suite, idx):
    return random.Random("%s/%s/%s/%s" % (seed, prop, suite, idx))


def _norm(case):
    return json.loads(json.dumps(case))


def run_case(suite, case, ctx):
    """None if the case passes, else the violation message."""
    ctx.fresh()
    try:
        suite.check(case, ctx)
        return None
    except Violation as v:
        return str(v) or "violated"
    except (Discard, OSError, MemoryError):
        raise
    except Exception:
        return "the output could not be interpreted:\n" + traceback.format_exc()[-1500:]
    finally:
        ctx.clean()


_W = {}


def _init(suites, bins, prop, seed, tmp):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, on_term)
    _W.update(suites=suites, bins=bins, prop=prop, seed=seed, tmp=tempfile.mkdtemp(dir=tmp))


def _work(job):
    si, lo, hi = job
    suite = _W["suites"][si]
    ctx = Ctx(_W["bins"], _W["tmp"])
    ctx.n = random.randrange(10 ** 9)
    done = disc = 0
    fail = None
    for idx in range(lo, hi):
        src = Src(_rng(_W["seed"], _W["prop"], suite.name, idx))
        try:
            case = _norm(suite.gen(src))
            if idx < 3:
                ctx.samples.append({"suite": suite.name, "case": json.dumps(case)[:900]})
            msg = run_case(suite, case, ctx)
        except Discard:
            disc += 1
            continue
        except Violation:
            raise
        except Exception:
            return dict(error="suite %s case %d: %s" % (suite.name, idx, traceback.format_exc()))
        done += 1
        if msg:
            fail = (si, idx, src.rec, case, msg)
            break
    return dict(si=si, done=done, disc=disc, labels=ctx.labels, evals=ctx.evals, keys=ctx.keys, samples=ctx.samples, fail=fail)


def shrink(suite, rec, case, msg, ctx, tries=600, secs=60):
    t0 = time.time()
    best, bcase, bmsg = list(rec), case, msg
    n = 0

    def attempt(cand):
        nonlocal best, bcase, bmsg, n
        if n >= tries or time.time() - t0 > secs:
            return False
        n += 1
        src = Src(None, cand)
        try:
            c = _norm(suite.gen(src))
            m = run_case(suite, c, ctx)
        except Exception:
            return False
        if m:
            r = src.rec
            if (len(r), r) < (len(best), best):
                best, bcase, bmsg = r, c, m
                return True
        return False

    improved = True
    while improved and n < tries and time.time() - t0 < secs:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1:                       # delete blocks
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                i -= k
            k = k // 2 if k > 1 else 0
            if n >= tries:
                break
        k = 8
        while k >= 1:                       # zero blocks
            i = 0
            while i + k <= len(best):
                if any(best[i:i + k]) and attempt(best[:i] + [0] * k + best[i + k:]):
                    improved = True
                i += k
            k //= 2
        for i in range(len(best)):          # lower values
            if i < len(best) and best[i] > 1:
                lo, hi = 0, best[i]
                while lo + 1 < hi:
                    mid = (lo + hi) // 2
                    if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid
    return best, bcase, bmsg


def load_json(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return default


def main(prop, suites, build, rule, assumptions=(), level="exploration", argv=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    bins = build()
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=SCRATCH_ROOT)
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))   # inherited by the programs under test
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    only = None
    scale = float(os.environ.get("VF_SCALE", "1"))
    try:
        if argv and argv[0] == "--replay":
            return _replay(prop, suites, bins, tmp, argv[1])
        if argv and argv[0] == "--suite":
            only = argv[1]
        return _main(prop, suites, bins, rule, assumptions, level, tier, seed, t0, tbuild, tmp, only, scale)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _replay(prop, suites, bins, tmp, path):
    r = load_json(path, None)
    su = [s for s in suites if s.name == r["suite"]][0]
    msg = run_case(su, r["case"], Ctx(bins, tmp))
    if msg:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay passes")
    return 0


def _main(prop, suites, bins, rule, assumptions, level, tier, seed, t0, tbuild, tmp, only, scale):
    cap = 700 if tier == "quick" else 6 * 3600
    viol = None
    labels, keys = collections.Counter(), set()
    evals = disc = flaky = 0
    samples, persuite = [], collections.Counter()
    ctx0 = Ctx(bins, tmp)
    ctx0.n = 10 ** 9
    nreg = 0
    # 1. saved regressions and listed findings
    known = [k for k in load_json(os.path.join(VERIF, "known_findings.json"), {"known": []})["known"] if k["property"] == prop]
    for k in known:
        su = [s for s in suites if s.name == k["suite"]][0]
        if run_case(su, k["case"], ctx0):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cdir = os.path.join(VERIF, "corpus", prop)
    if os.path.isdir(cdir) and not only:
        for f in sorted(os.listdir(cdir)):
            r = load_json(os.path.join(cdir, f), None)
            sus = [s for s in suites if s.name == r["suite"]]
            if not sus:
                continue
            nreg += 1
            msg = run_case(sus[0], r["case"], ctx0)
            if msg and all(run_case(sus[0], r["case"], ctx0) for _ in range(3)):
                viol = (sus[0], r["case"], msg, "saved case " + f)
                break
    # 2. generated cases
    truncated = False
    if viol is None:
        jobs = []
        for si, su in enumerate(suites):
            if only and su.name != only:
                continue
            n = max(1, int((su.quick * BOOST.get(prop, 1.0) if tier == "quick" else su.thorough) * scale))
            step = max(1, min(getattr(su, "chunk", 50), (n + 31) // 32))
            jobs += [(si, lo, min(n, lo + step)) for lo in range(0, n, step)]
        # interleave suites so that a failure in any is met early
        jobs.sort(key=lambda j: (j[1] / max(1.0, (suites[j[0]].quick if tier == "quick" else suites[j[0]].thorough)), j[0]))
        pool = mp.Pool(int(os.environ.get("VF_JOBS", os.cpu_count() or 4)), _init, (suites, bins, prop, seed, tmp))
        try:
            for r in pool.imap_unordered(_work, jobs):
                if "error" in r:
                    raise RuntimeError(r["error"])
                su = suites[r["si"]]
                persuite[su.name] += r["done"]
                evals += r["evals"] or r["done"]
                disc += r["disc"]
                labels.update({"%s: %s" % (su.name, k): v for k, v in r["labels"].items()})
                keys |= r["keys"]
                samples += r["samples"]
                if r["fail"]:
                    si, idx, rec, case, msg = r["fail"]
                    if all(run_case(su, case, ctx0) for _ in range(3)):
                        pool.terminate()
                        rec, case, msg = shrink(su, rec, case, msg, ctx0, secs=float(os.environ.get("VF_SHRINK", "60")))
                        viol = (su, case, msg, "suite %s case %d seed %d" % (su.name, idx, seed))
                        break
                    flaky += 1
                    print("note: suite %s case %d failed once and not on re-run: %s" % (su.name, idx, msg[:300]))
                if time.time() - t0 > cap:
                    truncated = True
                    break
        finally:
            pool.terminate()
            pool.join()
    rc = 0
    if viol:
        su, case, msg, where = viol
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, su.name))
        with open(rp, "w") as f:
            json.dump({"property": prop, "suite": su.name, "case": case, "message": msg, "found": where}, f, indent=1)
        print("%s [%s]\n%s" % (prop, where, msg[:3000]))
        print("case: " + json.dumps(case)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    sm = []
    seen = set()
    for x in samples:
        if x["suite"] not in seen or len(sm) < 6:
            seen.add(x["suite"])
            sm.append(x)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": rule, "samples": sm[:24],
                       "cases_per_suite": dict(persuite), "discarded": disc, "saved_cases_replayed": nreg,
                       "classes": dict(sorted(labels.items())), "failed_but_not_reproduced": flaky,
                       "stopped_by_time_cap": truncated},
          "wall_s": round(time.time() - t0, 2), "build_s": round(tbuild, 2),
          "violations": [] if not viol else [{"where": viol[3], "message": viol[2][:1500], "replay": rp}],
          "assumptions": list(assumptions)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if not viol:
        print("%s: held on %d evaluations (%d distinct non-trivial) in %.1f s; %s" %
              (prop, evals, len(keys), time.time() - t0, dict(persuite)))
        if os.environ.get("VF_LABELS"):
            for k, v in sorted(labels.items()):
                print("   %-60s %d" % (k, v))
    return rc
