"""Builds the programs under test from /repo's *current working tree*.

Nothing is taken from /repo/_build: objects are compiled from /repo/src into
/verif/.cache/build/<key>/, where <key> is a hash of every source file and of
the flags, so a changed tree is always rebuilt and an unchanged one is not.
"""
import glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.path.join(VERIF, ".cache", "build")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift,float-cast-overflow,signed-integer-overflow,alignment,nonnull-attribute",
       "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined"]
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
       "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}


class BuildError(Exception):
    pass


def _files(root, exts):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def _key(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace")[-3000:])


def _compile(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_run, jobs))


def _cached(tag, files, flags, fn):
    key = _key(files, tag + repr(flags))
    out = os.path.join(CACHE, tag + "-" + key)
    if os.path.exists(os.path.join(out, ".ok")):
        os.utime(out)
        return out
    # keep the cache small: drop all but the few most recent builds of this tag
    old = sorted(glob.glob(os.path.join(CACHE, tag + "-*")), key=os.path.getmtime)
    for o in old[:-3]:
        shutil.rmtree(o, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        fn(tmp)
        for f in os.listdir(tmp):
            if f.endswith((".o", ".a")):
                os.remove(os.path.join(tmp, f))
        open(os.path.join(tmp, ".ok"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


FORCE = []         # non-empty: every program is built with sanitizers


SLM_EXECS = ("idngram2lm evallm text2wngram text2idngram binlm2arpa ngram2mgram idngram2stats "
             "wfreq2vocab text2wfreq wngram2idngram mergeidngram interpolate").split()
SCL_MAINS = ["sclite", "sc_stats", "rover"]
SCL_SKIP = {"mcnemar", "sclite_tolower", "sctkUnit", "sign"} | set(SCL_MAINS)


def _slm_objs(tmp, opt):
    d = os.path.join(SRC, "sclite", "slm_v2", "src")
    fl = opt + ["-w", "-fcommon", "-DSLM_SWAP_BYTES", "-I" + d]
    jobs, objs = [], []
    for c in sorted(glob.glob(d + "/*.c") + glob.glob(d + "/pc_libs/*.c") + glob.glob(d + "/rr_libs/*.c")):
        b = os.path.basename(c)[:-2]
        o = os.path.join(tmp, "slm_" + b + ".o")
        jobs.append(["gcc"] + fl + ["-c", c, "-o", o])
        if b not in SLM_EXECS:
            objs.append(o)
    return jobs, objs


def sclite(asan=False):
    """Directory holding sclite, sc_stats, rover and the SLM toolkit programs."""
    asan = asan or bool(FORCE)
    opt = ["-O1", "-g"] + SAN if asan else ["-Os"]
    files = _files(os.path.join(SRC, "sclite"), (".c", ".h"))
    S = os.path.join(SRC, "sclite")
    defs = ['-DDIFF_EXE="/usr/bin/diff"', "-DWITH_SLM", "-DHAVE_LIBM=1", "-DSTDC_HEADERS=1", "-DHAVE_UNISTD_H=1", "-w", "-I" + S]

    def fn(tmp):
        jobs, slm = _slm_objs(tmp, opt)
        objs = []
        for c in sorted(glob.glob(S + "/*.c")):
            b = os.path.basename(c)[:-2]
            if b in SCL_SKIP and b not in SCL_MAINS:
                continue
            o = os.path.join(tmp, b + ".o")
            jobs.append(["gcc"] + opt + defs + ["-c", c, "-o", o])
            if b not in SCL_MAINS:
                objs.append(o)
        _compile(jobs)
        lib = os.path.join(tmp, "SLM2.a")
        _run(["ar", "rc", lib] + slm)
        links = [["gcc"] + opt + ["-o", os.path.join(tmp, m), os.path.join(tmp, m + ".o")] + objs + [lib, "-lm"] for m in SCL_MAINS]
        links += [["gcc"] + opt + ["-o", os.path.join(tmp, m), os.path.join(tmp, "slm_" + m + ".o"), lib, "-lm"] for m in SLM_EXECS]
        _compile(links)

    return _cached("sclite_asan" if asan else "sclite", files, [opt, defs], fn)


def asclite(asan=False):
    asan = asan or bool(FORCE)
    opt = ["-O1", "-g"] + SAN if asan else ["-Os"]
    C = os.path.join(SRC, "asclite", "core")
    files = _files(C, (".cpp", ".c", ".h"))
    defs = ["-D%s=1" % x for x in ("HAVE_LIBM STDC_HEADERS HAVE_SYS_TYPES_H HAVE_SYS_STAT_H HAVE_STDLIB_H HAVE_STRING_H "
            "HAVE_MEMORY_H HAVE_STRINGS_H HAVE_INTTYPES_H HAVE_STDINT_H HAVE_UNISTD_H HAVE_STDIO_H HAVE_MATH_H "
            "HAVE_TIME_H HAVE_ASSERT_H HAVE_FLOAT_H HAVE_LIMITS_H").split()]
    defs += ['-DPACKAGE_%s=""' % x for x in ("NAME", "TARNAME", "VERSION", "STRING", "BUGREPORT")] + ["-w", "-I" + C]

    def fn(tmp):
        jobs, objs = [], []
        for c in sorted(glob.glob(C + "/*.cpp")) + sorted(glob.glob(C + "/*.c")) + sorted(glob.glob(C + "/lzma/*.c")):
            o = os.path.join(tmp, os.path.basename(c).rsplit(".", 1)[0] + ".o")
            jobs.append(["g++" if c.endswith("pp") else "gcc"] + opt + defs + ["-c", c, "-o", o])
            objs.append(o)
        _compile(jobs)
        _run(["g++"] + opt + ["-o", os.path.join(tmp, "asclite")] + objs + ["-lm"])

    return _cached("asclite_asan" if asan else "asclite", files, [opt, defs], fn)


def rfilter1(asan=False):
    asan = asan or bool(FORCE)
    opt = ["-O1", "-g"] + SAN if asan else []
    R = os.path.join(SRC, "rfilter1")
    files = _files(R, (".c", ".h"))
    cmd = ["gcc"] + opt + ["-w", "-DNEED_STRCMP=1"]

    def fn(tmp):
        _run(cmd + ["-o", os.path.join(tmp, "rfilter1"), os.path.join(R, "rfilter1.c")])

    return _cached("rfilter1_asan" if asan else "rfilter1", files, cmd, fn)


def perl():
    """Directory holding every script of the package the way it is installed:
    the .pl files, csrfilt.sh, and the two that are assembled from modules."""
    files = []
    for sub in sorted(os.listdir(SRC)):
        d = os.path.join(SRC, sub)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith((".pl", ".pm", ".sh", ".dtd")) or f == "packImageTarFile":
                    files.append(os.path.join(d, f))

    def fn(tmp):
        for sub in sorted(os.listdir(SRC)):
            d = os.path.join(SRC, sub)
            if not os.path.isdir(d):
                continue
            for f in sorted(os.listdir(d)):
                if f.endswith((".pl", ".dtd")) or f == "csrfilt.sh":
                    if f in ("RunTests.pl", "buildInstallVersion.pl", "buildPack.pl") or f.endswith("-main.pl"):
                        continue
                    shutil.copy(os.path.join(d, f), os.path.join(tmp, f))
        for n in ("align2html", "stmValidator"):
            p = subprocess.run(["perl", "buildInstallVersion.pl"], cwd=os.path.join(SRC, n), env=ENV,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                raise BuildError(p.stderr.decode("utf-8", "replace"))
            open(os.path.join(tmp, n + ".pl"), "wb").write(p.stdout)
        for f in os.listdir(tmp):
            os.chmod(os.path.join(tmp, f), 0o755)

    return _cached("perl", files, "v2", fn)


if __name__ == "__main__":
    for f in (sclite, lambda: sclite(True), asclite, lambda: asclite(True), rfilter1, lambda: rfilter1(True), perl):
        t = time.time()
        print(f(), "%.1fs" % (time.time() - t))
