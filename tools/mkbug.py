"""mkbug.py ID PROP FILE: reads OLD ==== NEW pairs (separated by a line '====' and pairs by '####') from stdin, makes seeded/ID/patch.diff."""
import sys, os, subprocess
bid, prop = sys.argv[1:3]
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
try:
    for pair in sys.stdin.read().split("\n####\n"):
        head, rest = pair.split("\n", 1)
        head, _, occ = head.strip().partition(" @")     # "file @2": the second occurrence
        f = "/repo/src/" + head
        old, new = rest.split("\n====\n")
        old, new = old.strip("\n"), new.strip("\n")
        t = open(f, encoding="latin-1").read()
        assert t.count(old) == 1 or occ, (f, t.count(old), old)
        parts = t.split(old)
        k = int(occ or 1)
        open(f, "w", encoding="latin-1").write(old.join(parts[:k]) + new + old.join(parts[k:]))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
