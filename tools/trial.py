"""Tries hand-written changes against the checks: trial.py LIST.py [ID ...] [--jobs N] [--seed S]

LIST.py defines T = [(id, check ids, file, old, new), ...]; each is applied to a scratch copy.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, seed = 3, "1"
for k in ("--jobs", "--seed"):
    if k in args:
        i = args.index(k)
        v = args[i + 1]
        del args[i:i + 2]
        jobs, seed = (int(v), seed) if k == "--jobs" else (jobs, v)
ns = {}
exec(open(args[0]).read(), ns)


def one(t):
    tid, checks, path, old, new = t
    d = tempfile.mkdtemp(prefix="trial-", dir="/dev/shm")
    try:
        subprocess.run("git -C /repo archive HEAD src | tar x -C " + d, shell=True, check=True)
        p = os.path.join(d, path)
        s = open(p).read()
        if s.count(old) < 1:
            return tid, "NOT FOUND", ""
        open(p, "w").write(s.replace(old, new, 1))
        res = []
        for c in checks.split():
            r = subprocess.run([os.path.join(ROOT, "run"), c, "--seed", seed], cwd=ROOT,
                               env=dict(os.environ, VF_REPO=d, VF_OUT=d, VF_NOSHRINK="1",
                                        VF_SHARDS=os.environ.get("VF_SHARDS", "4")),
                               capture_output=True, text=True)
            line = (r.stdout.strip().splitlines() or r.stderr.strip().splitlines() or [""])[0][:150]
            res.append((c, r.returncode, line))
            if r.returncode == 1:
                return tid, f"caught {c}", line
        return tid, "MISSED " + " ".join(f"{c}:{rc}" for c, rc, _ in res), res[-1][2]
    finally:
        shutil.rmtree(d, ignore_errors=True)


sel = [t for t in ns["T"] if not args[1:] or t[0] in args[1:]]
with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, sel):
        print(*r, sep=" | ", flush=True)
