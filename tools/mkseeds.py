"""Writes /verif/seeded/<id>/ from tools/seed_specs.py, and validates each.

    python3 tools/mkseeds.py write            (re)create all seed folders
    python3 tools/mkseeds.py validate [ID..]  apply in /repo, build, test, demo; undo
    python3 tools/mkseeds.py check [ID..]     run the property's check against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    assert sid not in SEEDS, sid
    SEEDS[sid] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def git(*a, **k):
    return subprocess.run(["git", *a], check=True, capture_output=True, text=True, **k).stdout


def tree():
    d = tempfile.mkdtemp(prefix="seedtree-", dir="/tmp")
    git("-C", "/repo", "archive", "-o", d + ".tar", "HEAD")
    subprocess.run(["tar", "xf", d + ".tar", "-C", d], check=True)
    os.unlink(d + ".tar")
    return d


def write():
    common = open(os.path.join(ROOT, "tools", "seed_common.py")).read()
    d = tree()
    git("init", "-q", cwd=d)
    git("add", "-A", cwd=d)
    git("-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "base", cwd=d)
    try:
        for sid, s in SEEDS.items():
            for path, old, new in s["edits"]:
                p = os.path.join(d, path)
                text = open(p).read()
                assert text.count(old) == 1, (sid, path, text.count(old), old)
                open(p, "w").write(text.replace(old, new))
            diff = git("diff", cwd=d)
            git("checkout", "-q", "--", ".", cwd=d)
            out = os.path.join(SEEDED, sid)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "common.py"), "w").write(common)
            open(os.path.join(out, "demo.py"), "w").write(
                "from common import *\n\n" + s["demo"].strip() + "\n\nprint('demo ok')\n")
            with open(os.path.join(out, "demo.sh"), "w") as f:
                f.write("#!/bin/bash\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
                        "export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD/src:$here\"\n"
                        "exec timeout 250 /opt/venv/bin/python \"$here/demo.py\"\n")
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            with open(os.path.join(out, "meta.json"), "w") as f:
                json.dump({"property": s["prop"], "needs": s["needs"],
                           "what_it_breaks": s["breaks"]}, f, indent=1)
                f.write("\n")
    finally:
        shutil.rmtree(d)
    print(len(SEEDS), "seeds written")


def demo(sid, cwd):
    away = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        for n in ("demo.sh", "demo.py", "common.py"):
            shutil.copy(os.path.join(SEEDED, sid, n), away)
        return subprocess.run([os.path.join(away, "demo.sh")], cwd=cwd, capture_output=True,
                              text=True)
    finally:
        shutil.rmtree(away)


def validate(ids):
    assert not git("-C", "/repo", "status", "--porcelain")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = []
    for sid in ids:
        problems = []
        r = demo(sid, "/repo")
        if r.returncode:
            problems.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:])
        patch = os.path.join(SEEDED, sid, "patch.diff")
        try:
            git("-C", "/repo", "apply", patch)
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            if b.returncode:
                problems.append("build fails: " + b.stderr[-300:])
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], capture_output=True)
            res = json.load(open("/tmp/seedtest.json"))
            passed = set(res.get("passed", []))
            if not stable <= passed:
                problems.append(f"stable tests fail: {sorted(stable - passed)[:3]}")
            r = demo(sid, "/repo")
            if r.returncode == 0:
                problems.append("demo passes with the patch")
        finally:
            git("-C", "/repo", "checkout", "--", ".")
        print(sid, "OK" if not problems else problems, flush=True)
        if not problems:
            print("   ", (r.stdout + r.stderr).strip().splitlines()[-1][:150], flush=True)
        bad += [sid] if problems else []
    print("bad:", bad)


def check(ids, seeds=("1",)):
    missed = []
    path = os.path.join(ROOT, "design", "seed_results.json")
    results = json.load(open(path)) if os.path.exists(path) else {}
    for sid in ids:
        d = tree()
        try:
            git("init", "-q", cwd=d)
            git("apply", os.path.join(SEEDED, sid, "patch.diff"), cwd=d)
            for n in seeds:
                pid = json.load(open(os.path.join(SEEDED, sid, "meta.json")))["property"]
                r = subprocess.run([os.path.join(ROOT, "run"), pid, "--tier", "quick", "--seed", n],
                                   cwd=ROOT, env=dict(os.environ, VF_REPO=d, VF_OUT=d, VERIF_SEED=n,
                                                      VERIF_TIER="quick"),
                                   capture_output=True, text=True)
                ok = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
                lines = r.stdout.strip().splitlines() or [r.stderr[-200:]]
                print(sid, pid, "caught" if ok else f"MISSED ({r.returncode})",
                      "|", lines[0][:140], flush=True)
                results[sid] = (lines[0].split(":")[0] if ok else "missed")
                if not ok:
                    missed.append(sid)
        finally:
            shutil.rmtree(d)
    results = {k: v for k, v in sorted(results.items()) if k in SEEDS}
    with open(path, "w") as f:
        json.dump(results, f, indent=1)
        f.write("\n")
    print("missed:", missed)


exec(open(os.path.join(ROOT, "tools", "seed_specs.py")).read())
cmd, ids = sys.argv[1], sys.argv[2:] or list(SEEDS)
{"write": lambda i: write(), "validate": validate, "check": check}[cmd](ids)
