"""Property runner: shards, Hypothesis driving, shrinking, evidence, replay.

    python3-vt -m vf.core PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else: the check could not do its work.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from vf.client import Env, HarnessError, SutRaised, VERIF, Violation

OUT = os.environ.get("VF_OUT", VERIF)       # where evidence and replay files go
REPLAYS = os.path.join(OUT, "replays")


class Part:
    """One generated relation of a property.

    strategy: () -> SearchStrategy of JSON-able dicts
    check:    (case, env) -> None, raises Violation
    classify: case -> (non_trivial: bool, [labels])
    quick/thorough: cases over all shards
    """

    def __init__(self, name, strategy, check, classify, quick, thorough, regressions=(),
                 chunk=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.classify = classify
        self.quick = quick
        self.thorough = thorough
        self.regressions = list(regressions)
        self.chunk = chunk


def load(pid):
    return importlib.import_module(f"props.{pid}")


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def shorten(obj, limit=12):
    """A readable copy of a case for the evidence file."""
    if isinstance(obj, dict):
        return {k: shorten(v, limit) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > limit:
            return [shorten(v, limit) for v in obj[:limit]] + [f"... {len(obj)} items"]
        return [shorten(v, limit) for v in obj]
    if isinstance(obj, str) and len(obj) > 200:
        return obj[:200] + f"... {len(obj)} chars"
    return obj


# --------------------------------------------------------------------------
# known findings

def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == pid and k.get("status") == "open"]


# --------------------------------------------------------------------------
# one shard

class ShardState:
    def __init__(self, out):
        self.out = out
        self.evaluations = 0
        self.per_part = {}
        self.labels = {}
        self.nontrivial = set()
        self.samples = {}
        self.best = None
        self.known_hits = {}

    def record(self, part, case):
        self.evaluations += 1
        d = self.per_part.setdefault(part.name, [0, 0])
        d[0] += 1
        nt, labels = part.classify(case)
        for lab in labels:
            key = f"{part.name}: {lab}"
            self.labels[key] = self.labels.get(key, 0) + 1
        if nt:
            d[1] += 1
            h = case_hash([part.name, case])
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                s = self.samples.setdefault(part.name, [])
                if len(s) < 2 or (d[1] % 97 == 0 and len(s) < 4):
                    s.append(shorten(case))

    def failure(self, part, case, exc):
        text = json.dumps(case, sort_keys=True)
        if self.best is None or len(text) <= self.best[0]:
            self.best = (len(text), part.name, case, f"{exc}",
                         getattr(exc, "tb", "") or "")
            tmp = self.out + ".fail.tmp"
            with open(tmp, "w") as f:
                json.dump({"part": part.name, "case": case, "message": f"{exc}",
                           "traceback": self.best[4]}, f)
            os.replace(tmp, self.out + ".fail")

    def dump(self, extra):
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump({
                "evaluations": self.evaluations, "per_part": self.per_part,
                "labels": self.labels, "nontrivial": sorted(self.nontrivial),
                "samples": self.samples, "known_hits": self.known_hits, **extra}, f)
        os.replace(tmp, self.out)


def run_shard(pid, tier, seed, shard, nshards, out, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(pid)
    st = ShardState(out)
    scratch = out + ".d"
    os.makedirs(scratch)
    env = Env(scratch)
    known = known_findings(pid)
    matcher = getattr(mod, "known_match", None)
    deadline = time.monotonic() + budget
    PHASES = [Phase.generate] + [Phase.shrink] * (not os.environ.get("VF_NOSHRINK"))
    cut = []
    t0 = time.monotonic()

    def run_one(part, case):
        st.record(part, case)
        try:
            part.check(case, env)
        except Violation as e:
            if known and matcher is not None:
                k = matcher(part.name, case, e, known)
                if k is not None:
                    st.known_hits[k] = st.known_hits.get(k, 0) + 1
                    return
            st.failure(part, case, e)
            raise

    try:
        if hasattr(mod, "setup"):
            mod.setup(env)
        # saved inputs first: every shard takes its share
        for part in mod.PARTS:
            for i, case in enumerate(part.regressions):
                if i % nshards == shard:
                    run_one(part, json.loads(json.dumps(case)))
        for part in mod.PARTS:
            total = part.quick if tier == "quick" else part.thorough
            total = max(nshards, int(total * float(os.environ.get("VF_SCALE", 1))))
            mine = total // nshards + (1 if shard < total % nshards else 0)
            chunk = part.chunk or max(50, min(400, mine))
            done = k = 0
            while done < mine:
                if time.monotonic() > deadline:
                    cut.append(part.name)
                    break
                n = min(chunk, mine - done)

                def make(part):
                    def body(case):
                        run_one(part, case)
                    return body

                test = settings(
                    max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, phases=PHASES,
                    suppress_health_check=list(HealthCheck),
                )(given(part.strategy())(make(part)))
                s = zlib.crc32(f"{pid}/{part.name}/{seed}/{shard}/{k}".encode())
                test = hypothesis.seed(s)(test)
                before = st.per_part.get(part.name, [0, 0])[0]
                test()
                ran = st.per_part.get(part.name, [0, 0])[0] - before
                done += n
                k += 1
                if ran == 0:
                    break
    except Violation:
        pass
    except HarnessError:
        st.dump({"error": traceback.format_exc(), "cut": cut})
        return 3
    except BaseException:
        # e.g. Hypothesis reports Flaky after a recorded violation
        if st.best is None:
            st.dump({"error": traceback.format_exc(), "cut": cut})
            return 3
        st.dump({"note": traceback.format_exc()[-1500:], "cut": cut})
        return 1
    finally:
        env.close()
    st.dump({"cut": cut, "counters": env.counters, "wall": time.monotonic() - t0})
    return 1 if st.best is not None else 0


# --------------------------------------------------------------------------
# the whole check

def write_replay(pid, fail):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{fail['part']}-{case_hash(fail['case'])}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **fail}, f, indent=1, sort_keys=True)
    return path


def run_check(pid, tier, seed):
    t0 = time.monotonic()
    mod = load(pid)
    nshards = int(os.environ.get("VF_SHARDS", 0)) or getattr(mod, "SHARDS", 8)
    budget = float(os.environ.get("VF_BUDGET", 0)) or (
        getattr(mod, "QUICK_BUDGET", 150) if tier == "quick"
        else getattr(mod, "THOROUGH_BUDGET", 1500))
    work = tempfile.mkdtemp(
        prefix=f"vf-{pid}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    procs = []
    fail = None
    try:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", TZ="UTC",
                   PYTHONPATH=VERIF)
        for i in range(nshards):
            out = os.path.join(work, f"s{i}.json")
            procs.append((i, out, subprocess.Popen(
                [sys.executable, "-m", "vf.core", pid, "--tier", tier, "--seed", str(seed),
                 "--shard", f"{i}/{nshards}", "--out", out, "--budget", str(budget)],
                cwd=VERIF, env=env, stdin=subprocess.DEVNULL, start_new_session=True,
                stdout=sys.stderr, stderr=sys.stderr)))
        first_fail = None
        limit = time.monotonic() + budget + (420 if tier == "quick" else 900)
        while True:
            running = [p for _, _, p in procs if p.poll() is None]
            if first_fail is None and any(os.path.exists(o + ".fail") for _, o, _ in procs):
                first_fail = time.monotonic()
            if not running:
                break
            # once something failed, leave a bounded time to shrink
            if first_fail is not None:
                failing = [p for _, o, p in procs if os.path.exists(o + ".fail")]
                if (all(p.poll() is not None for p in failing)
                        or os.environ.get("VF_NOSHRINK")
                        or time.monotonic() - first_fail > 45):
                    break
            if time.monotonic() > limit:
                break
            time.sleep(0.05)
        timed_out = [i for i, _, p in procs if p.poll() is None] if first_fail is None else []
        for _, _, p in procs:
            _kill(p)
        fails = []
        for _, out, _ in procs:
            if os.path.exists(out + ".fail"):
                with open(out + ".fail") as f:
                    fails.append(json.load(f))
        if fails:
            fail = min(fails, key=lambda f: len(json.dumps(f["case"])))
        shards = []
        errors = []
        for i, out, p in procs:
            if os.path.exists(out):
                with open(out) as f:
                    d = json.load(f)
                shards.append(d)
                if d.get("error"):
                    errors.append(f"shard {i}:\n{d['error']}")
            elif fail is None:
                errors.append(f"shard {i}: no result (status {p.returncode})")
        if timed_out and not fail:
            errors.append(f"shards {timed_out} did not finish")
    finally:
        for _, _, p in procs:
            _kill(p)
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(pid)
    write_evidence(pid, mod, tier, seed, shards, fail, time.monotonic() - t0, nshards, errors)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = sum(s["evaluations"] for s in shards)
    if fail is not None:
        path = write_replay(pid, fail)
        print(f"{pid}/{fail['part']}: {fail['message'][:1500]}")
        if fail.get("traceback"):
            print(fail["traceback"][-1200:])
        print("case:", json.dumps(shorten(fail["case"], 20))[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"{pid}: the check could not finish", file=sys.stderr)
        return 2
    cut = sorted({c for s in shards for c in s.get("cut", [])})
    print(f"{pid}: held on {ev} cases ({tier}, seed {seed}, {time.monotonic() - t0:.1f}s)"
          + (f"; time budget reached in {cut}" if cut else ""))
    return 0


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(timeout=30)
    except subprocess.TimeoutExpired:
        pass


def write_evidence(pid, mod, tier, seed, shards, fail, wall, nshards, errors):
    labels, parts, counters, samples = {}, {}, {}, []
    nontrivial = set()
    known_hits = {}
    for s in shards:
        nontrivial.update(s["nontrivial"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s.get("known_hits", {}).items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, (a, b) in s["per_part"].items():
            p = parts.setdefault(k, {"cases": 0, "nontrivial": 0})
            p["cases"] += a
            p["nontrivial"] += b
    for part in mod.PARTS:
        got = 0
        for s in shards:
            for c in s["samples"].get(part.name, []):
                if got < 3:
                    samples.append({"relation": part.name, "case": c})
                    got += 1
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in shards),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "relations": parts,
            "classes": dict(sorted(labels.items())),
            "counters": counters,
            "known_finding_hits": known_hits,
            "time_budget_reached": sorted({c for s in shards for c in s.get("cut", [])}),
            "shards": nshards,
            "harness_errors": len(errors),
            "exhaustive": False,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 0 if fail is None else 1,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        doc = json.load(f)
    part = next(p for p in mod.PARTS if p.name == doc["part"])
    env = Env()
    try:
        if hasattr(mod, "setup"):
            mod.setup(env)
        part.check(doc["case"], env)
    except Violation as e:
        print(f"{pid}/{part.name}: {e}")
        if isinstance(e, SutRaised):
            print(e.tb[-1500:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    finally:
        env.close()
    print(f"{pid}/{part.name}: the saved case holds")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.replay:
        return replay(a.property, a.replay)
    if a.shard:
        i, n = map(int, a.shard.split("/"))
        return run_shard(a.property, a.tier, a.seed, i, n, a.out, a.budget)
    return run_check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
