"""freqcd's result does not depend on how the stream arrives."""
import fcntl
import os
import subprocess
import time
from fractions import Fraction

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import Violation
from vf.core import Part
from props.C01 import chronological, offsets

RULE = ("generated event streams fed to the running program in generated pieces (cut anywhere, "
        "down to single bytes and single events), each taken up before the next is offered; every "
        "complete event must be delivered without waiting for more input, and the whole output "
        "must be the correction of the whole stream within 2 units, as if it had come at once. "
        "'trickle' feeds hundreds of events one by one with gaps so short that each single "
        "correction is below one unit; 'bulk' feeds thousands in pieces around and above the size "
        "of the program's buffer; 'slow' reads the output in small portions through a pipe that "
        "holds less than one output buffer; 'stall' pauses for longer than the program waits at a time. Non-trivial: a piece ends inside an event and (small pieces) "
        "the total correction exceeds ten units.")
ASSUMPTIONS = ["events are chronological and span less than one roll-over"]

TOL = Fraction(2)


def setup(env):
    env.data["freqcd"] = freqcd.build(env)


@st.composite
def pieces(draw, size):
    """Sizes that add up to size."""
    kind = draw(st.sampled_from(["bytes", "mixed", "events", "mixed"]))
    out, left = [], size
    while left:
        if len(out) > 60:
            n = left
        elif kind == "bytes":
            n = draw(st.integers(1, 9))
        elif kind == "events":
            n = 8 * draw(st.integers(1, 3))
        else:
            n = draw(st.one_of(st.integers(1, 7), st.integers(1, 40),
                               st.integers(1, 12).map(lambda k: 8 * k)))
        n = min(n, left)
        out.append(n)
        left -= n
    return out


@st.composite
def _case(draw):
    ts = draw(chronological(min_size=1, max_size=24))
    ps = draw(st.lists(gen.low10(), min_size=len(ts), max_size=len(ts)))
    tail = draw(st.sampled_from([0, 0, 0, 3]))
    return {"events": [[t, p] for t, p in zip(ts, ps)], "f": draw(offsets(False)),
            "legacy": draw(st.booleans()), "tail": tail,
            "pieces": draw(pieces(8 * len(ts) + tail)),
            "named_in": draw(st.sampled_from([False, False, False, True])),
            "named_out": draw(st.sampled_from([False, False, False, True]))}


def drive(env, case, ev, chunks, tail=0):
    d = env.newdir()
    data = ref.encode_events(ev, "a1", case["legacy"]) + b"\x5a" * tail
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    s = freqcd.Session(env.data["freqcd"], args, d, named_in=case.get("named_in", False),
                       named_out=case.get("named_out", False))
    try:
        at = 0
        for n in chunks:
            s.feed(data[at:at + n])
            at += n
        s.expect(8 * len(ev))
        early = len(s.out)
        rc, out, err = s.finish()
    finally:
        s.kill()
    what = f"freqcd {' '.join(args)}, {len(chunks)} pieces"
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    if early < len(out):
        raise Violation(f"{what}: {len(out) - early} bytes held back until the input closed")
    f = case["f"]
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, f),
                   TOL if f else Fraction(0), what)


def check(case, env):
    drive(env, case, [tuple(e) for e in case["events"]], case["pieces"], case["tail"])


def classify(case):
    at, inside, single = 0, False, False
    for n in case["pieces"]:
        single |= n < 8 and at % 8 and (at % 8) + n < 8
        at += n
        inside |= bool(at % 8) and at < 8 * len(case["events"])
    ev = case["events"]
    big = abs(case["f"]) * (ev[-1][0] - ev[0][0]) > 10 << 34
    labels = []
    if inside:
        labels.append("cut inside an event")
    if single:
        labels.append("piece completing no event")
    if case["tail"]:
        labels.append("ends with a partial event")
    return inside and big, labels


@st.composite
def _trickle(draw):
    n = draw(st.integers(100, 300))
    f = draw(offsets(False).filter(bool))
    # below one unit each, but above ten in total
    unit = (1 << 34) // abs(f)
    return {"n": n, "f": f, "gap": max(1, unit * draw(st.integers(12, 90)) // 100),
            "jitter": draw(st.integers(0, 8)), "base": draw(gen.wide(0, 1 << 53)),
            "legacy": draw(st.booleans()), "group": draw(st.sampled_from([1, 1, 1, 2, 3]))}


def trickle_events(case):
    t, out = case["base"], []
    for i in range(case["n"]):
        out.append((t, 1 + i % 15))
        t += case["gap"] + (i * 7) % (case["jitter"] + 1)
    return out


def check_trickle(case, env):
    ev = trickle_events(case)
    k = 8 * case["group"]
    total = 8 * len(ev)
    drive(env, case, ev, [min(k, total - i) for i in range(0, total, k)])


def classify_trickle(case):
    return True, ["offset positive" if case["f"] > 0 else "offset negative"]


@st.composite
def _bulk(draw):
    n = draw(st.integers(1000, 3500))
    left, out = 8 * n, []
    while left:
        k = draw(st.one_of(
            st.integers(-9, 9).map(lambda d: 8192 + d), st.integers(1, 24),
            st.integers(1, 3).flatmap(lambda m: st.integers(-9, 9).map(lambda d: 8192 * m + d)),
            st.integers(1, 20000)))
        k = min(k, left)
        if len(out) > 40:
            k = left
        out.append(k)
        left -= k
    return {"n": n, "f": draw(offsets(False)), "gap": draw(st.sampled_from([1, 900, 1 << 20, 1 << 38])),
            "jitter": draw(st.integers(0, 8)), "base": draw(gen.wide(0, 1 << 50)),
            "legacy": draw(st.booleans()), "pieces": out}


def check_bulk(case, env):
    drive(env, case, trickle_events(case), case["pieces"])


def classify_bulk(case):
    at, inside, full = 0, False, False
    for k in case["pieces"]:
        full |= 8184 <= k + at % 8 <= 8200
        at += k
        inside |= bool(at % 8)
    return inside, ["piece within 8 bytes of a full buffer"] if full else []


@st.composite
def _slow(draw):
    return {"n": draw(st.integers(600, 12000)), "f": draw(offsets(False)),
            "gap": draw(st.sampled_from([1, 900, 1 << 20, 1 << 36])),
            "jitter": draw(st.integers(0, 8)), "base": draw(gen.wide(0, 1 << 50)),
            "legacy": draw(st.booleans()),
            "portions": draw(st.lists(st.sampled_from([1, 7, 100, 4095, 4096, 5000]),
                                      min_size=1, max_size=5)),
            "pause": draw(st.integers(0, 3)), "file": draw(st.booleans())}


def check_slow(case, env):
    d = env.newdir()
    ev = trickle_events(case)
    with open(os.path.join(d, "in"), "wb") as f:
        f.write(ref.encode_events(ev, "a1", case["legacy"]))
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"] + ["-i", "in"] * case["file"]
    r, w = os.pipe()
    fcntl.fcntl(w, 1031, 4096)      # F_SETPIPE_SZ
    with open(os.path.join(d, "in"), "rb") as f, open(r, "rb", buffering=0) as pipe:
        p = subprocess.Popen([env.data["freqcd"]] + args, cwd=d, env=freqcd.ENVIRON, stdout=w,
                             stdin=subprocess.DEVNULL if case["file"] else f,
                             stderr=subprocess.PIPE)
        os.close(w)
        try:
            out, i = b"", 0
            while True:
                if i < 60:
                    time.sleep(case["pause"] / 1000)
                b = pipe.read(case["portions"][i % len(case["portions"])] if i < 400 else 4096)
                if not b:
                    break
                out += b
                i += 1
            rc, err = p.wait(60), p.stderr.read().decode(errors="replace")
        finally:
            p.kill()
            p.wait()
            p.stderr.close()
    what = f"freqcd {' '.join(args)}, output read in portions of {case['portions']}"
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, case["f"]),
                   TOL if case["f"] else Fraction(0), what)


def classify_slow(case):
    return True, ["input file" if case["file"] else "standard input"]


# -------------------------------------------------------------------- stall

@st.composite
def _stall(draw):
    ts = draw(chronological(min_size=2, max_size=12))
    ps = draw(st.lists(gen.low10(), min_size=len(ts), max_size=len(ts)))
    size = 8 * len(ts)
    return {"events": [[t, p] for t, p in zip(ts, ps)], "f": draw(offsets(False)),
            "legacy": draw(st.booleans()), "freq": draw(st.booleans()),
            "cuts": sorted(draw(st.sets(st.integers(0, size), min_size=1, max_size=2))),
            "pauses": draw(st.lists(st.sampled_from([0.6, 0.6, 0.8, 1.2]), min_size=2, max_size=2)),
            "named_in": draw(st.booleans()), "named_out": draw(st.booleans())}


def check_stall(case, env):
    ev = [tuple(e) for e in case["events"]]
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    s = freqcd.Session(env.data["freqcd"], args, env.newdir(), freq=case["freq"],
                       named_in=case["named_in"], named_out=case["named_out"])
    try:
        at = 0
        for cut, pause in zip(case["cuts"], case["pauses"]):
            s.feed(data[at:cut])
            s.expect(cut // 8 * 8)
            time.sleep(pause)
            at = cut
        s.feed(data[at:])
        s.expect(len(data))
        rc, out, err = s.finish()
    finally:
        s.kill()
    what = f"freqcd {' '.join(args)}, pauses of {case['pauses']} s after {case['cuts']} bytes"
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, case["f"]),
                   TOL if case["f"] else Fraction(0), what)


def classify_stall(case):
    return True, ["frequency channel open"] * case["freq"] + ["pause before the first event"] * (case["cuts"][0] == 0)


PARTS = [
    Part("stall", _stall, check_stall, classify_stall, quick=64, thorough=600, chunk=2),
    Part("pieces", _case, check, classify, quick=2400, thorough=50000, regressions=[
        {"events": [[0, 1], [1 << 40, 1], [1 << 41, 1]], "f": 1 << 20, "legacy": False,
         "tail": 0, "pieces": p, "named_in": False, "named_out": False}
        for p in ([3, 2, 3, 2, 2, 2, 10], [8, 1, 1, 1, 5, 8], [16, 4, 2, 2], [1] * 24)]),
    Part("bulk", _bulk, check_bulk, classify_bulk, quick=240, thorough=6000),
    Part("trickle", _trickle, check_trickle, classify_trickle, quick=120, thorough=2500),
    Part("slow", _slow, check_slow, classify_slow, quick=160, thorough=3000),
]
