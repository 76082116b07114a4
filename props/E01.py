"""T1 epoch files: written as specified, read back exactly."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("'write': generated events (every position within an epoch, any 32-bit epoch, in plain "
        "integers or any numpy integer type, detectors one by one or one for all) are written and "
        "the file compared with the specified bytes and name. 'read': generated files, flag bits "
        "included, are read in every unit, with and without fractions and the upper epoch bits, "
        "and every value compared exactly (to the last bit of the 64-bit mantissa where the value "
        "has more). 'large': both with 255 to 33 000 events. Non-trivial: at least two events and an epoch of more than 17 bits.")
ASSUMPTIONS = ["no event is all zeros (that is the end marker of the format)"]


def epochs():
    return st.one_of(
        gen.wide(0, (1 << 32) - 1),
        st.builds(lambda k, d: max(0, (k << 17) + d) & 0xFFFFFFFF,
                  gen.wide(0, 1 << 15), st.integers(-2, 2)),
        st.sampled_from([0, 1, (1 << 17) - 1, 1 << 17, (1 << 32) - 1, 1 << 31, (1 << 31) - 1]))


def in_epoch():
    m = (1 << 37) - 1
    return st.one_of(
        st.integers(0, m), st.integers(0, 40), st.integers(m - 40, m),
        st.integers(0, 37).flatmap(lambda k: st.integers(0, (1 << k) - 1)))


@st.composite
def _write(draw):
    n = draw(st.integers(0, 20))
    t = draw(st.lists(in_epoch(), min_size=n, max_size=n))
    if draw(st.booleans()):
        t.sort()
    if draw(st.booleans()):
        d = draw(st.integers(1, 15))
    else:
        d = draw(st.lists(st.integers(0, 15), min_size=n, max_size=n))
    return {"epoch": draw(epochs()), "t": t, "d": d,
            "tcont": draw(st.sampled_from(["list", "int64", "uint64", "object"])),
            "dcont": draw(st.sampled_from(["list", "int64", "uint32", "uint8"])),
            "existing": draw(st.booleans()), "wide": draw(st.sampled_from([0, 0, 0, 1, 5]))}


def _dets(case):
    return case["d"] if isinstance(case["d"], list) else [case["d"]] * len(case["t"])


def check_write(case, env):
    d = env.newdir()
    e = case["epoch"]
    if case["existing"]:
        with open(os.path.join(d, f"{e:x}"), "wb") as f:
            f.write(b"\xff" * 900)
    base = (e & 0x1FFFF) << 37
    ev = [(base + t, p) for t, p in zip(case["t"], _dets(case))]
    got = env.sut("ep_write_T1", directory=d, epoch=e + (case["wide"] << 32), t=case["t"],
                  d=case["d"], tcont=case["tcont"], dcont=case["dcont"])
    if got["name"] != f"{e:x}" or os.listdir(d) != [f"{e:x}"]:
        raise Violation(f"epoch {e:#x} written to {got['name']!r}; directory: {os.listdir(d)}")
    want = ref.encode_T1(e, ev)
    if got["bytes"] != want:
        at = next((i for i, (a, b) in enumerate(zip(got["bytes"], want)) if a != b),
                  min(len(want), len(got["bytes"])))
        raise Violation(f"file differs from the specified one at byte {at} "
                        f"({len(got['bytes'])} bytes, {len(want)} specified)")


def classify_write(case):
    return (len(case["t"]) >= 2 and case["epoch"] >= 1 << 17,
            [case["tcont"], "one detector" if not isinstance(case["d"], list) else "per event"])


@st.composite
def _mismatch(draw):
    n = draw(st.integers(0, 6))
    m = draw(st.integers(0, 8).filter(lambda x: x != n))
    return {"epoch": draw(epochs()),
            "t": draw(st.lists(in_epoch(), min_size=n, max_size=n)),
            "d": draw(st.lists(st.integers(0, 15), min_size=m, max_size=m))}


def check_mismatch(case, env):
    d = env.newdir()
    r = env.try_sut("ep_write_T1", directory=d, epoch=case["epoch"], t=case["t"], d=case["d"],
                    tcont="list", dcont="list")
    if r[0] == "ok":
        raise Violation(f"{len(case['t'])} timestamps with {len(case['d'])} detectors accepted")


@st.composite
def _read(draw):
    n = draw(st.integers(0, 20))
    t = draw(st.lists(in_epoch(), min_size=n, max_size=n))
    e = draw(epochs())
    p = draw(st.lists(gen.low10(), min_size=n, max_size=n))
    low = (e & 0x1FFFF) << 37
    ev = [[low + a, b or 1 if low + a == 0 else b] for a, b in zip(t, p)]
    return {"epoch": e, "events": ev, "full": draw(st.booleans()),
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "tag": draw(st.sampled_from([0x101, 1])), "length": draw(st.sampled_from([0, 1])),
            "as_path": draw(st.booleans())}


def compare_times(got, want, fractional, what):
    vals = ref.values(got)
    if len(vals) != len(want):
        raise Violation(f"{what}: {len(vals)} events, {len(want)} expected")
    for i, (a, b) in enumerate(zip(vals, want)):
        if a is None:
            raise Violation(f"{what}: event {i} is not a number")
        if fractional:
            bits = max(0, (Fraction(b).numerator).bit_length() - 64)
            tol = 0 if bits == 0 else b / (1 << 63)
            if abs(a - b) > tol:
                raise Violation(f"{what}: event {i} at {float(a)!r}, should be {float(b)!r} "
                                f"(off by {float(a - b)!r})")
        elif a != b:
            raise Violation(f"{what}: event {i} at {a}, should be {b}")
    if want and got["kind"] != ("float" if fractional else "int"):
        raise Violation(f"{what}: readings of kind {got['kind']}")


def check_read(case, env):
    path = os.path.join(env.newdir(), f"{case['epoch']:x}")
    ev = case["events"]
    with open(path, "wb") as f:
        f.write(ref.encode_T1(case["epoch"], ev, len(ev) if case["length"] else 0, case["tag"]))
    got = env.sut("ep_read", kind="T1", path=path, full=case["full"], res=case["res"],
                  fractional=case["fractional"], as_path=case["as_path"])
    want = ref.epoch_times(case["epoch"], [e[0] for e in ev], 0, case["full"], case["res"],
                           case["fractional"])
    compare_times(got["t"], want, case["fractional"],
                  f"{case['res']}{' fractional' * case['fractional']}{' full' * case['full']}")
    if ref.values(got["p"]) != [e[1] & 15 for e in ev]:
        raise Violation(f"detector patterns {got['p']['v']}, should be {[e[1] & 15 for e in ev]}")


def classify_read(case):
    return (len(case["events"]) >= 2 and case["epoch"] >= 1 << 17,
            [f"{case['res']}{'/fractional' * case['fractional']}{'/full' * case['full']}"])


@st.composite
def _large(draw):
    return dict(draw(_read()), events=[], bulk=draw(gen.epoch_bulk()))


def check_large(case, env):
    low = (case["epoch"] & 0x1FFFF) << 37
    ev = [[low + t, p or 1] for t, p in zip(gen.bulk_ts(case["bulk"], 1 << 37),
                                            gen.bulk_low10(case["bulk"]))]
    check_read(dict(case, events=ev), env)
    d = env.newdir()
    e = case["epoch"]
    got = env.sut("ep_write_T1", directory=d, epoch=e, t=[t - low for t, _ in ev],
                  d=[p & 15 for _, p in ev], tcont="int64", dcont="list")
    if got["bytes"] != ref.encode_T1(e, [(t, p & 15) for t, p in ev]):
        raise Violation(f"writing {len(ev)} events: the file differs from the specified one")


def classify_large(case):
    return True, [f"2^{case['bulk']['n'].bit_length() - 1} events or more"]


PARTS = [
    Part("write", _write, check_write, classify_write, quick=6000, thorough=100000, regressions=[
        {"epoch": (1 << 32) - 1, "t": [0, (1 << 37) - 1], "d": 1, "tcont": c, "dcont": "list",
         "existing": True, "wide": 0} for c in ("list", "int64", "uint64", "object")]),
    Part("mismatch", _mismatch, check_mismatch, lambda c: (True, []), quick=200, thorough=2000),
    Part("read", _read, check_read, classify_read, quick=10000, thorough=150000),
    Part("large", _large, check_large, classify_large, quick=48, thorough=600, chunk=10),
]
