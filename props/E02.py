"""T2 epoch files decode to the events a conforming writer packed."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.E01 import compare_times, epochs

RULE = ("event streams are packed by an independent bit-level writer (every time-difference width "
        "from 2 to 31 bits, every base width, short and 32-bit differences, differences of 0 and 1, "
        "word-aligned and unaligned ends) and read in every unit, with and without fractions and "
        "the upper epoch bits; every reading must be exact. 'large': the same with 255 to 33 000 events. Non-trivial: at least two events, one "
        "of them in the long form.")


@st.composite
def stream(draw, max_size=24, base_min=1):
    order = draw(st.one_of(st.integers(2, 31), st.integers(2, 12)))
    base_bits = draw(st.sampled_from([b for b in (base_min, 1, 2, 3, 4, 4, 4, 8)]))
    n = draw(st.integers(0, max_size))
    top = (1 << order) - 1
    diffs = draw(st.lists(st.one_of(
        st.integers(0, 3), st.integers(max(0, top - 2), top + 2),
        st.integers(2, max(2, top)), gen.wide(0, (1 << 32) - 1),
        gen.wide(0, 1 << 27)), min_size=n, max_size=n))
    bases = draw(st.lists(st.integers(0, (1 << base_bits) - 1), min_size=n, max_size=n))
    force = draw(st.one_of(st.just([0] * n),
                           st.lists(st.integers(0, 1), min_size=n, max_size=n)))
    return order, base_bits, diffs, bases, force


@st.composite
def _case(draw):
    order, base_bits, diffs, bases, force = draw(stream())
    # an epoch lasts 2^32 units: reduce whatever would leave it
    at, fit = 0, []
    for d in diffs:
        for k in (32, 26, 16, 8, 2, 0):
            if at + d % (1 << k) < 1 << 32:
                d %= 1 << k
                break
        at += d
        fit.append(d)
    diffs = fit
    return {"epoch": draw(epochs()), "order": order, "base_bits": base_bits, "diffs": diffs,
            "bases": bases, "force": force, "full": draw(st.booleans()),
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "tag": draw(st.sampled_from([0x102, 2])), "length": draw(st.sampled_from([0, 1, 1])),
            "pad": draw(st.sampled_from([0, 0, 0, 1])), "as_path": draw(st.booleans())}


def encode(case, **kw):
    n = len(case["diffs"])
    return ref.encode_T2(case["epoch"], case["diffs"], case["bases"], case["order"],
                         case["base_bits"], case["force"], n if case["length"] else 0,
                         case["tag"], pad=case["pad"], **kw)


def raw(case):
    at, out = (case["epoch"] & 0x1FFFF) << 32, []
    for d in case["diffs"]:
        at += d
        out.append(at)
    return out


def check(case, env):
    path = os.path.join(env.newdir(), f"{case['epoch']:x}")
    with open(path, "wb") as f:
        f.write(encode(case))
    got = env.sut("ep_read", kind="T2", path=path, full=case["full"], res=case["res"],
                  fractional=case["fractional"], as_path=case["as_path"])
    want = ref.epoch_times(case["epoch"], raw(case), 5, case["full"], case["res"],
                           case["fractional"])
    compare_times(got["t"], want, case["fractional"],
                  f"{case['res']}{' fractional' * case['fractional']}{' full' * case['full']}")
    if ref.values(got["p"]) != case["bases"]:
        raise Violation(f"detector patterns {got['p']['v']}, should be {case['bases']}")


def classify(case):
    long = [f or not 2 <= d < 1 << case["order"] for d, f in zip(case["diffs"], case["force"])]
    labels = [f"{case['res']}{'/fractional' * case['fractional']}{'/full' * case['full']}"]
    labels.append("no events" if not long else "all long" if all(long) else
                  "all short" if not any(long) else "mixed")
    return len(long) >= 2 and any(long), labels


@st.composite
def _large(draw):
    c = draw(_case())
    return dict(c, diffs=[], bases=[], force=[], bulk=draw(gen.epoch_bulk()),
                order=draw(st.integers(8, 31)))


def expand(case, room=1 << 32):
    """Differences mostly in the short form, whatever its width."""
    ts = gen.bulk_ts(case["bulk"], room)
    diffs = [b - a for a, b in zip([0] + ts, ts)]
    top = (1 << case["base_bits"]) - 1
    return dict(case, diffs=diffs, bases=gen.bulk_low10(case["bulk"], top), force=[0] * len(diffs))


def check_large(case, env):
    check(expand(case), env)


def classify_large(case):
    return True, [f"2^{case['bulk']['n'].bit_length() - 1} events or more"]


ASSUMPTIONS = ["the events of an epoch lie within the epoch (2^32 units)"]
PARTS = [
    Part("decode", _case, check, classify, quick=16000, thorough=250000, regressions=[
        {"epoch": 0xBA0A0000, "order": 7, "base_bits": 4, "diffs": [5, 1 << 20], "bases": [1, 2],
         "force": [0, 0], "full": full, "res": res, "fractional": fr, "tag": 0x102, "length": 1,
         "pad": 0, "as_path": False}
        for full in (False, True) for res in gen.RES for fr in (False, True)]),
    Part("large", _large, check_large, classify_large, quick=48, thorough=600, chunk=10),
]
