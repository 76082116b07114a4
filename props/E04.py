"""T4 epoch files decode to the indices a conforming writer packed."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.E01 import epochs
from props.E02 import classify_large, expand, stream

RULE = ("index streams are packed by an independent bit-level writer (every width from 2 to 31 "
        "bits, short and 32-bit index steps, aligned and unaligned ends) and read back; indices "
        "and bases must be exact. 'large': 255 to 33 000 entries. Non-trivial: at least two entries, one of them in the long form.")


@st.composite
def _case(draw):
    order, base_bits, diffs, bases, force = draw(stream())
    return {"epoch": draw(epochs()), "order": order, "base_bits": base_bits,
            "deltas": [max(0, d - 2) for d in diffs], "bases": bases, "force": force,
            "tag": draw(st.sampled_from([0x104, 4])), "length": draw(st.sampled_from([0, 1, 1])),
            "pad": draw(st.sampled_from([0, 0, 0, 1]))}


def encode(case, **kw):
    n = len(case["deltas"])
    return ref.encode_T4(case["epoch"], case["deltas"], case["bases"], case["order"],
                         case["base_bits"], case["force"], n if case["length"] else 0,
                         case["tag"], pad=case["pad"], **kw)


def indices(case):
    at, out = 0, []
    for d in case["deltas"]:
        at += d
        out.append(at)
    return out


def check(case, env):
    path = os.path.join(env.newdir(), f"{case['epoch']:x}")
    with open(path, "wb") as f:
        f.write(encode(case))
    got = env.sut("ep_read_T4", path=path)
    if ref.values(got["i"]) != indices(case):
        raise Violation(f"indices {str(got['i']['v'])[:400]}, should be {str(indices(case))[:400]}")
    if ref.values(got["p"]) != case["bases"]:
        raise Violation(f"bases {got['p']['v']}, should be {case['bases']}")


def classify(case):
    long = [f or not d + 2 < 1 << case["order"] for d, f in zip(case["deltas"], case["force"])]
    return len(long) >= 2 and any(long), [
        "no entries" if not long else "all long" if all(long) else
        "all short" if not any(long) else "mixed"]


@st.composite
def _large(draw):
    c = draw(_case())
    return dict(c, deltas=[], bases=[], force=[], bulk=draw(gen.epoch_bulk()),
                order=draw(st.integers(3, 31)), room=draw(st.sampled_from([20, 26, 32])))


def check_large(case, env):
    c = expand(case, 1 << case["room"])
    check(dict(c, deltas=c["diffs"]), env)


PARTS = [Part("decode", _case, check, classify, quick=14000, thorough=200000),
         Part("large", _large, check_large, classify_large, quick=48, thorough=600, chunk=10)]
