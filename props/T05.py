"""Detector-pattern selection."""
from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("generated pattern arrays (every 4-bit value, in the integer types the readers produce) "
        "against every pattern, as exact match or bit mask, selecting or removing; the returned "
        "selection and patterns must be the reference's. Non-trivial: at least one event kept "
        "and one dropped. 'large': the same with up to 2^17 events.")


@st.composite
def _case(draw):
    return {"p": draw(st.lists(st.integers(0, 15), max_size=40)),
            "pattern": draw(st.integers(0, 15)), "mask": draw(st.booleans()),
            "invert": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["uint32", "uint64", "int64"]))}


def _want(case):
    return ref.pattern_filter(list(enumerate(case["p"])), case["pattern"], case["mask"],
                              case["invert"])


def check(case, env):
    got = env.sut("ts_pattern_mask", **case)
    want = _want(case)
    if got["len"] != len(case["p"]):
        raise Violation(f"a selection of {got['len']} for {len(case['p'])} events")
    kept = [i for i, m in enumerate(got["mask"]) if m]
    if kept != [i for i, _ in want]:
        raise Violation(f"keeps events {kept}, should keep {[i for i, _ in want]}")
    if ref.values(got["p"]) != [p for _, p in want]:
        raise Violation(f"patterns {got['p']['v']}, should be {[p for _, p in want]}")
    if not got["unchanged"]:
        raise Violation("the caller's pattern array was modified")


def classify(case):
    w = _want(case)
    labels = [f"{'mask' if case['mask'] else 'exact'}/{'remove' if case['invert'] else 'select'}"]
    if case["mask"] and any(p != case["p"][i] for i, p in w):
        labels.append("pattern changed")
    return 0 < len(w) < len(case["p"]), labels


@st.composite
def _large(draw):
    return dict(draw(_case()), p=[], bulk=draw(gen.bulk(17)),
                low=draw(st.sampled_from([1, 3, 7, 15])))


def check_large(case, env):
    c = {k: v for k, v in case.items() if k not in ("bulk", "low")}
    check(dict(c, p=[v % (case["low"] + 1) for v in gen.bulk_low10(case["bulk"])]), env)


PARTS = [Part("pattern", _case, check, classify, quick=24000, thorough=400000),
         Part("large", _large, check_large, lambda c: (
             True, [f"2^{c['bulk']['n'].bit_length() - 1} events or more"]), quick=64,
             thorough=800, chunk=10)]
