"""Rounding to significant digits, and common truncation of arrays."""
from decimal import ROUND_HALF_EVEN, Context, Decimal
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen
from vf.client import Violation
from vf.core import Part

RULE = ("generated numbers of all magnitudes and digit counts: rounding to n significant digits "
        "gives the nearest such number (integers stay integers), to n decimals what Python's own "
        "rounding gives; generated arrays are cut to the shortest one's length and otherwise "
        "unchanged. Non-trivial: the number has more digits than asked for / lengths differ.")


@st.composite
def _round(draw):
    x = draw(st.one_of(
        gen.wide(-10 ** 9, 10 ** 9), gen.wide(-10 ** 15, 10 ** 15),
        st.floats(-1e12, 1e12, allow_nan=False), st.floats(1e-12, 1e-3),
        gen.wide(-10 ** 6, 10 ** 6).map(lambda v: v / 1000)))
    kind = draw(st.sampled_from(["sf", "sf", "dp", "ndigits", None]))
    return {"x": x, "kind": kind,
            "n": draw(st.integers(1, 14)) if kind == "sf" else draw(st.integers(0, 9))}


def check_round(case, env):
    x, kind, n = case["x"], case["kind"], case["n"]
    typ, v = env.sut("xc_round", number=x, kind=kind, digits=n)
    what = f"round({x!r}, {kind}={n})"
    if kind == "sf":
        want = Fraction(Context(prec=n, rounding=ROUND_HALF_EVEN).create_decimal(Decimal(x)))
        if isinstance(x, int) and typ != "int":
            raise Violation(f"{what} = {v!r} of type {typ}")
        if Fraction(v) != want:
            raise Violation(f"{what} = {v!r}, should be {float(want)!r}")
    else:
        want = round(x) if kind is None else round(x, n)
        if v != want or typ != type(want).__name__:
            raise Violation(f"{what} = {v!r}, should be {want!r}")


def classify_round(case):
    return len(str(abs(case["x"])).strip("0.")) > case["n"], [str(case["kind"])]


@st.composite
def _overlap(draw):
    return {"arrays": draw(st.lists(st.lists(gen.wide(-10 ** 9, 10 ** 9), max_size=12),
                                    min_size=1, max_size=4))}


def check_overlap(case, env):
    n, out = env.sut("xc_overlap", arrays=case["arrays"])
    m = min(len(a) for a in case["arrays"])
    want = [a[:m] for a in case["arrays"]]
    if n != m or out != want:
        raise Violation(f"overlap {n} {out}, should be {m} {want}")


PARTS = [Part("round", _round, check_round, classify_round, quick=6000, thorough=60000),
         Part("overlap", _overlap, check_overlap,
              lambda c: (len({len(a) for a in c["arrays"]}) > 1, []), quick=1500, thorough=10000)]
