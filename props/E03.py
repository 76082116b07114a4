"""T3 epoch files: coincidence matrix, discarded entries and error ratio."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.E01 import epochs

RULE = ("generated entry sequences (single, multiple and missing detections on either side, any "
        "length, so every amount of final padding) are packed as specified and evaluated; the "
        "4x4 counts, the discard counters, the accepted count and the error ratio (3 decimals) "
        "must equal a direct count. 'large': 255 to 65 000 entries. Non-trivial: both accepted and discarded entries.")

ONE = {1: 0, 2: 1, 4: 2, 8: 3}   # V A H D


@st.composite
def _case(draw):
    side = st.one_of(st.sampled_from([1, 2, 4, 8]), st.sampled_from([1, 2, 4, 8]),
                     st.integers(0, 15))
    entry = st.builds(lambda a, b: a << 4 | b, side, side)
    return {"epoch": draw(epochs()), "entries": draw(st.lists(entry, max_size=60)),
            "tag": draw(st.sampled_from([0x103, 3]))}


def want(entries):
    m, g, ok = [0] * 16, [0, 0], 0
    for e in entries:
        a, b = ONE.get(e >> 4), ONE.get(e & 15)
        if a is not None and b is not None:
            m[4 * a + b] += 1
            ok += 1
        g[0] += a is None
        g[1] += b is None
    err = m[0] + m[5] + m[10] + m[15]
    good = m[2] + m[7] + m[8] + m[13]
    q = Fraction(err, err + good) if err + good else None
    return m, g, ok, q


def check(case, env):
    path = os.path.join(env.newdir(), f"{case['epoch']:x}")
    with open(path, "wb") as f:
        f.write(ref.encode_T3(case["epoch"], case["entries"], tag=case["tag"]))
    got = env.sut("ep_read_T3", path=path)
    m, g, ok, q = want(case["entries"])
    if got["matrix"] != m:
        raise Violation(f"coincidences {got['matrix']}, should be {m}")
    if got["garbage"] != g:
        raise Violation(f"discarded {got['garbage']}, should be {g}")
    if got["ok"] != ok:
        raise Violation(f"{got['ok']} entries accepted, should be {ok}")
    if q is None:
        if got["qber"] != 0.5:
            raise Violation(f"error ratio {got['qber']} without any entry to judge by")
    elif abs(Fraction(got["qber"]) - q) > Fraction(5001, 10 ** 7):
        raise Violation(f"error ratio {got['qber']}, should be {float(q):.6f}")
    if got["head"][:3] != [case["tag"], case["epoch"], len(case["entries"])]:
        raise Violation(f"header {got['head']}")


def classify(case):
    m, g, ok, q = want(case["entries"])
    return bool(ok and (g[0] or g[1])), [f"padding {-len(case['entries']) % 4}",
                                         "no ratio" if q is None else "ratio"]


@st.composite
def _large(draw):
    return {"epoch": draw(epochs()), "bulk": draw(gen.bulk(16)), "tag": 0x103,
            "kind": draw(st.sampled_from(["all", "single", "errors"]))}


def check_large(case, env):
    values = {"all": range(256), "single": [a << 4 | b for a in ONE for b in ONE],
              "errors": [0x11, 0x22, 0x14, 0x41, 0x28]}[case["kind"]]
    values = list(values)
    check(dict(case, entries=[values[x % len(values)] for x in gen.bulk_low10(case["bulk"])]), env)


def classify_large(case):
    return True, [f"2^{case['bulk']['n'].bit_length() - 1} entries or more"]


PARTS = [Part("evaluate", _case, check, classify, quick=12000, thorough=200000),
         Part("large", _large, check_large, classify_large, quick=80, thorough=1200, chunk=10)]
