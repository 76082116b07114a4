"""Helper scripts: pair counting, and artificially detuned data."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("'g2': generated time lists of two detectors, window and bin width: every pair inside the "
        "window with a delay below 10 ms is counted once, in the bin of its delay, later pairs are "
        "not. 'detune': a generated two-channel event file: channel 1 comes out unchanged and each "
        "of the eight detuned files holds exactly channel 4's events, stretched about the first "
        "event by its ratio within one unit. Non-trivial: five pairs / three events on channel 4.")
ASSUMPTIONS = ["g2: whether pairs with the window's last reference event beyond 10 ms count is left open"]


@st.composite
def _g2(draw):
    start = draw(gen.wide(0, 1 << 40))
    scale = draw(st.sampled_from([10 ** 3, 10 ** 6, 10 ** 7, 3 * 10 ** 7, 1 << 27, 1 << 28]))
    near = draw(st.booleans())
    a = sorted(draw(st.lists(st.integers(0, scale), min_size=1, max_size=15)))
    b = sorted(draw(st.lists(st.one_of(
        st.integers(0, scale), st.sampled_from(a).flatmap(
            lambda t: st.one_of(st.integers(-50, 50), st.sampled_from([-1, 0, 1]).map(
                lambda d: 10 ** 7 + d)).map(lambda d: max(0, t + d)))),
        min_size=1, max_size=15)))
    # anchored on the window itself: its start, its end, and their neighbours
    edges = [d for d in draw(st.lists(st.sampled_from([-1, 0, 1, 2]), max_size=3))]
    ends = [(1 << 27) + d for d in draw(st.lists(st.sampled_from([-2, -1, 0, 1]), max_size=3))]
    side = draw(st.booleans())
    off = 0 if near else 1
    b = sorted(b + [max(0, t - off) for t in edges + ends])
    if side:    # reference events within reach of the window's end
        a = sorted(a + [max(0, (1 << 27) - off - draw(st.sampled_from([-1, 0, 1, 5, 10 ** 7 - 1])))
                        for _ in range(2)])
    return {"a": [start + t for t in a], "b": [start + t for t in b],
            "start": start if near else start - 1, "width": draw(st.sampled_from([1, 2, 16, 50]))}


def check_g2(case, env):
    got = env.sut("g2_pairs", a=case["a"], b=case["b"], start=case["start"], width=case["width"])
    n, Ta = got["n"], got["Ta"]
    lo, hi = case["start"], case["start"] + Ta
    A = [t for t in case["a"] if lo < t <= hi]
    B = [t for t in case["b"] if lo < t <= hi]
    sure, open_ = {}, {}
    for t in B:
        for i, s in enumerate(A):
            k = (t - s) // case["width"] % n
            if t - s < 10 ** 7:
                sure[k] = sure.get(k, 0) + 1
            elif i == len(A) - 1:
                open_[k] = open_.get(k, 0) + 1
    have = dict(map(tuple, got["bins"]))
    for k in set(have) | set(sure):
        if not sure.get(k, 0) <= have.get(k, 0) <= sure.get(k, 0) + open_.get(k, 0):
            raise Violation(f"bin {k} holds {have.get(k, 0)} pairs, should hold {sure.get(k, 0)}")


def classify_g2(case):
    return len(case["a"]) * len(case["b"]) >= 5, []


@st.composite
def _detune(draw):
    base = draw(gen.wide(0, 1 << 50))
    n = draw(st.integers(2, 14))
    scale = draw(st.sampled_from([20, 36, 44, 48]))
    gaps = draw(st.lists(st.integers(0, 1 << scale), min_size=n, max_size=n))
    ts, t = [], base
    for g in gaps:
        ts.append(t)
        t += g
    ps = draw(st.lists(st.sampled_from([1, 8, 8, 2, 9]), min_size=n, max_size=n))
    return {"events": [[t, p] for t, p in zip(ts, ps)]}


NAMES = {f"c4e{k}.dat": Fraction(1, 10 ** k) for k in range(3, 11)}


def check_detune(case, env):
    d = env.newdir()
    work = os.path.join(d, "Clock-sync", "20221007_freqdetuneg2")
    os.makedirs(work)
    ev = [tuple(e) for e in case["events"]]
    source = ref.encode_events(ev, "a1", True)
    with open(os.path.join(work, "singletimestampnodelay.a1.dat"), "wb") as f:
        f.write(source)
    env.sut("run_script", path_in_package="generate_freqdetuneg2.py", cwd=d)
    with open(os.path.join(work, "c1_a2.dat"), "rb") as f:
        data = f.read()
    one = [e for e in ev if e[1] == 1]
    if data != ref.encode_events(one, "a2", True):
        raise Violation(f"channel 1: {data[:80]!r}, should be the events {one[:4]}")
    four = [e for e in ev if e[1] == 8]
    for name, ratio in NAMES.items():
        with open(os.path.join(work, name), "rb") as f:
            data = f.read()
        got = ref.decode_events(data, "a1", True)
        if len(got) != len(four):
            raise Violation(f"{name}: {len(got)} events, channel 4 has {len(four)}")
        for (g, q), (t, p) in zip(got, four):
            want = (t - ev[0][0]) * (1 + ratio) + ev[0][0]
            if q != p or abs(g - want) > Fraction(3, 2):
                raise Violation(f"{name}: event at {t} pattern {p} became {g} pattern {q}, "
                                f"should be at {float(want):.1f}")
    with open(os.path.join(work, "singletimestampnodelay.a1.dat"), "rb") as f:
        if f.read() != source:
            raise Violation("the source file was modified")


def classify_detune(case):
    return sum(p == 8 for _, p in case["events"]) >= 3, []


PARTS = [Part("g2", _g2, check_g2, classify_g2, quick=3000, thorough=40000),
         Part("detune", _detune, check_detune, classify_detune, quick=400, thorough=6000)]
