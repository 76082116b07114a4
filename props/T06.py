"""Time-window selection."""
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("chronological event times in every container and unit the readers produce, against "
        "windows open or closed on either side, including empty and reversed ones and bounds "
        "exactly on events; an event is kept iff start <= time <= end. Events closer to a bound "
        "than double precision resolves are not judged. Non-trivial: at least one event kept and "
        "one dropped. 'large': the same with up to 2^16 events, non-trivial with a bound.")
ASSUMPTIONS = ["event times are in chronological order, as the file specification says"]

NS256 = 256 * 10 ** 9


@st.composite
def windows(draw, ts, exact):
    """(start, end) in seconds, or None.  exact: multiples of 1/512 s only."""
    top = ref.TS_MAX // (5 ** 9 * 256)
    near = [t // (5 ** 9 * 256) for t in ts] or [0]

    def bound():
        base = st.one_of(
            st.none(),
            st.builds(lambda m, d: (m + d) / 512, st.sampled_from(near), st.integers(-2, 2)),
            st.builds(lambda m: m / 512, st.integers(-10, top + 10)))
        if exact:
            return base
        return st.one_of(base, st.sampled_from([float("inf"), float("-inf"), 0, -0.0]),
                         st.builds(lambda t: t / NS256, st.sampled_from(list(ts) or [0])),
                         st.floats(-1, 80000, allow_nan=False))
    return [draw(bound()), draw(bound())]


@st.composite
def window_events(draw, max_size=30, snap=True):
    """Chronological events, many of them on or next to multiples of 1/512 s."""
    base = draw(gen.sorted_ts(max_size=max_size))
    out = []
    for t in base:
        k = draw(st.integers(0, 3))
        if k == 0:
            t = t // (5 ** 9 * 256) * (5 ** 9 * 256) + draw(st.integers(-1, 1)) * draw(
                st.sampled_from([1, 2, 256]))
        t = min(max(t, 0), ref.TS_MAX)
        if snap and t >= 1 << 53:
            t &= ~1
        out.append(t)
    return sorted(out)


@st.composite
def _case(draw):
    res = draw(st.sampled_from(gen.RES))
    tcont = draw(st.sampled_from(["longdouble", "uint64", "float64", "int64", "list"]))
    ts = draw(window_events(snap=False))
    if tcont in ("uint64", "int64", "list"):
        step = 1 << ref.SHIFT[res]
        ts = [t - t % step for t in ts]
    elif tcont == "float64":
        ts = sorted(t & ((1 << 53) - 1) for t in ts)
    w = draw(windows(ts, False))
    return {"t": ts, "start": w[0], "end": w[1], "res": res, "tcont": tcont}


def judge(t, bound, side):
    """True/False: inside the bound; None: too close to say."""
    if bound is None:
        return True
    if bound in (float("inf"), float("-inf")):
        return (bound < 0) == (side > 0)
    b = Fraction(bound) * NS256
    gap = (t - b) * side
    exact = Fraction(bound) * 512
    if exact.denominator == 1 and t < 1 << 53 and b < 1 << 53:
        return gap >= 0
    if abs(gap) <= (abs(t) + abs(b)) / (1 << 50) + Fraction(1, 1000):
        return None
    return gap >= 0


def check(case, env):
    ts = case["t"]
    got = env.sut("ts_timing_mask", **case)
    if len(got["mask"]) != len(ts):
        raise Violation(f"a selection of {len(got['mask'])} for {len(ts)} events")
    for i, (t, m) in enumerate(zip(ts, got["mask"])):
        a, b = judge(t, case["start"], 1), judge(t, case["end"], -1)
        if a is False or b is False:
            want = False
        elif a is None or b is None:
            continue
        else:
            want = True
        if m != want:
            raise Violation(f"event {i} at {t}/256 ns {'kept' if m else 'dropped'} for window "
                            f"[{case['start']}, {case['end']}] s ({case['res']}, {case['tcont']})")
    if not got["unchanged"]:
        raise Violation("the caller's time array was modified")


def classify(case):
    s, e = case["start"], case["end"]
    flags = [judge(t, s, 1) and judge(t, e, -1) for t in case["t"]]
    labels = [f"{'open' if s is None else 'bounded'}/{'open' if e is None else 'bounded'}",
              f"{case['res']}/{case['tcont']}"]
    if any(b is not None and abs(b) != float("inf") and Fraction(b) * NS256 in case["t"]
           for b in (s, e)):
        labels.append("event exactly on a bound")
    if s is not None and e is not None and s > e:
        labels.append("reversed window")
    return any(f is True for f in flags) and any(f is False for f in flags), labels


@st.composite
def _large(draw):
    bound = st.one_of(st.none(), st.tuples(st.floats(0, 1), st.integers(-2, 2),
                                           st.booleans()).map(list))
    return {"bulk": draw(gen.bulk(16)), "start": draw(bound), "end": draw(bound),
            "res": draw(st.sampled_from(gen.RES)), "room": draw(st.integers(44, 53)),
            "tcont": draw(st.sampled_from(["longdouble", "uint64", "float64", "int64"]))}


def expand(case):
    step = 1 << ref.SHIFT[case["res"]]
    ts = [t - t % step for t in gen.bulk_ts(case["bulk"], 1 << case["room"])]
    def bound(b):
        if b is None:
            return None
        t = ts[min(len(ts) - 1, int(b[0] * len(ts)))]
        return (t // (5 ** 9 * 256) + b[1]) / 512 if b[2] else t / NS256 + b[1] * 1e-6
    return {"t": ts, "start": bound(case["start"]), "end": bound(case["end"]),
            "res": case["res"], "tcont": case["tcont"]}


def check_large(case, env):
    check(expand(case), env)


def classify_large(case):
    return case["start"] is not None or case["end"] is not None, [
        f"2^{case['bulk']['n'].bit_length() - 1} events or more", case["tcont"]]


PARTS = [Part("window", _case, check, classify, quick=12000, thorough=200000),
         Part("large", _large, check_large, classify_large, quick=48, thorough=800, chunk=10)]
