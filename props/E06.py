"""Epoch directories: overlap, and one continuous time axis across epochs."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.E01 import epochs, in_epoch

RULE = ("'overlap': generated sets of epoch names on two sides, runs and gaps included, with and "
        "without a required first epoch; the answer must be the smallest common epoch and the "
        "length of the common run from there. 'timeline': directories of generated T1 and T2 "
        "files over consecutive epochs, many across a wrap of the 17 epoch bits stored with each "
        "event; the two time axes read back must differ from the true absolute times by one and "
        "the same constant. Non-trivial: a common run of two or more / at least two epochs with "
        "events.")


def start_epochs():
    return st.one_of(
        epochs(),
        st.builds(lambda k, d: max(0, (k << 17) - d), gen.wide(1, (1 << 15) - 1),
                  st.integers(0, 6)))


@st.composite
def _overlap(draw):
    base = min(draw(start_epochs()), (1 << 32) - 640)
    if draw(st.integers(0, 9)) == 0:    # a long run
        n = draw(st.integers(20, 300))
        gap = draw(st.sets(st.integers(0, n), max_size=2))
        both = [base + i for i in range(n)]
        return {"a": [e for e in both if e - base not in gap], "b": both,
                "first": draw(st.one_of(st.none(), st.integers(0, n + 1).map(lambda i: base + i))),
                "length": draw(st.booleans())}
    if draw(st.integers(0, 5)) == 0:    # epochs alike in their lower bits
        bits = draw(st.sampled_from([8, 12, 16, 17, 20, 24, 28, 31]))
        far = st.builds(lambda i, k: (base + i + (k << bits)) % (1 << 32),
                        st.integers(0, 4), st.integers(0, 1))
        one, two = draw(st.sets(far, max_size=8)), draw(st.sets(far, max_size=8))
        return {"a": sorted(one), "b": sorted(two),
                "first": draw(st.one_of(st.none(), st.integers(0, 16).map(lambda i: base + i))),
                "length": draw(st.booleans())}
    one = draw(st.sets(st.integers(0, 14), max_size=12))
    two = draw(st.one_of(st.sets(st.integers(0, 14), max_size=12),
                         st.sets(st.integers(0, 14), max_size=3).map(lambda s: one ^ s)))
    return {"a": sorted(base + i for i in one), "b": sorted(base + i for i in two),
            "first": draw(st.one_of(st.none(), st.integers(0, 16).map(lambda i: base + i))),
            "length": draw(st.booleans())}


def want_overlap(case):
    common = {e for e in set(case["a"]) & set(case["b"])
              if case["first"] is None or e >= case["first"]}
    if not common:
        return None, 0
    lo, n = min(common), 1
    while lo + n in common:
        n += 1
    return lo, n


def check_overlap(case, env):
    d = env.newdir()
    for side in "ab":
        os.mkdir(os.path.join(d, side))
        for e in case[side]:
            open(os.path.join(d, side, f"{e:x}"), "wb").close()
    got = env.sut("ep_overlap", dir1=os.path.join(d, "a"), dir2=os.path.join(d, "b"),
                  first=None if case["first"] is None else f"{case['first']:x}",
                  length=case["length"])
    lo, n = want_overlap(case)
    name = None if lo is None else f"{lo:x}"
    want = [name, n] if case["length"] else name
    if got != want:
        raise Violation(f"{got}, should be {want}")


def classify_overlap(case):
    lo, n = want_overlap(case)
    return n >= 2, ["no overlap" if lo is None else "run of one" if n == 1 else
                    "longer run" if n < 16 else "run of 16 or more",
                    "first epoch given" if case["first"] is not None else "first epoch free"]


@st.composite
def _timeline(draw):
    first = min(draw(start_epochs()), (1 << 32) - 40)
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 24)))
    skip = draw(st.integers(0, 3))
    sides = []
    for _ in range(2):
        per = []
        for _ in range(n):
            t = sorted(draw(st.lists(in_epoch(), min_size=0, max_size=5 if n < 7 else 2)))
            per.append(t)
        sides.append(per)
    return {"first": first, "skip": skip, "T1": sides[0], "T2": sides[1]}


def check_timeline(case, env):
    d = env.newdir()
    offsets = set()
    for kind in ("T1", "T2"):
        sub = os.path.join(d, kind)
        os.mkdir(sub)
        truth = []
        for i, ts in enumerate(case[kind]):
            e = case["first"] + case["skip"] + i
            if kind == "T1":
                data = ref.encode_T1(e, [(((e & 0x1FFFF) << 37) + t, 1) for t in ts])
            else:
                ts = [t >> 5 for t in ts]
                diffs = [b - a for a, b in zip([0] + ts, ts)]
                data = ref.encode_T2(e, diffs, [1] * len(ts), 16, 4, [0] * len(ts))
                ts = [t << 5 for t in ts]
            truth += [(e << 37) + t for t in ts]
            with open(os.path.join(sub, f"{e:x}"), "wb") as f:
                f.write(data)
        got = ref.values(env.sut("ep_timestamps", dirname=sub, kind=kind,
                                 first=f"{case['first']:x}", skip=case["skip"],
                                 num=len(case[kind])))
        if len(got) != len(truth):
            raise Violation(f"{kind}: {len(got)} events read, {len(truth)} in the epochs")
        for i, (g, w) in enumerate(zip(got, truth)):
            off = g - Fraction(w, 256)
            if offsets and abs(off - min(offsets)) > Fraction(1, 4):
                raise Violation(
                    f"{kind} event {i} of epoch {w >> 37:#x} lies {float(off - min(offsets))} ns "
                    f"off the time axis of the events before it (first epoch {case['first']:#x})")
            offsets.add(off)


def classify_timeline(case):
    n = len(case["T1"])
    lo = case["first"] + case["skip"]
    labels = ["crosses a wrap" if lo >> 17 != (lo + n - 1) >> 17 else
              "wrap while skipping" if lo >> 17 != case["first"] >> 17 else "no wrap"]
    return (sum(1 for t in case["T1"] if t) >= 2 and sum(1 for t in case["T2"] if t) >= 2), labels


PARTS = [
    Part("overlap", _overlap, check_overlap, classify_overlap, quick=4000, thorough=60000),
    Part("timeline", _timeline, check_timeline, classify_timeline, quick=3000, thorough=60000,
         regressions=[{"first": (1 << 17) - 1, "skip": s, "T1": [[5], [6], [7]],
                       "T2": [[500], [600], [700]]} for s in (0, 1)]),
]
