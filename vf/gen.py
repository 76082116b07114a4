"""Shared generators."""
import random

from hypothesis import strategies as st

from vf.ref import TS_MAX


def wide(lo, hi):
    """Integers of every magnitude, and of every part of a wide range: st.integers
    takes few from its upper half."""
    step = (hi - lo) >> 6
    if step < 2:
        return st.integers(lo, hi)
    return st.one_of(
        st.integers(lo, hi),
        st.tuples(st.integers(0, 63), st.integers(0, step)).map(lambda v: lo + v[0] * step + v[1]),
        st.integers(0, step).map(lambda v: hi - v))


# Values around every place where a word, mantissa or field boundary sits.
_EDGES = sorted({
    v for k in (0, 1, 5, 8, 10, 21, 22, 23, 31, 32, 33, 37, 42, 45, 48, 52, 53, 54)
    for v in ((1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1) if 0 <= v <= TS_MAX
} | {TS_MAX, TS_MAX - 1})


def raw_ts():
    """One 54-bit raw timestamp; every magnitude and every boundary."""
    return st.one_of(
        wide(0, TS_MAX),
        st.sampled_from(_EDGES),
        st.integers(0, 54).flatmap(lambda k: st.integers(0, max(0, (1 << k) - 1))),
        wide(1 << 53, TS_MAX),
    )


def low10(flags=True):
    """Detector pattern, with or without the six upper flag bits."""
    p = st.integers(0, 15)
    if not flags:
        return p
    return st.one_of(p, st.integers(0, 1023))


@st.composite
def sorted_ts(draw, max_size=40, min_size=0, step=1):
    """Chronological timestamps: a base plus gaps of very different sizes."""
    n = draw(st.integers(min_size, max_size))
    if n == 0:
        return []
    base = draw(st.one_of(st.just(0), raw_ts()))
    gap = st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 10_000),
                    st.integers(0, 1 << 30), wide(0, 1 << 40))
    out = [base]
    for _ in range(n - 1):
        out.append(out[-1] + draw(gap))
    if out[-1] > TS_MAX:
        shift = out[-1] - TS_MAX
        out = [max(0, v - shift) for v in out]
    if step > 1:
        out = [v - v % step for v in out]
    return out


@st.composite
def events(draw, max_size=40, min_size=0, flags=True, in_order=None):
    """[[timestamp, low10], ...]"""
    if in_order is None:
        in_order = draw(st.booleans())
    if in_order:
        ts = draw(sorted_ts(max_size=max_size, min_size=min_size))
    else:
        ts = draw(st.lists(raw_ts(), min_size=min_size, max_size=max_size))
    ps = draw(st.lists(low10(flags), min_size=len(ts), max_size=len(ts)))
    return [[t, p] for t, p in zip(ts, ps)]


FORMATS = [("a0", None), ("a1", False), ("a1", True), ("a1", None), ("a2", None),
           ("a0", True), ("a2", True), ("a2", False), ("a0", False)]
RES = ["NS1", "PS125", "PS4"]


def fmt():
    """(format, legacy); a0 and a2 accept 'legacy' for parity and ignore it."""
    return st.sampled_from(FORMATS)


# ------------------------------------------------- many events from a few numbers

@st.composite
def bulk(draw, top=17, low=8):
    """A size around a power of two, and a seed: expanded when the case is checked."""
    k = draw(st.integers(low, top))
    n = (1 << k) + draw(st.sampled_from([-1, 0, 1, 1, 7, 1234]))
    return {"n": n, "seed": draw(st.integers(0, (1 << 32) - 1))}


def epoch_bulk():
    """Mostly moderate; now and then more events than 16 bits can count."""
    return st.integers(0, 5).flatmap(lambda k: bulk(17, 16) if k == 0 else bulk(15))


def bulk_ts(spec, room=TS_MAX + 1):
    """Chronological times below 'room', gaps of mixed sizes."""
    r = random.Random(spec["seed"])
    n = spec["n"]
    scale = room // (2 * n)
    gaps = [r.choice((0, 1, 2, 3)) if r.random() < 0.2 else
            int(scale * r.random() ** r.choice((1, 4, 16))) for _ in range(n)]
    at = r.randrange(max(1, room - sum(gaps))) if r.random() < 0.7 else 0
    out = []
    for g in gaps:
        at += g
        out.append(min(at, room - 1))
    return out


def bulk_low10(spec, top=1023):
    r = random.Random(spec["seed"] + 1)
    return [r.randrange(top + 1) for _ in range(spec["n"])]


def bulk_events(spec, top=1023):
    return list(map(list, zip(bulk_ts(spec), bulk_low10(spec, top))))


def style(fmt):
    """How a text file is laid out; binary files have no choice."""
    if fmt == "a1":
        return st.none()
    return st.sampled_from([None, None, "capitals", "open end"])
