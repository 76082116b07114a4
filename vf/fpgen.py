"""Generated fpfind scenarios that are solvable with a wide margin, and the oracle."""
import functools
import math
import re
from fractions import Fraction

from hypothesis import strategies as st
from scipy.stats import poisson

from vf import gen
from vf.client import Violation

MAX_DF = 2.0 ** -13
MAX_DT = 1e8


@functools.lru_cache(maxsize=None)
def noise_max(lam, bins):
    """A bin count that noise reaches with probability below 1e-6."""
    return float(poisson.isf(1e-6 / bins, lam)) + 1


def density(q, na, nb, w, overlap):
    """Pairs per window for a peak at least twice above all noise; None if hopeless."""
    bins = 1 << q
    for N in (40, 60, 80, 120, 160, 240, 320, 480, 640, 960, 1280, 1920, 2560):
        lam = round(N * (1 + na) * N * (1 + nb) / bins, 3)
        peak = N * min(overlap, 0.65) / (2 * (1 + w))
        if peak >= 2.2 * noise_max(lam, bins) + 3 and peak >= 14 * math.sqrt(lam):
            return N
    return None


@st.composite
def scenario(draw, big=True, skip=True, max_q=16, dt_frac=0.45, rs=None, kmax=3):
    q = draw(st.integers(14, max_q))
    if rs is None:
        rs = [1, 2, 4, 8, 16, 16, 32, 100, 256, 512]
    R = draw(st.sampled_from(rs))
    if big and draw(st.integers(0, 7)) == 0:
        q, R = draw(st.sampled_from([(17, 16), (18, 16), (17, 512), (16, 1000), (18, 300)]))
    r = draw(st.sampled_from([x for x in (1, 1, 1, 2, 3, 4, 10) if x <= R]))
    k = draw(st.sampled_from([1, 1, 1, 2, 3])) if kmax > 1 else 1
    s = draw(st.sampled_from([3.0, 3.5, 4.0, 5.0, 6.0, 6.0, 6.0, 7.25, 9.0]))
    Ta = k * R * (1 << q)
    span = R * (1 << q)
    # offset: from none to almost half the range, in either direction
    mag = dt_frac - draw(st.one_of(st.floats(0, dt_frac), st.floats(0, dt_frac * 0.9),
                         st.integers(0, 24).map(lambda e: dt_frac / (1 << e))))
    dt = min(mag * span, 0.9 * MAX_DT) * draw(st.sampled_from([1, -1]))
    dt = round(dt * 256) / 256
    # skew: given as the smear over the first window, in bins
    wmag = 3.0 - draw(st.one_of(st.floats(0.0, 2.5), st.floats(0.0, 2.5), st.floats(0.0, 3.0),
                                st.floats(2.5, 3.0), st.just(3.0)))
    df = min(wmag * R / Ta, 0.8 * MAX_DF) * draw(st.sampled_from([1, -1]))
    w = abs(df) * Ta / R
    na, nb = draw(st.sampled_from([(0, 0), (0, 1), (0.5, 2), (0.2, 0.2), (0, 4), (1, 1)]))
    overlap = 1 - abs(dt) / Ta
    N = density(q, na, nb, w, overlap)
    while N is None:
        if na or nb:
            na, nb = 0, 0
        elif w > 0.3 and q >= 17:
            w /= 2
            df /= 2
        else:
            q += 1
            df /= 2
            Ta *= 2
            overlap = 1 - abs(dt) / Ta
        N = density(q, na, nb, w, overlap)
    return {"q": q, "R": R, "r": r, "k": k, "s": s, "S": draw(st.sampled_from([4.0, 6.0, 6.0, 8.0])),
            "dt": dt, "df": df, "N": N, "na": na, "nb": nb,
            "jitter": draw(st.sampled_from([0.0, 0.1, 0.3])),
            "C": draw(st.one_of(gen.wide(0, 1 << 40), gen.wide(0, 1 << 52)))
            + int(abs(dt) * 256 * 1.1) + 1024,
            "skip": draw(st.sampled_from([0, 0, 0, 0.25, 1.0])) * Ta * 1e-9 if skip else 0,
            "terse": draw(st.booleans()),   # options at their documented default are left out
            "seed": draw(st.integers(0, (1 << 32) - 1))}


@st.composite
def large(draw):
    """The buffer sizes of real use, mostly at the documented defaults."""
    q = draw(st.sampled_from([23, 23, 22, 21]))
    R = draw(st.sampled_from([16, 16, 16, 4]))
    Ta = R << q
    dt = draw(gen.wide(-(1 << 33), 1 << 33)) / 256
    dt = max(-0.3 * Ta, min(0.3 * Ta, dt))
    w = draw(st.floats(0, 4))
    N = draw(st.sampled_from([2000, 6000, 12000]))
    return {"q": q, "R": R, "r": draw(st.sampled_from([1, 1, 2])), "k": 1, "s": 6.0, "S": 6.0, "dt": round(dt * 256) / 256,
            "df": w / (1 << q) * draw(st.sampled_from([1, -1])), "N": N, "na": draw(st.sampled_from([0, 0.5])),
            "nb": draw(st.sampled_from([0, 1])), "jitter": 0.3, "skip": 0, "terse": True,
            "C": draw(gen.wide(0, 1 << 52)) + int(abs(dt) * 256 * 1.1) + 1024,
            "legacy": draw(st.booleans()), "seed": draw(st.integers(0, (1 << 32) - 1))}


def smear(c):
    return abs(c["df"]) * c["k"] * (1 << c["q"])


def strict(c):
    """Is the skew so far above the first estimate's error that refinement must happen?"""
    w = smear(c)
    return (w * c["s"] >= 2 * (w + 1) + 1 and abs(c["dt"]) >= 10 * c["R"]) or c["R"] == c["r"]


OUT = re.compile(r"^(-?[0-9.]+(?:e[-+]?\d+)?)\t(-?\d+)\n$")


def parse(run, what):
    """(df, dt) of a successful run."""
    if run["exc"]:
        raise Violation(f"{what}: {run['exc'][0]}: {run['exc'][1]}")
    if run["code"]:
        raise Violation(f"{what}: exit {run['code']}: {run['err'][-300:]}")
    m = OUT.match(run["out"])
    if not m:
        raise Violation(f"{what}: printed {run['out'][:200]!r}, expected a frequency and a time")
    if run.get("touched"):
        raise Violation(f"{what}: the input file was modified")
    return Fraction(m.group(1)), int(m.group(2))


def tolerances(c, warned):
    """(dt tolerance in ns, df tolerance)."""
    Ts = c["s"] * c["k"] * c["R"] * (1 << c["q"])
    res = c["r"] if not warned else 4 * c["R"] * (1 + smear(c))
    return 5.0 * res + 1 + 2 * c["jitter"], (5.0 * res + 2 * c["jitter"]) / Ts


def judge(c, facts, df, dt, warned, what):
    tol_t, tol_f = tolerances(c, warned)
    # an error of the skew shows in the offset too, over the first window
    if abs(float(df) - c["df"]) > tol_f:
        raise Violation(f"{what}: skew {float(df):.4e} reported, {c['df']:.4e} true "
                        f"(tolerance {tol_f:.1e})")
    if abs(dt - facts["dt"]) > tol_t:
        raise Violation(f"{what}: offset {dt} ns reported, {facts['dt']:.1f} ns true "
                        f"(tolerance {tol_t:.1f})")


def describe(run):
    return "fpfind " + " ".join(run["argv"])
