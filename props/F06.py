"""Correlation building blocks agree with direct counting."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.client import Violation
from vf.core import Part

RULE = ("'xcorr': generated event lists (any start, negative times, every container) and bin "
        "widths: the transform must be that of the wrapped histogram and the cross-correlation "
        "must equal the directly counted pairs per delay, with and without a filter; arguments "
        "stay as they were. 'delay': generated histograms: reported delays (best, at an index, "
        "best k, centred axes) must be the positions of the largest counts, as the signed pair of "
        "equivalent delays, smaller magnitude first. 'whole': the all-in-one histogram of generated "
        "streams, start, number of wraps and skew must be the directly counted pairs of the events "
        "in its window. "
        "'large': the same with up to 2^15 bins and 3000 events. Non-trivial: at least three events on both sides / four bins with a unique "
        "maximum.")
ASSUMPTIONS = ["floating-point transforms within 1e-6 of the exact counts"]


@st.composite
def _xcorr(draw):
    log2 = draw(st.sampled_from([0, 3, 8]))
    n = draw(st.one_of(st.integers(1, 7).map(lambda k: 1 << k), st.integers(1, 50).map(lambda k: 2 * k)))
    res = draw(st.sampled_from([1, 2, 3, 16, 0.5, 1.25]))
    span = int(n * res * (1 << log2))
    lo = draw(st.sampled_from([0, 0, -span]))
    t = st.one_of(st.integers(lo, 3 * span), st.integers(lo // 4, 3 * n).map(
        lambda k: int(k * res * (1 << log2))))
    # far from zero (within what float64 holds exactly): days to months of unit bins
    far = [draw(st.sampled_from([0, 0, 0, (1 << 33) * span // n, ((1 << 51) - 1) // span * span,
                                 -(1 << 35), draw(gen.wide(-(1 << 50), 1 << 51))]))
           for _ in "ab"]
    return {"a": [far[0] + v for v in draw(st.lists(t, min_size=1, max_size=25))],
            "b": [far[1] + v for v in draw(st.lists(t, min_size=1, max_size=25))],
            "log2": log2, "cont": draw(st.sampled_from(["longdouble", "float64", "int64"])),
            "n": n, "res": res,
            "filter": draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 1.0, 0.5]),
                                                         min_size=n // 2 + 1, max_size=n // 2 + 1)))}


def histogram(units, case):
    h = [0] * case["n"]
    for u in units:
        v = Fraction(u >> case["log2"]) if case["cont"] == "int64" else Fraction(u, 1 << case["log2"])
        h[(v // Fraction(case["res"])) % case["n"]] += 1
    return h


def check_xcorr(case, env):
    got = env.sut("xc_fft", a=case["a"], b=case["b"], log2=case["log2"], cont=case["cont"],
                  num_bins=case["n"], res=case["res"])
    if not got["same"]:
        raise Violation("an argument was modified")
    n = case["n"]
    ha, hb = histogram(case["a"], case), histogram(case["b"], case)
    want = np.fft.rfft(ha)
    fa = np.array([complex(*v) for v in got["fa"]])
    if len(fa) != len(want) or np.max(np.abs(fa - want)) > 1e-6:
        raise Violation(f"transform {fa[:6]}... is not that of the histogram {ha[:20]}")
    pairs = [sum(ha[i] * hb[(i + k) % n] for i in range(n)) for k in range(n)]
    x = got["x"]
    if len(x) != n:
        raise Violation(f"cross-correlation has {len(x)} bins, should have {n}")
    for k in range(n):
        if abs(x[k] - pairs[k]) > 1e-6:
            raise Violation(f"cross-correlation at delay {k} bins is {x[k]:.6f}, "
                            f"{pairs[k]} pairs have that delay")
    if case["filter"] is not None:
        unit = 1 << case["log2"]
        if case["cont"] == "int64":
            return
        y = env.sut("xc_filter", a=[u / unit for u in case["a"]], b=[u / unit for u in case["b"]],
                    num_bins=n, res=case["res"], filt=case["filter"])
        w = np.abs(np.fft.irfft(np.conj(np.fft.rfft(ha)) * np.fft.rfft(hb)
                                * np.array(case["filter"]), n))
        if np.max(np.abs(np.array(y) - w)) > 1e-6:
            raise Violation(f"filtered cross-correlation {y[:8]}, should be {list(w[:8])}")


def classify_xcorr(case):
    return len(case["a"]) >= 3 and len(case["b"]) >= 3, [case["cont"]] + \
        ["filtered"] * (case["filter"] is not None)


@st.composite
def _delay(draw):
    n = draw(st.one_of(st.sampled_from([2, 4, 8, 16, 32]), st.integers(2, 40)))
    hist = draw(st.permutations(range(n)))
    if draw(st.booleans()):
        hist = [v // 3 for v in hist]
        hist[draw(st.integers(0, n - 1))] = 100
        if draw(st.integers(0, 3)) == 0:   # equally high peaks, also at both ends
            for i in draw(st.sampled_from([[0, n - 1], [0], [n - 1], [n // 2]])):
                hist[i] = 100
    return {"hist": list(hist), "res": draw(st.sampled_from([1, 2, 16, 0.5, 1.25])),
            "k": draw(st.integers(1, n)), "pos": draw(st.integers(0, n - 1))}


def delays(pos, n, res):
    """The two equivalent delays of a bin: smaller magnitude first (either, if equal)."""
    p, m = pos * res, -((n - pos) * res if pos else 0)
    return [{(p, m), (m, p)}] if abs(p) == abs(m) else [{(p, m) if abs(p) < abs(m) else (m, p)}]


def check_delay(case, env):
    h, res, n = case["hist"], case["res"], len(case["hist"])
    got = env.sut("xc_delay", hist=h, res=res, k=case["k"], pos=case["pos"])
    best = h.index(max(h))
    tops = [i for i in range(n) if h[i] == max(h)]
    def expect(pair, pos, what):
        if tuple(pair) not in delays(pos, n, res)[0]:
            raise Violation(f"{what}: {pair}, bin {pos} of {n} (width {res}) stands for "
                            f"{delays(pos, n, res)[0]}")
    if not any(tuple(got["one"]) in delays(i, n, res)[0] for i in tops):
        expect(got["one"], best, "best delay")
    expect(got["at"], case["pos"], "delay at index")
    if len(got["top"]) != case["k"]:
        raise Violation(f"{len(got['top'])} delays returned, {case['k']} asked for")
    if case["k"] == 1:
        if not any(tuple(got["top"][0][-2:]) in delays(i, n, res)[0] for i in tops):
            expect(got["top"][0][-2:], best, "top delay")
    else:
        counts = [row[0] for row in got["top"]]
        want = sorted(h, reverse=True)[:case["k"]]
        if counts != want:
            raise Violation(f"top {case['k']} counts are {counts}, should be {want}")
        for row in got["top"]:
            cand = [i for i in range(n) if h[i] == row[0]]
            if not any(tuple(row[1:]) in delays(i, n, res)[0] for i in cand):
                raise Violation(f"count {row[0]} reported at {row[1:]}, it is in bins {cand}")
    if "axis" in got:
        hh, tt = got["axis"]
        want = [[k * res, float(h[k % n])] for k in range(-(n // 2), n // 2)]
        if [[t, v] for t, v in zip(tt, hh)] != want or len(hh) != len(tt):
            raise Violation(f"centred histogram {list(zip(tt, hh))}, should be {want}")


def classify_delay(case):
    h = case["hist"]
    return len(h) >= 4 and h.count(max(h)) == 1, [
        "peak in the first half" if h.index(max(h)) * 2 < len(h) else "peak in the second half"]


@st.composite
def _whole(draw):
    log2 = draw(st.sampled_from([0, 3, 8]))
    n = 1 << draw(st.integers(1, 6))
    res = draw(st.sampled_from([1, 2, 3, 16, 0.5, 1.25]))
    unit = 1 << log2
    span = int(n * res * unit)
    base = draw(st.sampled_from([0, 0, 1000, 1 << 30])) * unit
    t = st.one_of(st.integers(0, 4 * span),
                  st.integers(0, 4 * n).map(lambda k: int(k * res * unit)))
    a = sorted(draw(st.lists(t, min_size=1, max_size=25)))
    b = sorted(draw(st.lists(t, min_size=1, max_size=25)))
    late = draw(st.sampled_from([0, 0, span // 2, 2 * span]))
    return {"a": [base + v for v in a], "b": [base + late + v for v in b], "log2": log2,
            "cont": draw(st.sampled_from(["longdouble", "float64", "int64"])), "n": n, "res": res,
            "wraps": draw(st.sampled_from([1, 1, 2, 3, 1.5])),
            "start": draw(st.one_of(st.none(), st.integers(0, 2 * n).map(lambda k: k * res))),
            "fcorr": draw(st.sampled_from([0.0, 0.0, 2 ** -10, -2 ** -12, 0.125])),
            "filter": draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 1.0, 0.5]),
                                                         min_size=n // 2 + 1, max_size=n // 2 + 1))),
            "stats": draw(st.booleans())}


def spans(case):
    """The analysed times of both sides, counted from the start of the window."""
    v = [[Fraction(u >> case["log2"]) if case["cont"] == "int64" else Fraction(u, 1 << case["log2"])
          for u in case[k]] for k in "ab"]
    zero = max(v[0][0], v[1][0]) + Fraction(case["start"] or 0)
    length = Fraction(case["wraps"]) * case["n"] * Fraction(case["res"])
    v = [[t - zero for t in v[0]], [(t - zero) * (1 + Fraction(case["fcorr"])) for t in v[1]]]
    return [[t for t in w if 0 <= t < length] for w in v]


def check_whole(case, env):
    n, res = case["n"], Fraction(case["res"])
    a, b = spans(case)
    if not a or not b:
        return
    got = env.sut("xc_hist", a=case["a"], b=case["b"], log2=case["log2"], cont=case["cont"],
                  num_bins=n, res=case["res"], wraps=case["wraps"], start=case["start"],
                  fcorr=case["fcorr"], filt=case["filter"], stats=case["stats"])
    if not got["same"]:
        raise Violation("an argument was modified")
    ha, hb = [0] * n, [0] * n
    for h, ts in ((ha, a), (hb, b)):
        for t in ts:
            h[(t // res) % n] += 1
    x = got["x"]
    if len(x) != n or got["bins"] != [float(k * res) for k in range(n)]:
        raise Violation(f"{len(x)} bins at {got['bins'][:5]}..., should be {n} of width {case['res']}")
    if case["filter"] is None:
        want = [sum(ha[i] * hb[(i + k) % n] for i in range(n)) for k in range(n)]
    else:
        want = np.abs(np.fft.irfft(np.conj(np.fft.rfft(ha)) * np.fft.rfft(hb)
                                   * np.array(case["filter"]), n))
    for k in range(n):
        if abs(x[k] - want[k]) > 1e-6:
            raise Violation(f"histogram at delay {k} bins is {x[k]:.6f}, should be {want[k]:.6f}")
    if case["stats"]:
        if got["n"] != [len(a), len(b)]:
            raise Violation(f"{got['n']} events reported, {[len(a), len(b)]} were analysed")
        if abs(got["max"] - max(x)) > 1e-6:
            raise Violation(f"peak of {got['max']} reported, the largest count is {max(x)}")


def classify_whole(case):
    a, b = spans(case)
    return len(a) >= 3 and len(b) >= 3, [case["cont"]] + ["detuned"] * bool(case["fcorr"]) + \
        ["empty after cutting"] * (not a or not b)


# ------------------------------------------------------------------- large

@st.composite
def _large(draw):
    return {"n": draw(st.one_of(st.integers(9, 15).map(lambda k: 1 << k),
                                st.integers(500, 12000).map(lambda k: 2 * k))),
            "res": draw(st.sampled_from([1, 2, 16, 1000, 0.5, 1.25])), "log2": draw(st.sampled_from([0, 3, 8])),
            "cont": draw(st.sampled_from(["longdouble", "float64", "int64"])),
            "counts": [draw(st.integers(1, 3000)), draw(st.integers(1, 3000))],
            "spread": draw(st.sampled_from([0.01, 0.5, 1, 1, 3, 40])),
            "far": draw(st.sampled_from([0, 0, 1 << 30, 1 << 44])),
            "delay": draw(st.floats(-0.5, 0.5)), "k": draw(st.integers(1, 200)),
            "seed": draw(st.integers(0, (1 << 32) - 1))}


def check_large(case, env):
    rng = np.random.default_rng(case["seed"])
    n, unit = case["n"], 1 << case["log2"]
    span = int(n * case["res"] * unit)
    a = rng.integers(0, max(1, int(span * case["spread"])), case["counts"][0])
    shift = int(case["delay"] * span)
    b = np.concatenate((a[:case["counts"][1] // 2] + shift,
                        rng.integers(0, max(1, int(span * case["spread"])), case["counts"][1])))
    c = dict(case, a=[int(v) + case["far"] * unit for v in np.sort(a)],
             b=[int(v) + case["far"] * unit for v in np.sort(b)])
    got = env.sut("xc_fft", a=c["a"], b=c["b"], log2=c["log2"], cont=c["cont"], num_bins=n,
                  res=c["res"])
    if not got["same"]:
        raise Violation("an argument was modified")
    ha, hb = (np.array(histogram(c[k], c)) for k in "ab")
    want = np.fft.rfft(ha)
    fa = np.array([complex(*v) for v in got["fa"]])
    if len(fa) != len(want) or np.max(np.abs(fa - want)) > 1e-6:
        raise Violation(f"{case}: the transform is not that of the histogram")
    ia, ib = np.repeat(np.arange(n), ha), np.repeat(np.arange(n), hb)
    pairs = sum(np.bincount((ib - i) % n, minlength=n) for i in ia)
    x = np.array(got["x"])
    if len(x) != n:
        raise Violation(f"cross-correlation has {len(x)} bins, should have {n}")
    if np.max(np.abs(x - pairs)) > 1e-4:
        i = int(np.argmax(np.abs(x - pairs)))
        raise Violation(f"{case}: cross-correlation at delay {i} bins is {x[i]:.6f}, {pairs[i]} pairs "
                        f"have that delay")
    hist = [int(v) for v in rng.permutation(n)]
    check_delay({"hist": hist, "res": case["res"], "k": case["k"], "pos": int(rng.integers(n))}, env)


PARTS = [Part("large", _large, check_large, lambda c: (min(c["counts"]) > 100, [c["cont"]]), quick=80,
              thorough=1500, chunk=10),
         Part("xcorr", _xcorr, check_xcorr, classify_xcorr, quick=4000, thorough=60000),
         Part("delay", _delay, check_delay, classify_delay, quick=4000, thorough=60000),
         Part("whole", _whole, check_whole, classify_whole, quick=3000, thorough=60000)]
