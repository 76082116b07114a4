"""Peak statistics describe the histogram they are given."""
import math
import random

from hypothesis import strategies as st

from vf.client import Violation
from vf.core import Part

RULE = ("generated histograms, bin widths, peak positions (found, or given as a delay of either "
        "sign) and windows: height, mean, deviation, area and the significances must be those of "
        "the peak window and of the background on the nearer half to either side of it, computed "
        "independently; a flat background has significance 0. "
        "'large': up to 20000 bins, whole and fractional counts. Non-trivial: peak window and "
        "background are both non-empty and the background varies.")
ASSUMPTIONS = ["the background is the nearer half of the bins on either side of the window"]


@st.composite
def _case(draw):
    n = draw(st.integers(4, 40))
    hist = draw(st.one_of(
        st.lists(st.integers(0, 20), min_size=n, max_size=n),
        st.lists(st.integers(0, 1000), min_size=n, max_size=n),
        st.integers(0, 5).map(lambda v: [v] * n)))
    peak = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    if peak is not None:
        hist[peak] = 100 + 3 * max(hist)
    res = draw(st.one_of(st.sampled_from([1, 2, 16]), st.sampled_from([0.5, 1.5, 4.0])))
    pos = draw(st.one_of(st.none(), st.none(), st.integers(-(n - 1), n - 1)))
    return {"hist": hist, "res": res, "simple": draw(st.integers(0, 7)) == 0,
            "center": None if pos is None else pos * res, "pos": pos,
            "window": draw(st.sampled_from([None, 0, 1, 2, 4, 3.5, 10])) }


def reference(case):
    h = case["hist"]
    n = len(h)
    if case["simple"]:
        sig = bg = h
    else:
        c = h.index(max(h)) if case["pos"] is None else case["pos"] % n
        k = math.ceil((case["window"] or 0) / 2 / case["res"])
        left, right = max(0, c - k), min(n, c + k)
        sig = h[left:right + 1]
        bg = h[left // 2:left] + h[right + 1:(n + right) // 2 + 1]
    return sig, bg


def mean(v):
    return math.fsum(v) / len(v)


def std(v):
    m = mean(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def check(case, env):
    sig, bg = reference(case)
    if not sig or not bg:
        return
    got = env.sut("xc_stats", hist=case["hist"], res=None if case["simple"] else case["res"],
                  center=None if case["simple"] else case["center"], window=case["window"])
    m, s = mean(bg), std(bg)
    total = sum(sig) - len(sig) * m
    want = {"max": max(sig), "mean": m, "stdev": s, "total": total,
            "g2": None if m == 0 else max(sig) / m}
    if s == 0:
        want.update(significance=0, significance_raw=None, significance2=None)
    else:
        full = sig + bg
        want["significance"] = (max(sig) - m) / s
        want["significance_raw"] = (max(full) - mean(full)) / std(full)
        k = len(bg) // len(sig) * len(sig)
        groups = [sum(bg[i:i + len(sig)]) for i in range(0, k, len(sig))]
        want["significance2"] = total / std(groups) if groups and std(groups) > 1e-9 else None
        if groups and 0 < std(groups) <= 1e-9:
            del want["significance2"]
    for name, w in want.items():
        g = got[name]
        if (g is None) != (w is None) or w is not None and abs(g - w) > 6e-4 + 1e-9 * abs(w):
            raise Violation(f"{name} is {g}, should be {w} (peak {sig[:8]}, background {bg[:12]})")


def classify(case):
    sig, bg = reference(case)
    labels = ["whole histogram" if case["simple"] else
              "peak searched" if case["pos"] is None else
              "peak given" if case["pos"] >= 0 else "peak given, negative delay"]
    if bg and len(set(bg)) == 1:
        labels.append("flat background")
    return bool(sig and bg and len(set(bg)) > 1), labels


@st.composite
def _large(draw):
    n = draw(st.one_of(st.integers(41, 20000), st.integers(6, 14).map(lambda k: 1 << k)))
    res = draw(st.sampled_from([1, 16, 0.5, 1.5, 1000.0]))
    pos = draw(st.one_of(st.none(), st.integers(-(n - 1), n - 1)))
    return {"n": n, "res": res, "simple": draw(st.integers(0, 7)) == 0, "pos": pos,
            "center": None if pos is None else pos * res,
            "window": draw(st.one_of(st.sampled_from([None, 0, 2]), st.integers(0, n).map(
                lambda w: w * res))),
            "mean": draw(st.sampled_from([1, 30, 10 ** 6])), "quarters": draw(st.booleans()),
            "seed": draw(st.integers(0, (1 << 32) - 1))}


def bulk(case):
    rng = random.Random(case["seed"])
    hist = [rng.randrange(2 * case["mean"] + 1) for _ in range(case["n"])]
    hist[rng.randrange(case["n"])] = 10 * case["mean"]
    if case["quarters"]:        # smoothed histograms hold no whole numbers
        hist = [v + rng.randrange(4) / 4 for v in hist]
    return dict(case, hist=hist)


PARTS = [Part("large", _large, lambda c, env: check(bulk(c), env), lambda c: classify(bulk(c)),
              quick=240, thorough=3000, chunk=20),
         Part("statistics", _case, check, classify, quick=8000, thorough=100000)]
