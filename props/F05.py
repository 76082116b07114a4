"""Frequency precompensation: the scan list, and results through it."""
import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from vf import fpgen
from vf.client import Violation
from vf.core import Part

RULE = ("'list': generated start, stop and step: the scan must be start, start+step, start-step, "
        "... out to the range on both sides, or ascending from start to stop when ordered; a zero "
        "step means no precompensation. 'scan': streams whose skew is far beyond what one window "
        "resolves, scanned with a generated grid holding a value close to the skew (alternating or "
        "ordered, first or full scan): the reported result is the true total skew and offset. "
        "'defaults': start, stop and step partly left at their documented defaults and nothing to be "
        "found: the whole list is tried in order. 'full': a full scan tries every value and reports what the plain scan reports. "
        "Non-trivial: the list has at least three entries / the grid value that fits is not the "
        "first one.")
ASSUMPTIONS = ["whether the range's end itself belongs to the scan is left open when the step "
               "divides the range up to rounding"]


@st.composite
def _list(draw):
    step = draw(st.one_of(st.floats(1e-8, 1e-5), st.integers(1, 9).map(float),
                          st.sampled_from([0.1e-6, 1e-6, 0.5, 0.0])))
    n = draw(st.one_of(st.integers(0, 12).map(float), st.floats(0, 30)))
    return {"start": draw(st.one_of(st.just(0.0), st.floats(-20, 20))) * (step or 1.0),
            "reach": n, "step": step, "ordered": draw(st.booleans())}


def grid(start, stop, step, ordered):
    """(certain entries, possible further entries)"""
    if step == 0:
        return [Fraction(0)], 0
    a, s, b = Fraction(start), Fraction(step), Fraction(stop)
    ratio = (b - a) / s if ordered else b / s
    n = math.floor(ratio)
    near = abs(ratio - round(ratio)) < Fraction(1, 10 ** 6)
    lo = round(ratio) - 1 if near else n
    hi = round(ratio) if near else n
    def entries(n):
        if n < 0:
            return [] if ordered else [a]
        out = [a]
        for i in range(1, n + 1):
            out += [a + i * s] if ordered else [a + i * s, a - i * s]
        return out
    return entries(max(lo, 0 if ratio > -Fraction(1, 2) else lo)), entries(hi)


def check_list(case, env):
    step = case["step"]
    stop = case["reach"] * step + (case["start"] if case["ordered"] else 0.0)
    got = ref_values(env.sut("fp_precomp", start=case["start"], stop=stop, step=step,
                             ordered=case["ordered"]))
    what = f"precompensations({case['start']!r}, {stop!r}, {step!r}, ordered={case['ordered']})"
    if step == 0:
        if got != [0]:
            raise Violation(f"{what} = {[float(x) for x in got]}, should be [0]")
        return
    low, high = grid(case["start"], stop, step, case["ordered"])
    if not len(low) <= len(got) <= max(len(low), len(high)):
        raise Violation(f"{what} has {len(got)} entries, should have {len(high)}")
    scale = abs(Fraction(step)) + abs(Fraction(case["start"]))
    for i, (g, w) in enumerate(zip(got, max(low, high, key=len))):
        if abs(g - w) > scale * Fraction(1, 10 ** 12):
            raise Violation(f"{what}: entry {i} is {float(g)!r}, should be {float(w)!r}")


def ref_values(v):
    return [Fraction(*x) for x in v]


def classify_list(case):
    return case["reach"] >= 2 and case["step"] > 0, ["ordered" if case["ordered"] else "alternating"]


@st.composite
def _scan(draw):
    q, R = draw(st.sampled_from([(14, 1000), (15, 1000), (15, 512), (15, 64), (14, 256)]))
    Ta = R * (1 << q)
    unit = R / Ta                               # skew that smears one bin
    step = draw(st.floats(1.0, 3.0)) * unit
    ordered = draw(st.booleans())
    idx = draw(st.integers(0, 4)) * (1 if ordered else draw(st.sampled_from([1, -1])))
    start = draw(st.sampled_from([0.0, 0.0, 1.0, -1.0])) * draw(st.floats(0, 0.3)) * fpgen.MAX_DF
    df = start + (idx + draw(st.floats(-0.5, 0.5))) * step
    lim = 0.6 * fpgen.MAX_DF
    if abs(df) > lim:
        start -= df - math.copysign(lim, df)
        df = math.copysign(lim, df)
    reach = abs(idx) + draw(st.integers(1, 2))
    stop = (reach + 0.5) * step + (start if ordered else 0.0)
    N = {14: 320, 15: 450}[q]
    return {"q": q, "R": R, "r": draw(st.sampled_from([1, 4])), "k": 1,
            "s": draw(st.sampled_from([4.0, 6.0])), "S": 8.0,
            "dt": draw(st.floats(-0.3, 0.3)) * Ta, "df": df, "N": N, "na": 0,
            "nb": draw(st.sampled_from([0, 0.2])), "jitter": 0.1, "C": 1 << 44, "skip": 0,
            "seed": draw(st.integers(0, (1 << 32) - 1)),
            "start": start, "stop": stop, "step": step, "ordered": ordered, "idx": idx,
            "count": reach + 1 if ordered else 2 * reach + 1}


def scan_args(c):
    return ["-v", "-P", f"--precomp-start={c['start']!r}", f"--precomp-stop={c['stop']!r}",
            f"--precomp-step={c['step']!r}"] + ["--precomp-ordered"] * c["ordered"]


def check_scan(c, env):
    d = env.newdir()
    res = env.sut("fp_case", case=c, directory=d, variants=[{"args": scan_args(c)}], cpu=300)
    run = res["runs"][0]
    what = fpgen.describe(run)
    df, dt = fpgen.parse(run, what)
    warned = "WARNING" in run["err"]
    env.count("warned" if warned else "refined")
    # the search starts from the grid value, whose smear is what is left
    left = dict(c, df=c["step"])
    tol_t, tol_f = fpgen.tolerances(left, warned)
    if abs(float(df) - c["df"]) > tol_f or abs(dt - res["facts"]["dt"]) > tol_t:
        raise Violation(f"{what}: {float(df):.4e} {dt} reported, {c['df']:.4e} "
                        f"{res['facts']['dt']:.1f} true (tolerances {tol_f:.1e} {tol_t:.1f})")


def classify_scan(c):
    return c["idx"] != 0, ["ordered" if c["ordered"] else "alternating", f"fit at {abs(c['idx'])}",
                           "start zero" if c["start"] == 0 else "start off zero"]


PPM = re.compile(r"(-?\d+\.\d+) ppm")


def check_full(c, env):
    d = env.newdir()
    a = scan_args(c)
    res = env.sut("fp_case", case=c, directory=d, cpu=600,
                  variants=[{"args": a}, {"args": a + ["--precomp-fullscan"]}])
    one, full = res["runs"]
    what = fpgen.describe(full)
    fpgen.parse(one, fpgen.describe(one))
    if full["exc"] or full["code"] or full["out"] != one["out"]:
        raise Violation(f"{what}: printed {full['out']!r} {full['exc'] or ''}, "
                        f"the plain scan {one['out']!r}")
    tried = {x for x in PPM.findall(full["err"])}
    low, high = grid(c["start"], c["stop"], c["step"], c["ordered"])
    for v in low:
        if not any(abs(float(t) - float(v) * 1e6) < 0.0011 for t in tried):
            raise Violation(f"{what}: {float(v) * 1e6:.3f} ppm was not tried, only {sorted(tried)}")


@st.composite
def _defaults(draw):
    """Some of the scan's settings left at their documented default, nothing to be found."""
    left = [k for k in ("start", "stop", "step") if draw(st.booleans())]
    step = 1e-7 if "step" in left else draw(st.floats(0.3e-6, 3e-6))
    ordered = draw(st.booleans())
    start = 0.0 if "start" in left else draw(st.integers(-20, 12)) / 4 * step
    stop = 1e-5 if "stop" in left else draw(st.integers(0, 60)) * step + 0.4 * step + start * ordered
    return {"q": 14, "R": draw(st.sampled_from([16, 100])), "r": 1, "k": 1, "s": 3.0, "S": 60.0, "dt": 0.0,
            "df": 0.0, "N": 400, "na": 0, "nb": 0, "jitter": 0.0, "C": 1 << 44, "skip": 0,
            "uncorrelated": True, "seed": draw(st.integers(0, (1 << 32) - 1)), "left": left,
            "start": start, "stop": stop, "step": step, "ordered": ordered,
            "full": draw(st.booleans())}


def check_defaults(c, env):
    args = [a for a in scan_args(c) if a.split("=")[0][len("--precomp-"):] not in c["left"]]
    args += ["--precomp-fullscan"] * c["full"]
    run = env.sut("fp_case", case=c, directory=env.newdir(), cpu=300, variants=[{"args": args}])["runs"][0]
    what = fpgen.describe(run)
    if run["out"] or not (run["code"] or run["exc"]):
        raise Violation(f"{what}: printed {run['out']!r} for unrelated streams")
    tried = [float(x) for x in PPM.findall(run["err"])]
    low, high = grid(c["start"], c["stop"], c["step"], c["ordered"])
    want = [float(v) * 1e6 for v in (low if abs(len(low) - len(tried)) < abs(len(high) - len(tried)) else high)]
    if len(tried) != len(want) or any(abs(t - v) > 0.0011 for t, v in zip(tried, want)):
        raise Violation(f"{what}: tried {tried[:6]}... ({len(tried)} values), "
                        f"should be {want[:6]}... ({len(want)})")


PARTS = [Part("defaults", _defaults, check_defaults, lambda c: (bool(c["left"]), [
             "default " + k for k in c["left"]]), quick=40, thorough=800),
         Part("list", _list, check_list, classify_list, quick=4000, thorough=60000),
         Part("scan", _scan, check_scan, classify_scan, quick=250, thorough=5000),
         Part("full", _scan, check_full, classify_scan, quick=60, thorough=1000)]
