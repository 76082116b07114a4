"""fpfind finds the true offset and skew between two correlated streams."""
import math

from hypothesis import strategies as st

from vf import fpgen, gen
from vf.client import Violation
from vf.core import Part

RULE = ("two simulated event streams sharing detections (target = reference x (1+df) + dt, jitter, "
        "unpaired events on both sides, common start anywhere in the 54-bit range) are written as "
        "raw files and given to the fpfind command with generated buffer order, wraps, initial and "
        "final resolution, separation, threshold, format and skipped duration; the peak is always "
        "at least twice the highest noise. The reported pair must equal the true one (offset at "
        "the common start) within 5 final resolutions. Non-trivial: the offset is over ten times "
        "the initial resolution and the skew smears the first peak over half a bin or more. 'merge': "
        "a skew that smears the first peak over many bins, so that it passes only once bins are "
        "merged; the refined pair must be right. Non-trivial there: smeared over three bins or more. 'large': "
        "buffers of 2^21 to 2^23 bins, options at their documented default left out.")
ASSUMPTIONS = ["at least one strong common peak within the searched range",
               "when fpfind warns that it stopped early, the initial resolution is what counts; "
               "it must not when offset and skew are well above the first estimate's error"]


@st.composite
def _case(draw):
    c = draw(fpgen.scenario())
    c["legacy"] = draw(st.booleans())
    return c


def check(case, env):
    d = env.newdir()
    res = env.sut("fp_case", case=case, directory=d, variants=[{"legacy": case["legacy"]}],
                  cpu=90 if case["q"] < 21 else 400)
    run = res["runs"][0]
    what = fpgen.describe(run)
    df, dt = fpgen.parse(run, what)
    warned = "WARNING" in run["err"]
    env.count("warned" if warned else "refined")
    if warned and fpgen.strict(case):
        raise Violation(f"{what}: gave up refining at df={float(df):.3e} dt={dt}, true "
                        f"{case['df']:.3e} {res['facts']['dt']:.1f}: {run['err'][:300]}")
    fpgen.judge(case, res["facts"], df, dt, warned, what)


def classify(case):
    w = fpgen.smear(case)
    return (abs(case["dt"]) > 10 * case["R"] and w > 0.5,
            ["dt negative" if case["dt"] < 0 else "dt positive",
             "df zero" if case["df"] == 0 else "df negative" if case["df"] < 0 else "df positive",
             f"{case['k']} wraps", "refinement required" if fpgen.strict(case) else
             "refinement optional"] + ["skipped start"] * bool(case["skip"]))


# ------------------------------------------- peaks too broad for the first bins

@st.composite
def _merge(draw):
    """The skew smears the first peak over many bins; only merged bins show it."""
    q = draw(st.integers(15, 17))
    M = draw(st.integers(3, 7))          # doublings that suffice
    top = draw(st.sampled_from([256, 1024, 4096, 8192, 8192]))
    R = max(1, top >> M)
    wM = draw(st.floats(1.0, 2.5))       # smear in bins of R << M
    if wM * (1 << M) > 0.8 * fpgen.MAX_DF * (1 << q):
        q = 19
    bins = 1 << q
    Ta = R * bins
    df = min(wM * (R << M) / Ta, 0.8 * fpgen.MAX_DF)
    w = df * Ta / R
    dt = draw(st.floats(0, 0.3)) * min(Ta, 2e8) * draw(st.sampled_from([1, -1]))
    dt = round(dt * 256) / 256
    overlap = 1 - abs(dt) / Ta
    for N in (240, 320, 480, 640, 960, 1280, 1920, 2560, 3840, 5120):
        # significance that noise reaches at any stage, that the peak has at most at first
        # and that it surely has at some stage
        noise, sure = 0, 0
        for m in range(M + 1):
            lam = round(N * N / bins * (1 << m), 3)
            sd = math.sqrt(lam)
            noise = max(noise, (fpgen.noise_max(lam, bins >> m) - lam) / sd)
            p = N * overlap / (1 + w / (1 << m))
            p -= 3 * math.sqrt(p)
            spread = p * p * (1 + w / (1 << m)) / (bins >> m)
            sure = max(sure, p / math.sqrt(lam + spread))
        lam = N * N / bins
        first = fpgen.noise_max(round(lam + N / w, 3), int(w) + 1) - lam
        S = max(2 * noise, 1.05 * first / math.sqrt(lam))
        if sure > 1.1 * S:
            break
    else:
        return None
    return {"q": q, "R": R, "r": 1, "k": 1, "s": draw(st.sampled_from([6.0, 8.0, 12.0])),
            "S": round(S, 1), "dt": dt, "df": df * draw(st.sampled_from([1, -1])), "N": N,
            "na": 0, "nb": 0, "jitter": draw(st.sampled_from([0.0, 0.3])),
            "C": draw(gen.wide(0, 1 << 50)) + int(abs(dt) * 256 * 1.1) + 1024, "skip": 0,
            "M": M, "seed": draw(st.integers(0, (1 << 32) - 1))}


@st.composite
def _deep(draw):
    """The smeared peak fits into one bin only after M mergers, and passes only then."""
    M, q = draw(st.sampled_from([(3, 17), (3, 18), (4, 18), (4, 18), (5, 19), (5, 19), (6, 20)]))
    w = 0.9 * (1 << M)                   # smear in first bins
    R = draw(st.sampled_from([1, 1, 2, 3, 4, 16, 64, 128]))
    bins = 1 << q
    Ta = R * bins
    df = w * R / Ta * draw(st.sampled_from([1, -1]))
    B = R << M
    top = int(0.3 * min(Ta, 2e8) // B)
    dt = round((draw(st.integers(-top, top)) + (0.05 if df > 0 else 0.95)) * B * 256) / 256
    overlap = 1 - (abs(dt) + B) / Ta
    for N in (480, 640, 960, 1280, 1920, 2560, 3840, 5120):
        T = N * overlap
        noise, early = 0, 0
        for m in range(M + 1):
            lam = round(N * N / bins * (1 << m), 3)
            noise = max(noise, (fpgen.noise_max(lam, bins >> m) - lam) / math.sqrt(lam))
            if m < M:
                x = w / (1 << m)
                # background: half of all bins, with the rest of the peak among them
                p = T / x + 4 * math.sqrt(T / x + lam)
                spread = max(0.0, p * (T - p)) / (bins >> m)
                early = max(early, p / math.sqrt(0.95 * lam + spread))
        late = (T - 4 * math.sqrt(T + lam)) / math.sqrt(1.05 * lam)
        S = max(2 * noise, 1.05 * early)
        if late > 1.05 * S:
            break
    else:
        return None
    S += draw(st.floats(0, 1)) * (late / 1.05 - S)
    return {"q": q, "R": R, "r": 1, "k": 1, "s": draw(st.sampled_from([4.0, 6.0, 6.0, 8.0, 12.0])),
            "S": round(S, 1), "dt": dt, "df": df, "N": N, "na": 0, "nb": 0, "jitter": 0.0,
            "C": draw(gen.wide(0, 1 << 50)) + int(abs(dt) * 256 * 1.1) + 1024, "skip": 0,
            "M": M, "seed": draw(st.integers(0, (1 << 32) - 1))}


def check_merge(case, env):
    d = env.newdir()
    res = env.sut("fp_case", case=case, directory=d, variants=[{"args": ["-vv"]}], cpu=90)
    run = res["runs"][0]
    what = fpgen.describe(run)
    df, dt = fpgen.parse(run, what)
    env.count(f"merged {run['err'].count('Rejected')} times")
    warned = "Interrupted" in run["err"]
    env.count("merge warned" if warned else "merge refined")
    wide = dict(case, R=case["R"] << case["M"])
    if warned and fpgen.strict(wide):
        raise Violation(f"{what}: gave up refining at df={float(df):.3e} dt={dt}")
    # the first estimate is good to the smear; each step gains as much as the separation allows
    smear = abs(case["df"]) * case["R"] * (1 << case["q"])
    steps = 1 + int(math.log(case["R"] / case["r"]) / math.log(case["s"] / math.sqrt(2)))
    tol = 5 * case["r"] + 1 + (3 * smear if warned else smear * (2 / case["s"]) ** steps)
    Ts = case["s"] * case["R"] * (1 << case["q"])
    if abs(float(df) - case["df"]) > 2 * tol / Ts:
        raise Violation(f"{what}: skew {float(df):.4e} reported, {case['df']:.4e} true "
                        f"(tolerance {2 * tol / Ts:.1e})")
    if abs(dt - res["facts"]["dt"]) > tol:
        raise Violation(f"{what}: offset {dt} ns reported, {res['facts']['dt']:.1f} ns true "
                        f"(tolerance {tol:.1f})")


def classify_merge(case):
    return fpgen.smear(case) > 3, [f"smeared over 2^{int(math.log2(fpgen.smear(case)))} bins"]


PARTS = [Part("recover", _case, check, classify, quick=800, thorough=20000),
         Part("large", fpgen.large, check, classify, quick=8, thorough=160),
         Part("merge", lambda: st.one_of(_merge(), _deep()).filter(lambda c: c is not None), check_merge,
              classify_merge, quick=160, thorough=4000)]
