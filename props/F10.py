"""fpfind ends with one result or with none."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from vf.client import Violation
from vf.core import Part

RULE = ("generated pairs of event files of all shapes (random, evenly spaced, bursts, all at one "
        "time, only at both ends, none; related or not) and generated settings, including separations below, at "
        "and above those at which a step of refinement gains nothing: fpfind must end within "
        "a CPU budget some hundred times what its slowest refinement needs, either with status 0 and exactly one line of as "
        "many fields as the output setting asks for, with the skew within its limit, or with a "
        "failure status and an empty standard output. Non-trivial: both files hold at least ten "
        "events.")
ASSUMPTIONS = ["an hour-long run would be one that does not end: the budget is 60 s CPU on files of "
               "at most 3000 events and 2^14 bins"]
LIMIT = Fraction(1, 1 << 13)
SHAPES = ["uniform", "uniform", "comb", "burst", "still", "ends"]


@st.composite
def _case(draw):
    q = draw(st.sampled_from([1, 4, 8, 10, 12, 14]))
    R = draw(st.sampled_from([1, 3, 16, 64, 512, 9000]))
    n = st.one_of(st.integers(0, 30), st.integers(100, 1500))
    s = draw(st.one_of(st.sampled_from([0.0, 0.3, 1.0, 1.4, 1.4142, 1.41421356, 1.4143, 1.415,
                                        1.42, 1.5, 2.0, 3.0, 6.0]), st.floats(1.0, 2.0),
                       st.floats(0, 12)))
    c = {"q": q, "R": R, "k": draw(st.sampled_from([1, 1, 1, 2, 5])), "s": s,
         "length": s + draw(st.sampled_from([0.4, 1.0, 1.5, 3.0, 3.0])),
         "shape_a": draw(st.sampled_from(SHAPES)), "n_a": draw(n),
         "shape_b": draw(st.sampled_from(SHAPES + ["same"] * 12)), "n_b": draw(n),
         "df": draw(st.sampled_from([0.0, 1e-6, -1e-5, 6e-5, 1.1e-4, -1.3e-4, 1e-3])),
         "C": draw(st.sampled_from([0, 1 << 30, 1 << 45])), "seed": draw(st.integers(0, 1 << 31))}
    if draw(st.booleans()):   # related streams, long enough
        c.update(shape_a=draw(st.sampled_from(["uniform", "uniform", "burst"])), shape_b="same",
                 n_a=draw(st.integers(300, 2500)), q=max(q, 10), length=s + 2.0,
                 R=R if R < 9000 else 512)
        q, R = c["q"], c["R"]
    c["dt"] = draw(st.sampled_from([0.0, 0.0, 1.0, 0.1, -0.3, 0.7])) * R * (1 << q)
    argv = ["-k", str(c["k"]), "-q", str(q), "-R", str(R), "-s", repr(s),
            "-r", str(draw(st.sampled_from([1, 1, 2, 7, R, 1000]))),
            "-S", repr(draw(st.sampled_from([-1.0, 0.0, 0.5, 3.0, 6.0, 6.0, 50.0])))]
    v = draw(st.integers(0, 15)) if draw(st.booleans()) else 0
    argv += ["-V", str(v)] if v else []
    pre = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if pre:
        argv += ["-P", "--precomp-step", "1e-5", "--precomp-stop", "3e-5"]
        argv += ["--precomp-fullscan"] * (pre - 1)
        argv += draw(st.sampled_from([[], [], ["--precomp-ordered"]]))
    argv += draw(st.sampled_from([[], [], [], ["--quiet"], ["-v"], ["-vv"], ["--quiet", "-L", "log"]]))
    return {"c": c, "argv": argv, "v": v, "pre": pre}


NUM = re.compile(r"^-?[0-9.]+(e[-+]?\d+)?$")
INT = re.compile(r"^-?\d+$")


def check(case, env):
    run = env.sut("fp_shaped_case", case=case["c"], directory=env.newdir(), argv=case["argv"],
                  cpu=60)
    what = f"fpfind {' '.join(case['argv'])}"
    if run["exc"] or run["code"]:
        env.count("no result")
        if run["out"]:
            raise Violation(f"{what}: failed ({run['exc'] or run['code']}), yet printed {run['out']!r}")
        return
    env.count("a result")
    v, out = case["v"], run["out"]
    fields = out[:-1].split("\t")
    if not out.endswith("\n") or "\n" in out[:-1] or len(fields) != (1 if v & 4 else 2) \
            or not (INT if v & 2 else NUM).match(fields[0]) or not all(INT.match(x) for x in fields[1:]):
        raise Violation(f"{what}: printed {out!r}")
    df = Fraction(fields[0]) / ((1 << 34) if v & 2 else 1)
    if v & 1:
        df = 1 / (1 + df) - 1
    # a precompensation of up to 3e-5 comes on top of what is measured
    limit = LIMIT + Fraction(3, 10 ** 5) * (1 + LIMIT) if case["pre"] else LIMIT
    if abs(df) >= limit * (1 + Fraction(1, 10 ** 5)):
        raise Violation(f"{what}: a skew of {float(df):.5e} is beyond the limit of 2^-13")


def classify(case):
    c = case["c"]
    return min(c["n_a"], c["n_b"]) >= 10, [f"{c['shape_a']}/{c['shape_b']}"] + \
        ["separation below 1.42"] * (c["s"] < 1.42)


PARTS = [Part("ends", _case, check, classify, quick=1500, thorough=30000, regressions=[
    {"c": {"q": 14, "R": 512, "k": 1, "s": 1.4142, "length": 3.4, "shape_a": "uniform", "n_a": 1200,
           "shape_b": "same", "n_b": 1200, "df": 1e-6, "dt": 2760709.9, "C": 1 << 40, "seed": 5},
     "argv": ["-k", "1", "-q", "14", "-R", "512", "-r", "32", "-s", "1.4142", "-S", "6.0"],
     "v": 0, "pre": 0}])]
