"""The output switch only changes how the one result is expressed."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from vf import fpgen, gen
from vf.client import Violation
from vf.core import Part

RULE = ("generated solvable scenarios are run with the plain output and with generated other "
        "values of the 16 output settings; each must print the very result of the plain run, "
        "re-expressed: bit 0 the inverse relation, bit 1 the skew as the nearest integer of 2^-34, "
        "bit 2 without the offset, bit 3 the offset in 1/8 ns. 'swap': the inverse output must "
        "agree with a run whose two files are exchanged. Non-trivial: skew and offset are both "
        "non-zero and the setting is not 0.")
ASSUMPTIONS = ["offsets are compared within one unit of rounding",
               "swapped runs are compared within the precision of two results"]


@st.composite
def _flags(draw):
    c = draw(fpgen.scenario(big=False, skip=False, max_q=15, kmax=1))
    if draw(st.integers(0, 2)) == 0:   # large offset and skew: inversion matters
        c.update(q=16, R=1000, k=1, dt=draw(st.sampled_from([1, -1])) * draw(gen.wide(10 ** 7, 29 * 10 ** 6)),
                 df=draw(st.sampled_from([1, -1])) * draw(st.floats(1e-5, 4e-5)), N=640,
                 na=0, nb=0.5)
        c["C"] += 1 << 40
    pre = []
    if draw(st.integers(0, 4)) == 0:   # at the limits: offset x skew^2 is over a nanosecond
        c.update(q=16, R=4000, r=draw(st.sampled_from([1, 8])), k=1, N=640, na=0, nb=0,
                 dt=draw(st.sampled_from([1, -1])) * draw(st.floats(8e7, 0.95e8)),
                 df=draw(st.sampled_from([1, -1])) * draw(st.floats(1.1e-4, 1.2e-4)))
        c["C"] += 1 << 40
        start = c["df"] + draw(st.floats(-6e-6, 6e-6))
        pre = ["-P", "--precomp-ordered", f"--precomp-start={start!r}",
               f"--precomp-stop={start + 5e-6!r}", "--precomp-step=1e-5"]
    flags = draw(st.lists(st.integers(1, 15), min_size=2, max_size=4, unique=True))
    if pre and not set(flags) & {9, 11}:
        flags.append(9)
    return {"c": c, "flags": flags, "pre": pre}


def near(got, want, tol, what):
    if abs(got - want) > tol:
        raise Violation(f"{what}: printed {float(got):.12g}, should be {float(want):.12g}")


FLOAT = re.compile(r"^-?[0-9.]+(?:e[-+]?\d+)?$")
INT = re.compile(r"^-?\d+$")


def check_flags(case, env):
    d = env.newdir()
    c = case["c"]
    res = env.sut("fp_case", case=c, directory=d, cpu=200,
                  variants=[{"args": case["pre"]}]
                  + [{"args": case["pre"] + ["-V", str(v)]} for v in case["flags"]])
    base = fpgen.describe(res["runs"][0])
    df, dt = fpgen.parse(res["runs"][0], base)
    for v, run in zip(case["flags"], res["runs"][1:]):
        what = f"{fpgen.describe(run)} (plain result {float(df):.12g} {dt})"
        if run["exc"] or run["code"]:
            raise Violation(f"{what}: {run['exc'] or run['code']}")
        out = run["out"]
        if not out.endswith("\n") or out.count("\n") != 1:
            raise Violation(f"{what}: printed {out!r}")
        fields = out[:-1].split("\t")
        if len(fields) != (1 if v & 4 else 2):
            raise Violation(f"{what}: printed {len(fields)} fields: {out!r}")
        want = 1 / (1 + df) - 1 if v & 1 else df
        if v & 2:
            if not INT.match(fields[0]):
                raise Violation(f"{what}: skew {fields[0]!r} is not an integer")
            near(Fraction(fields[0]), want * (1 << 34), Fraction(1, 2) + Fraction(1, 10 ** 4), what)
        else:
            if not FLOAT.match(fields[0]):
                raise Violation(f"{what}: skew {fields[0]!r} is not a number")
            near(Fraction(fields[0]), want, abs(df) * Fraction(1, 10 ** 9) + Fraction(1, 10 ** 16), what)
        if not v & 4:
            if not INT.match(fields[1]):
                raise Violation(f"{what}: offset {fields[1]!r} is not an integer")
            wt = -dt / (1 + df) if v & 1 else dt
            unit = 8 if v & 8 else 1
            near(Fraction(fields[1]), wt * unit, Fraction(unit + 1, 2) + Fraction(1, 1000), what)


def classify_flags(case):
    c = case["c"]
    return c["df"] != 0 and c["dt"] != 0, [f"bit {i}" for i in range(4)
                                           if any(v >> i & 1 for v in case["flags"])] + ["at the limits"] * bool(case["pre"])


@st.composite
def _swap(draw):
    # inversion is visible where offset x skew is over many resolutions
    return {"q": 16, "R": 1000, "r": draw(st.sampled_from([1, 2, 4])), "k": 1,
            "s": draw(st.sampled_from([4.0, 6.0, 8.0])), "S": 6.0,
            "dt": draw(st.sampled_from([1, -1])) * draw(gen.wide(5 * 10 ** 6, 29 * 10 ** 6)),
            "df": draw(st.sampled_from([1, -1])) * draw(st.floats(1e-6, 4e-5)),
            "N": 640, "na": 0, "nb": draw(st.sampled_from([0, 0.5])), "jitter": 0.1,
            "C": draw(gen.wide(1 << 38, 1 << 50)), "skip": 0,
            "seed": draw(st.integers(0, (1 << 32) - 1))}


def check_swap(c, env):
    d = env.newdir()
    res = env.sut("fp_case", case=c, directory=d, cpu=200,
                  variants=[{"args": ["-V", "1"]}, {"swap": True}])
    inv, swp = res["runs"]
    what = fpgen.describe(inv)
    a, ta = fpgen.parse(inv, what)
    b, tb = fpgen.parse(swp, fpgen.describe(swp))
    tol_t, tol_f = fpgen.tolerances(c, "WARNING" in inv["err"] + swp["err"])
    env.count("warned" if "WARNING" in inv["err"] + swp["err"] else "refined")
    if abs(a - b) > 2 * tol_f or abs(ta - tb) > 2 * tol_t:
        raise Violation(f"{what}: inverse result {float(a):.6e} {ta}, exchanged files give "
                        f"{float(b):.6e} {tb} (true {c['df']:.6e} {res['facts']['dt']:.1f})")


def classify_swap(c):
    return abs(c["dt"] * c["df"]) > 20 * c["r"], []


PARTS = [Part("flags", _flags, check_flags, classify_flags, quick=250, thorough=6000),
         Part("swap", _swap, check_swap, classify_swap, quick=150, thorough=4000)]
