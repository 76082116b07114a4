"""fpfind's answer, given to freqcd, removes the skew."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import fpgen, freqcd
from vf.client import Violation
from vf.core import Part

RULE = ("generated solvable scenarios: the skew fpfind prints in 2^-34 units is handed to freqcd, "
        "inverted for the target's stream or as it is for the reference's; the corrected stream "
        "and the other side go through fpfind again. The skew left must be within fpfind's own "
        "precision, and the second result must be the true remaining skew and offset. "
        "Non-trivial: the skew removed is over ten times that precision.")
ASSUMPTIONS = ["the same admissible scenarios as for the recovery property"]


def setup(env):
    env.data["freqcd"] = freqcd.build(env)


@st.composite
def _case(draw):
    c = draw(fpgen.scenario(big=False, skip=False, max_q=16))
    return {"c": c, "side": draw(st.sampled_from(["target", "reference"])),
            "legacy": draw(st.booleans())}


def check(case, env):
    d = env.newdir()
    c = case["c"]
    tgt = case["side"] == "target"
    res = env.sut("fp_case", case=c, directory=d, cpu=200,
                  variants=[{"args": ["-V", "3" if tgt else "2"], "legacy": case["legacy"]}])
    run = res["runs"][0]
    what = fpgen.describe(run)
    f, _ = fpgen.parse(run, what)
    if f.denominator != 1:
        raise Violation(f"{what}: printed {run['out']!r}, not a whole skew")
    src, dst = ("b0", "b1") if tgt else ("a0", "a1")
    rc, out, err = freqcd.run(env.data["freqcd"],
                              ["-i", src, "-o", dst, "-f", str(f)] + ["-x"] * case["legacy"],
                              b"", d)
    if rc:
        raise Violation(f"{what}: freqcd -f {f}: exit {rc}: {err[-200:]}")
    first = res["facts"]["first_b" if tgt else "first_a"] - c["C"]
    g = Fraction(int(f), 1 << 34)
    df, dt, first = Fraction(c["df"]), Fraction(c["dt"]), Fraction(first, 256)
    if tgt:
        left, dt2 = (1 + g) * (1 + df) - 1, dt * (1 + g) - g * first
    else:
        left = (1 + df) / (1 + g) - 1
        dt2 = dt + first * (1 + df) - first * (1 + left)
    warned = "WARNING" in run["err"]
    tol_t, tol_f = fpgen.tolerances(c, warned)
    if abs(left) > tol_f + 2.0 ** -34:
        raise Violation(f"{what}: skew {c['df']:.4e}, freqcd -f {f} on the {case['side']} leaves "
                        f"{float(left):.4e} (precision {tol_f:.1e})")
    argv = ["fpfind", "-t", "a0" if tgt else "a1", "-T", "b1" if tgt else "b0"] + \
        run["argv"][4:run["argv"].index("-V")]
    again = env.sut("run_main", module="fpfind.fpfind", argv=argv, cwd=d, cpu=200)
    what2 = " ".join(argv) + f" after freqcd -f {f} on the {case['side']}"
    df2, dt2_got = fpgen.parse(again, what2)
    env.count("warned" if warned else "refined")
    # both streams may start a little elsewhere: read their first events
    start = max(first_event(os.path.join(d, argv[2]), case["legacy"]),
                first_event(os.path.join(d, argv[4]), case["legacy"]))
    c2 = dict(c, df=float(left), dt=float(dt2), jitter=c["jitter"] + 0.02)
    facts = {"dt": float(dt2 + Fraction(start - c["C"], 256) * left)}
    fpgen.judge(c2, facts, df2, dt2_got, "WARNING" in again["err"], what2)


def first_event(path, legacy):
    from vf import ref
    with open(path, "rb") as f:
        return ref.decode_events(f.read(8), "a1", legacy)[0][0]


def classify(case):
    c = case["c"]
    return abs(c["df"]) > 10 * c["r"] / (c["s"] * c["k"] * c["R"] * (1 << c["q"])), [
        case["side"], "legacy" if case["legacy"] else "plain"]


PARTS = [Part("loop", _case, check, classify, quick=300, thorough=8000)]
