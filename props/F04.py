"""fpfind prints no result where there is none to be had."""
from hypothesis import strategies as st

from vf import fpgen, gen
from vf.client import Violation
from vf.core import Part

RULE = ("generated streams for which no result may be printed: without common detections under a "
        "threshold far above noise; with a skew of 1.3 to 3 times the limit of 2^-13 or an offset "
        "of 1.1 to 1.6 times the limit of 100 ms; too short for the second correlation; empty or "
        "missing on a side; epoch directories with a missing epoch. The command must fail and "
        "print nothing. 'edge': skews and offsets of 60 to 95 % of the limits must be found. "
        "Non-trivial: both sides hold at least 100 events.")
ASSUMPTIONS = ["offsets outside the searched range (bins x resolution) are not recognisable"]


def seed():
    return gen.wide(0, (1 << 32) - 1)


def sign():
    return st.sampled_from([1, -1])


@st.composite
def _none(draw):
    kind = draw(st.sampled_from(["uncorrelated", "skew", "offset", "short", "empty", "args",
                                 "epoch"]))
    q = draw(st.integers(14, 15))
    R = draw(st.sampled_from([16, 64, 256, 512]))
    c = {"kind": kind, "q": q, "R": R, "r": draw(st.sampled_from([1, 4])), "k": 1,
         "s": draw(st.sampled_from([3.0, 6.0])), "S": 6.0, "dt": 0.0, "df": 0.0, "N": 240,
         "na": 0, "nb": draw(st.sampled_from([0, 0.5])), "jitter": 0.1, "C": 1 << 40, "skip": 0,
         "seed": draw(seed()), "args": draw(st.sampled_from([[], ["-V", "2"], ["-V", "7"], ["-P"],
                                                             ["-P", "--precomp-fullscan"]]))}
    Ta = R * (1 << q)
    c["dt"] = draw(st.floats(-0.3, 0.3)) * min(Ta, 2e8)
    if kind == "uncorrelated":
        c["uncorrelated"] = 1
        c["S"] = draw(st.sampled_from([60.0, 200.0, 1000.0]))
        c["N"] = draw(st.sampled_from([240, 480]))
    elif kind == "skew":
        c["df"] = draw(sign()) * draw(st.floats(1.3, 3.0)) * fpgen.MAX_DF
        c["N"] = 640
        c["q"] = 14
        c["s"] = 20.0   # a first estimate precise enough to tell
        c["args"] = c["args"] if "-P" not in c["args"] else []
    elif kind == "offset":
        c.update(q=16, R=draw(st.sampled_from([5000, 6000, 8000])), N=480)
        c["dt"] = draw(sign()) * draw(st.floats(1.1, 1.6)) * fpgen.MAX_DT
        c["args"] = c["args"] if "-P" not in c["args"] else []
    elif kind == "short":
        f = draw(st.floats(0.02, 0.98)) * c["s"]
        side = draw(st.sampled_from(["a", "b"]))
        c["cut_" + side] = f * Ta
        c["dt"] = 0.0
        c["args"] = []
    elif kind == "empty":
        c["keep_" + draw(st.sampled_from(["a", "b"]))] = draw(st.sampled_from([0, 0, 1]))
    elif kind == "args":
        c["argv"] = draw(st.sampled_from([
            ["-t", "a"], ["-T", "b"], [], ["-t", "a", "-T", "missing"], ["-t", "missing", "-T", "b"],
            ["-d", "a"], ["-t", "a", "-D", "b"], ["-d", "missing", "-D", "missing"]]))
    else:
        c.update(q=14, R=512, first=draw(gen.wide(100, 1 << 30)), z=0, before=0, after=0,
                 phase=0, give_e=draw(st.booleans()), order=16)
        c["dt"] = 0.0
        c["hole"] = [c["first"] + draw(st.integers(0, 1))]
        if c["hole"][0] == c["first"]:
            c["give_e"] = True
    return c


def check_none(c, env):
    d = env.newdir()
    if c["kind"] == "epoch":
        run = env.sut("fp_epoch_case", case=c, directory=d, cpu=200)["runs"][0]
    else:
        res = env.sut("fp_raw_case", case=c, directory=d,
                      argv=c.get("argv", ["-t", "a", "-T", "b"]), cpu=300)
        run = res["run"]
    what = f"{fpgen.describe(run)} ({c['kind']}, df={c['df']:.2e}, dt={c['dt']:.0f})"
    if run["code"] == 0 and run["exc"] is None:
        raise Violation(f"{what}: exit 0, printed {run['out']!r}")
    if run["out"]:
        raise Violation(f"{what}: failed, yet printed {run['out']!r}")


def classify_none(c):
    return c["kind"] not in ("empty", "args"), [c["kind"]]


@st.composite
def _edge(draw):
    kind = draw(st.sampled_from(["skew", "offset", "both"]))
    c = {"q": 16, "R": draw(st.sampled_from([3200, 4000])), "r": draw(st.sampled_from([1, 4])),
         "k": 1, "s": draw(st.sampled_from([4.0, 6.0])), "S": 6.0,
         "dt": draw(sign()) * draw(st.floats(0.8, 0.95)) * fpgen.MAX_DT,
         "df": draw(sign()) * draw(st.floats(0, 2e-5)), "N": 960, "na": 0, "nb": 0,
         "jitter": 0.1, "C": 1 << 44, "skip": 0, "seed": draw(seed())}
    if kind == "skew":
        c.update(q=14, R=64, dt=draw(sign()) * draw(st.floats(1e4, 3e5)), N=480,
                 s=draw(st.sampled_from([20.0, 25.0])),
                 df=draw(sign()) * draw(st.floats(0.75, 0.9)) * fpgen.MAX_DF)
    elif kind == "both":
        c.update(q=15, R=8000, dt=draw(sign()) * draw(st.floats(0.8, 0.95)) * fpgen.MAX_DT,
                 df=draw(sign()) * draw(st.floats(0.6, 0.8)) * fpgen.MAX_DF, N=960)
    return c


def check_edge(c, env):
    d = env.newdir()
    res = env.sut("fp_case", case=c, directory=d, variants=[{}], cpu=200)
    run = res["runs"][0]
    what = fpgen.describe(run)
    df, dt = fpgen.parse(run, what)
    fpgen.judge(c, res["facts"], df, dt, "WARNING" in run["err"], what)


def classify_edge(c):
    return True, ["skew at limit" if abs(c["df"]) > 0.7 * fpgen.MAX_DF else "offset at limit"]


PARTS = [Part("none", _none, check_none, classify_none, quick=400, thorough=8000),
         Part("edge", _edge, check_edge, classify_edge, quick=80, thorough=2000)]
