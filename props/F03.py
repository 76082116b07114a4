"""fpfind's result does not depend on how the same events are presented."""
from hypothesis import strategies as st

from vf import fpgen, gen
from vf.client import Violation
from vf.core import Part

RULE = ("metamorphic: generated solvable scenarios are run as they are and again with all times "
        "of both sides shifted alike, in the other word order, with unrelated events after the "
        "needed duration, with log file and verbosity, repeated, with options from a saved "
        "configuration file (named, found by its default name, or partly overridden); the printed result must be the same text. 'epochs': the same events "
        "as T2/T1 epoch directories (first epoch given or found, epochs to skip, further epochs "
        "before and after, across a wrap of the 17-bit epoch, events anywhere in the first epoch, "
        "also starting late in it) and as raw files of exactly those "
        "epochs. Non-trivial: the result has a non-zero skew and offset.")
ASSUMPTIONS = ["reference events are multiples of 1/8 ns in the epoch comparison, as T2 files "
               "hold no finer times"]

KINDS = ["shift", "legacy", "more", "log", "again", "config", "config"]


@st.composite
def _same(draw):
    c = draw(fpgen.scenario(big=False, max_q=15))
    return {"c": c, "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=3,
                                           unique=True)),
            "how": draw(st.sampled_from(["named", "default", "overridden"])), "shift": draw(st.one_of(gen.wide(0, 1 << 20), gen.wide(0, 1 << 53))),
            "v": draw(st.sampled_from(["-v", "-vv", "-vvv"]))}


def variant(kind, case):
    if kind == "shift":
        # stay within 54 bits
        c = case["c"]
        room = (1 << 54) - 1 - c["C"] - (1 << 45)
        return {"shift": min(case["shift"], max(0, room))}
    if kind == "legacy":
        return {"legacy": True}
    if kind == "more":
        return {"more": 700}
    if kind == "log":
        return {"args": ["-L", "log.txt", case["v"]]}
    if kind == "config":
        return {"config": case["how"]}
    return {}


def same(base, run, what):
    if run["exc"] or run["code"] or run["out"] != base["out"]:
        raise Violation(f"{what}: printed {run['out']!r} {run['exc'] or ''} exit {run['code']}, "
                        f"but {base['out']!r} without that change")


def check_same(case, env):
    d = env.newdir()
    res = env.sut("fp_case", case=case["c"], directory=d, cpu=200,
                  variants=[{}] + [variant(k, case) for k in case["kinds"]])
    base = res["runs"][0]
    fpgen.parse(base, fpgen.describe(base))
    for k, run in zip(case["kinds"], res["runs"][1:]):
        same(base, run, f"{fpgen.describe(run)} ({k})")


def classify_same(case):
    return case["c"]["df"] != 0 and case["c"]["dt"] != 0, case["kinds"]


@st.composite
def _epochs(draw):
    q, R = draw(st.sampled_from([(14, 512), (14, 1000), (15, 512), (14, 2000), (15, 1000),
                                 (15, 4000), (14, 8000), (16, 4000)]))
    Ta = R * (1 << q)
    s = draw(st.sampled_from([3.0, 6.0, 10.0, 20.0, 40.0]))
    z = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    first = draw(st.one_of(gen.wide(16, (1 << 32) - 40),
                           st.builds(lambda k, d: (k << 17) - d, gen.wide(1, (1 << 15) - 1),
                                     st.integers(0, 3))))
    before = draw(st.sampled_from([0, 0, 1, 2]))
    give_e = draw(st.booleans()) or before > 0
    w = draw(st.sampled_from([0.0, 0.5, 1.0]))
    phase = draw(st.one_of(gen.wide(-(1 << 34), 1 << 30), gen.wide(0, 1 << 37)))
    if draw(st.integers(0, 2)) == 0:
        # starts late in its epoch, needing most of the last one
        z = before = 0
        phase = draw(gen.wide(3 << 35, 1 << 37))
        s = round(max(3.0, draw(st.floats(0.8, 1.0)) * (1 << 29) / Ta - 1), 2)
    return {"q": q, "R": R, "r": draw(st.sampled_from([1, 4])), "k": 1, "s": s, "S": 6.0,
            "dt": draw(st.floats(-0.3, 0.3)) * Ta, "df": draw(st.sampled_from([1, -1])) * w * R / Ta,
            "N": 160, "na": 0, "nb": draw(st.sampled_from([0, 0.5])), "jitter": 0.1,
            "phase": phase,
            "first": first, "z": z, "before": before, "after": draw(st.sampled_from([0, 1, 2])),
            "give_e": give_e, "order": draw(st.sampled_from([8, 16, 21])), "hole": [],
            "seed": draw(st.integers(0, (1 << 32) - 1))}


def check_epochs(case, env):
    d = env.newdir()
    res = env.sut("fp_epoch_case", case=case, directory=d, cpu=200)
    ep, raw = res["runs"]
    what = fpgen.describe(ep) + f" ({res['epochs']} epochs from {case['first'] + case['z']:#x})"
    if raw["exc"] and raw["exc"][1] == "No peak found!":
        env.count("no peak in either")
        if ep["exc"] is None:
            raise Violation(f"{what}: printed {ep['out']!r}, raw files give no peak")
        return
    df, dt = fpgen.parse(raw, fpgen.describe(raw))
    env.count("peak found")
    if ep["exc"] or ep["code"] or ep["out"] != raw["out"]:
        raise Violation(f"{what}: printed {ep['out']!r} {ep['exc'] or ''}, but {raw['out']!r} "
                        f"from raw files with the same events")


def classify_epochs(case):
    lo = case["first"]
    labels = ["first epoch given" if case["give_e"] else "first epoch found",
              f"skip {case['z']}", f"{int((case['s'] + 1) * case['R'] * (1 << case['q'])) >> 29} whole epochs or more", f"{case['before']} before", f"{case['after']} after"]
    if lo >> 17 != (lo + case["z"] + 1) >> 17:
        labels.append("crosses a wrap")
    return case["df"] != 0, labels


PARTS = [Part("same", _same, check_same, classify_same, quick=250, thorough=6000),
         Part("epochs", _epochs, check_epochs, classify_epochs, quick=160, thorough=2500)]
