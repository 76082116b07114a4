"""freqcd keeps correcting across roll-overs of the 54-bit time."""
from fractions import Fraction

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import Violation
from vf.core import Part
from props.C01 import offsets

RULE = ("event streams that run up to and past the largest 54-bit time, several times over in "
        "many cases, fed in pieces; input times, output times or both roll over. On the 54-bit "
        "circle every event must be its true time plus elapsed time x offset, within 2 units. "
        "'marathon': hundreds of roll-overs, at the widest offsets (two cases: 8500 of them, until the "
        "correction itself has rolled over). "
        "Non-trivial: the input rolls over with a correction above ten units.")
ASSUMPTIONS = ["successive pieces are less than half a roll-over apart"]

HALF = 1 << 53


def setup(env):
    env.data["freqcd"] = freqcd.build(env)


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["just before", "anywhere", "long"]))
    if kind == "just before":
        scale = draw(st.integers(8, 45))
        base = freqcd.MOD - draw(st.integers(1, 1 << scale))
        gap = st.integers(0, 1 << scale)
    elif kind == "anywhere":
        base = draw(gen.wide(0, ref.TS_MAX))
        gap = st.one_of(gen.wide(0, 1 << 51), gen.wide(0, 1 << 40))
    else:
        base = draw(gen.wide(0, ref.TS_MAX))
        gap = gen.wide(1 << 50, (1 << 51))
    batches = draw(st.lists(st.lists(gap, min_size=1, max_size=3), min_size=1, max_size=8))
    return {"base": base, "batches": batches, "f": draw(offsets(False)),
            "legacy": draw(st.booleans())}


def events(case):
    t, ev, cs, total = case["base"], [], [], 0
    for b in case["batches"]:
        for g in b:
            if ev:
                total += g
            ev.append(((t + total) % freqcd.MOD, 1 + len(ev) % 1023))
            cs.append(Fraction(total * case["f"], 1 << 34))
    return ev, cs, total


def check(case, env):
    ev, cs, total = events(case)
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    s = freqcd.Session(env.data["freqcd"], args, env.newdir())
    try:
        at = 0
        for b in case["batches"]:
            s.feed(data[at:at + 8 * len(b)])
            at += 8 * len(b)
        rc, out, err = s.finish()
    finally:
        s.kill()
    what = f"freqcd {' '.join(args)}"
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], cs, Fraction(2) if case["f"] else Fraction(0), what)


def classify(case):
    ev, cs, total = events(case)
    rolls = (case["base"] + total) // freqcd.MOD
    labels = [f"input rolls over {'not at all' if not rolls else 'once' if rolls == 1 else 'several times'}"]
    if any(not 0 <= t + c < freqcd.MOD for (t, _), c in zip(ev, cs)):
        labels.append("corrected time leaves the range")
    return rolls >= 1 and abs(cs[-1]) > 10, labels


@st.composite
def _edge(draw):
    f = draw(offsets(False).filter(bool))
    back = draw(st.integers(0, 1 << draw(st.integers(1, 33))))
    ts = sorted({freqcd.MOD - 1 - back, *(
        min(ref.TS_MAX, max(0, freqcd.MOD - 1 - draw(st.integers(0, back + 5)))) for _ in range(6))})
    return {"base": 0, "batches": [[0], *[[b - a] for a, b in zip([0] + ts, ts)]][:8],
            "f": f, "legacy": draw(st.booleans()), "ts": ts}


def check_edge(case, env):
    """One run from time zero to the very end of the range."""
    ev = [(0, 1)] + [(t, 2) for t in case["ts"]]
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    rc, out, err = freqcd.run(env.data["freqcd"], args, data, env.newdir())
    if rc:
        raise Violation(f"freqcd {args}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, case["f"]),
                   Fraction(2), f"freqcd {' '.join(args)}")


def classify_edge(case):
    over = case["ts"][-1] + Fraction(case["ts"][-1] * case["f"], 1 << 34) >= freqcd.MOD
    return True, ["corrected time leaves the range" if over else "stays in range"]


# ----------------------------------------------------------------- marathon

@st.composite
def _marathon(draw):
    return {"base": draw(gen.wide(0, ref.TS_MAX)),
            "n": draw(st.one_of(st.integers(150, 600), st.integers(150, 600), st.integers(600, 3000))),
            "gap": draw(gen.wide(1 << 52, (1 << 53) - (1 << 10))), "jitter": draw(gen.wide(1, 1 << 45)),
            "f": draw(st.one_of(offsets(False), gen.wide(1 << 20, freqcd.FMAX - 1),
                                gen.wide(1 - freqcd.FMAX, -(1 << 20)))),
            "legacy": draw(st.booleans())}


def runner(case):
    return dict(case, batches=[[case["gap"] - i * 7919 * case["jitter"] % (1 << 51)]
                               for i in range(case["n"])])


def classify_marathon(case):
    cs = events(runner(case))[1]
    return abs(cs[-1]) > 10, ["correction above 2^48"] * (abs(cs[-1]) > 1 << 48)


PARTS = [
    Part("marathon", _marathon, lambda c, env: check(runner(c), env), classify_marathon, quick=48,
         thorough=600, chunk=4, regressions=[
             {"base": 0, "n": 17000, "gap": (1 << 53) - 5000, "jitter": 1, "legacy": False,
              "f": f} for f in (freqcd.FMAX - 1, 1 - freqcd.FMAX)]),
    Part("roll", _case, check, classify, quick=5000, thorough=100000, regressions=[
        {"base": freqcd.MOD - 1000, "batches": [[0], [5000], [1 << 40]], "f": f, "legacy": x}
        for f in (1, 1000, -1000) for x in (False, True)]),
    Part("edge", _edge, check_edge, classify_edge, quick=3000, thorough=50000),
]
