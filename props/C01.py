"""freqcd scales event times by the given frequency offset."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("generated chronological events (gaps from one unit to hours, flag bits, both word "
        "orders) and offsets over the whole admitted range, in either unit, through the compiled "
        "program by standard streams or named files; each event must come out once, in order, "
        "bits beside the time untouched, its time moved by elapsed time x offset within 2 units "
        "of 4 ps (exactly, for offset 0). 'inverse' undoes an offset with a second run. "
        "Non-trivial: at least two events whose correction exceeds the tolerance tenfold.")
ASSUMPTIONS = ["events are chronological and span less than one roll-over"]

TOL = Fraction(2)


def setup(env):
    env.data["freqcd"] = freqcd.build(env)


def offsets(decimal):
    m = 1220703 if decimal else freqcd.FMAX - 1
    return st.one_of(gen.wide(-m, m), st.sampled_from([0, 1, -1, m, -m, m - 1, 1 - m]),
                     st.integers(-2000, 2000))


@st.composite
def chronological(draw, min_size=0, max_size=40, top=ref.TS_MAX):
    n = draw(st.integers(min_size, max_size))
    scale = draw(st.integers(0, 50))
    gap = st.one_of(st.integers(0, (1 << scale) - 1), st.integers(0, 5000), st.just(0),
                    gen.wide(0, 1 << 30))
    gaps = draw(st.lists(gap, min_size=max(0, n - 1), max_size=max(0, n - 1)))
    base = draw(st.one_of(st.just(0), gen.wide(0, top), gen.wide(0, 1 << 40)))
    total = sum(gaps)
    if total > top:
        gaps = [g * top // (total + 1) for g in gaps]
        total = sum(gaps)
    base = min(base, top - total)
    out, t = [], base
    for i in range(n):
        out.append(t)
        if i < n - 1:
            t += gaps[i]
    return out


@st.composite
def _case(draw):
    decimal = draw(st.booleans())
    ts = draw(chronological())
    ps = draw(st.lists(gen.low10(), min_size=len(ts), max_size=len(ts)))
    return {"events": [[t, p] for t, p in zip(ts, ps)], "f": draw(offsets(decimal)),
            "decimal": decimal, "legacy": draw(st.booleans()),
            "named_in": draw(st.sampled_from([False, False, True])),
            "named_out": draw(st.sampled_from([False, False, True])),
            "joined": draw(st.booleans()),
            "give_f": draw(st.sampled_from([True, True, True, False])),
            "tail": draw(st.sampled_from([0, 0, 0, 1, 4, 7]))}


def flags(case, d):
    """Command line for a case, options in a generated arrangement."""
    f = str(case["f"])
    args = []
    if case["give_f"]:
        args += ["-f" + f] if case["joined"] else ["-f", f]
    if case["decimal"]:
        args += ["-d"]
    if case["legacy"]:
        args += ["-x"]
    if case["joined"] and case["legacy"] and case["decimal"]:
        args = ["-xd"] + (["-f", f] if case["give_f"] else [])
    return args


def check(case, env):
    d = env.newdir()
    ev = [tuple(e) for e in case["events"]]
    data = ref.encode_events(ev, "a1", case["legacy"])
    feed = data + b"\xa5" * case["tail"]
    args = flags(case, d)
    if case["named_in"]:
        with open(os.path.join(d, "events.in"), "wb") as f:
            f.write(feed)
        args = ["-i", "events.in"] + args
        feed = b""
    if case["named_out"]:
        with open(os.path.join(d, "events.out"), "wb") as f:
            f.write(b"\xff" * 1000)
        args += ["-o", "events.out"]
    rc, out, err = freqcd.run(env.data["freqcd"], args, feed, d)
    what = f"freqcd {' '.join(args)}"
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    if case["named_out"]:
        if out:
            raise Violation(f"{what}: {len(out)} bytes on standard output")
        with open(os.path.join(d, "events.out"), "rb") as f:
            out = f.read()
    if case["named_in"]:
        with open(os.path.join(d, "events.in"), "rb") as f:
            if f.read() != data + b"\xa5" * case["tail"]:
                raise Violation(f"{what}: the input file was modified")
    judge(out, ev, case, what)


def judge(out, ev, case, what, extra=0):
    f = case["f"] if case["give_f"] else 0
    if case["decimal"]:
        exact = Fraction(f * (1 << 34), 10 ** 10)
        # the offset itself is rounded to a unit of 2^-34
        t0 = ev[0][0] if ev else 0
        tol = [(TOL if f else 0) + (Fraction(t - t0, 1 << 34) if f else 0) + extra
               for t, _ in ev]
    else:
        exact = Fraction(f)
        tol = (TOL if f else Fraction(0)) + extra
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, exact), tol, what)


def classify(case):
    ev = case["events"]
    f = case["f"] * (1.7 if case["decimal"] else 1) if case["give_f"] else 0
    big = len(ev) >= 2 and abs(f) * (ev[-1][0] - ev[0][0]) > 20 << 34
    labels = ["decimal" if case["decimal"] else "binary", "legacy" if case["legacy"] else "plain",
              "offset zero" if not f else "offset positive" if f > 0 else "offset negative"]
    if case["named_in"]:
        labels.append("named input")
    if case["named_out"]:
        labels.append("named output")
    if len(ev) >= 2 and ev[-1][0] - ev[0][0] > 1 << 53:
        labels.append("spans half the range")
    return big, labels


@st.composite
def _inverse(draw):
    ts = draw(chronological(min_size=2, top=(1 << 53) - 1))
    f = draw(offsets(False))
    f = max(-freqcd.FMAX + 400, min(freqcd.FMAX - 400, f))   # the inverse is in range, too
    return {"ts": ts, "f": f, "legacy": draw(st.booleans())}


def check_inverse(case, env):
    """(1 + f)(1 + g) = 1: the second run restores the first one's input."""
    d = env.newdir()
    f = case["f"]
    g = round(Fraction(-f * (1 << 34), (1 << 34) + f))
    x = ["-x"] * case["legacy"]
    ev = [(t, 1) for t in case["ts"]]
    data = ref.encode_events(ev, "a1", case["legacy"])
    for off in (f, g):
        rc, data, err = freqcd.run(env.data["freqcd"], x + ["-f", str(off)], data, d)
        if rc:
            raise Violation(f"freqcd -f {off}: exit {rc}, {err[-300:]}")
    t0 = case["ts"][0]
    tol = [5 + Fraction(2 * abs(t - t0), 1 << 34) for t in case["ts"]]
    freqcd.compare(data, ev, case["legacy"], [0] * len(ev), tol,
                   f"freqcd -f {f} followed by -f {g}")


def classify_inverse(case):
    return abs(case["f"]) * (case["ts"][-1] - case["ts"][0]) > 20 << 34, []


@st.composite
def _long(draw):
    n = draw(st.sampled_from([1023, 1024, 1025, 2048, 2049, 5000]))
    return {"n": n, "base": draw(gen.wide(0, 1 << 52)), "step": draw(gen.wide(0, 1 << 36)),
            "f": draw(offsets(False)), "legacy": draw(st.booleans()), "decimal": False,
            "give_f": True}


def check_long(case, env):
    d = env.newdir()
    ev = [(case["base"] + i * case["step"] + (i * i) % 101, i % 1024) for i in range(case["n"])]
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    rc, out, err = freqcd.run(env.data["freqcd"], args,
                              ref.encode_events(ev, "a1", case["legacy"]), d)
    if rc:
        raise Violation(f"freqcd {args}: exit {rc}, {err[-300:]}")
    judge(out, ev, case, f"freqcd {' '.join(args)} on {len(ev)} events")


def classify_long(case):
    return abs(case["f"]) * case["step"] * case["n"] > 20 << 34, [f"{case['n']} events"]


@st.composite
def _stream(draw):
    n = draw(st.sampled_from([20_000, 60_000, 131_073, 200_000]))
    step = draw(st.one_of(gen.wide(0, (1 << 53) // n), gen.wide(1, 1 << 14),
                          gen.wide(1, 1 << 28)))
    return {"n": n, "base": draw(gen.wide(0, 1 << 52)), "step": step,
            "f": draw(offsets(False)), "legacy": draw(st.booleans()), "decimal": False,
            "give_f": True}


PARTS = [
    Part("static", _case, check, classify, quick=16000, thorough=300000),
    Part("inverse", _inverse, check_inverse, classify_inverse, quick=2500, thorough=40000),
    Part("long", _long, check_long, classify_long, quick=600, thorough=10000),
    Part("stream", _stream, check_long, classify_long, quick=24, thorough=500, chunk=6),
]
