"""Slicing and normalising event times."""
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("generated chronological lists in every numeric container: slicing keeps exactly the events "
        "from start on that lie within the duration, counted from start; normalising counts all "
        "sides from the latest first event plus the skipped time and drops what lies before, "
        "keeping (or, if asked, removing) the sides' relative shift; arguments stay as they were. "
        "Non-trivial: some events are kept and some dropped. 'large': the same with up to 2^16 "
        "events.")


@st.composite
def times(draw, log2, min_size=1, far=False):
    n = draw(st.integers(min_size, 15))
    base = draw(st.one_of(gen.wide(0, 1 << 20), gen.wide(0, 1 << 40),
                          # beyond 2^53 units, where a double would round
                          gen.wide(1 << 53, 3 << 52) if far else gen.wide(0, 1 << 52)))
    scale = draw(st.integers(1, 38))
    gaps = draw(st.lists(st.integers(0, 1 << scale), min_size=n, max_size=n))
    out, t = [], base
    for g in gaps:
        t += g
        out.append(t)
    return out


@st.composite
def _slice(draw):
    log2 = draw(st.sampled_from([0, 3, 8]))
    cont = draw(st.sampled_from(["longdouble", "longdouble", "float64", "int64"]))
    t = draw(times(log2))
    unit = 1 << log2
    grid = 1 if cont == "int64" else unit
    def point():
        near = st.sampled_from(t).flatmap(lambda v: st.integers(-2, 2).map(lambda d: v + d))
        return st.one_of(near, st.integers(0, t[-1] + 100))
    start = draw(st.one_of(st.none(), point(), st.just(0)))
    dur = draw(st.one_of(st.none(), point().map(lambda v: abs(v - (start if start is not None
                                                                   else t[0])))))
    # exact in a double: multiples of 1/256 below 2^53 units
    return {"t": t, "log2": log2, "cont": cont,
            "start": None if start is None else max(0, start), "dur": dur, "grid": grid}


def check_slice(case, env):
    unit = 1 << case["log2"]
    whole = case["cont"] == "int64"
    num = (lambda v: v >> case["log2"]) if whole else (lambda v: v / unit)
    exact = (lambda v: Fraction(v >> case["log2"])) if whole else (lambda v: Fraction(v, unit))
    start = None if case["start"] is None else num(case["start"])
    dur = None if case["dur"] is None else num(case["dur"])
    ts = [exact(v) for v in case["t"]]
    lo = ts[0] if start is None else Fraction(start)
    want = [t - lo for t in ts if t >= lo]
    if dur is not None:
        want = [t for t in want if t < Fraction(dur)]
    got = env.sut("xc_slice", units=case["t"], log2=case["log2"], cont=case["cont"], start=start,
                  duration=dur)
    what = f"slice from {start} for {dur} of {[float(t) for t in ts[:8]]}"
    if not got["same"]:
        raise Violation(f"{what}: the argument was modified")
    if ref.values(got["t"]) != want:
        raise Violation(f"{what}: {[float(v) for v in ref.values(got['t'])][:8]} "
                        f"({len(got['t']['v'])} events), should be {[float(v) for v in want][:8]} "
                        f"({len(want)})")


def classify_slice(case):
    n = len(case["t"])
    lo = case["t"][0] if case["start"] is None else case["start"]
    kept = [t for t in case["t"] if t >= lo and (case["dur"] is None or t - lo < case["dur"])]
    return 0 < len(kept) < n, [case["cont"], "nothing left" if not kept else "some left"]


@st.composite
def _norm(draw):
    log2 = draw(st.sampled_from([0, 3, 8]))
    cont = draw(st.sampled_from(["longdouble", "longdouble", "float64"]))
    arrays = [draw(times(log2, far=cont == "longdouble"))
              for _ in range(draw(st.sampled_from([2, 2, 2, 1, 3])))]
    if draw(st.booleans()):     # close together, as streams of one session are
        base = arrays[0][0]
        arrays = [[v - a[0] + base + i * 1000 for v in a] for i, a in enumerate(arrays)]
    return {"arrays": arrays, "log2": log2, "cont": cont,
            # in seconds; exact: multiples of 2^-9 s are whole nanosecond quarters
            "skip": draw(st.sampled_from([None, 0, 0, 0.5, 1.0, 2.0, 100.0, 1 / 512])),
            "preserve": draw(st.sampled_from([None, True, False]))}


def check_norm(case, env):
    unit = 1 << case["log2"]
    T = [[Fraction(v, unit) for v in a] for a in case["arrays"]]
    if case["preserve"] is False:
        T = [[v - a[0] for v in a] for a in T]
    start = max(a[0] for a in T) + Fraction(case["skip"] or 0) * 10 ** 9
    want = [[v - start for v in a if v >= start] for a in T]
    got = env.sut("xc_normalize", arrays=case["arrays"], log2=case["log2"], cont=case["cont"],
                  skip=case["skip"], preserve=case["preserve"])
    what = f"normalise, skip {case['skip']}, preserve {case['preserve']}"
    if not got["same"]:
        raise Violation(f"{what}: an argument was modified")
    if got["n"] != len(T):
        raise Violation(f"{what}: {got['n']} arrays for {len(T)}")
    for i, (g, w) in enumerate(zip(got["t"], want)):
        if ref.values(g) != w:
            raise Violation(f"{what}: array {i}: {[float(v) for v in ref.values(g)][:6]}, "
                            f"should be {[float(v) for v in w][:6]}")


def classify_norm(case):
    unit = 1 << case["log2"]
    start = max(a[0] for a in case["arrays"]) + (case["skip"] or 0) * 10 ** 9 * unit
    flat = [v >= start for a in case["arrays"] for v in a]
    return any(flat) and not all(flat), [f"{len(case['arrays'])} sides", case["cont"],
                                         "skip" if case["skip"] else "no skip"]


# ---------------------------------------------------------------- many events

@st.composite
def _large(draw):
    c = {"log2": draw(st.sampled_from([0, 3, 8])), "room": draw(st.integers(30, 52)),
         "cont": draw(st.sampled_from(["longdouble", "longdouble", "float64"])),
         "what": draw(st.sampled_from(["slice", "normalize"]))}
    if c["what"] == "slice":
        point = st.tuples(st.floats(0, 1), st.integers(-2, 2)).map(list)
        c.update(bulk=[draw(gen.bulk(16))], start=draw(st.one_of(st.none(), point)),
                 dur=draw(st.one_of(st.none(), point)))
    else:
        c.update(bulk=[draw(gen.bulk(15)), draw(gen.bulk(15))],
                 base=[draw(gen.wide(0, 1 << 30)), draw(gen.wide(0, 1 << 30))],
                 skip=draw(st.sampled_from([None, 0, 1 / 512, 0.5])),
                 preserve=draw(st.sampled_from([None, True, False])))
    return c


def check_large(case, env):
    ts = [gen.bulk_ts(b, 1 << case["room"]) for b in case["bulk"]]
    if case["what"] == "normalize":
        check_norm(dict(case, arrays=[[t + b for t in a] for a, b in zip(ts, case["base"])]), env)
        return
    t = ts[0]
    def at(p):
        return None if p is None else max(0, t[min(len(t) - 1, int(p[0] * len(t)))] + p[1])
    start, dur = at(case["start"]), at(case["dur"])
    if dur is not None:
        dur = abs(dur - (t[0] if start is None else start))
    check_slice(dict(case, t=t, start=start, dur=dur), env)


def classify_large(case):
    return True, [f"{case['what']} 2^{max(b['n'] for b in case['bulk']).bit_length() - 1} or more"]


PARTS = [Part("slice", _slice, check_slice, classify_slice, quick=5000, thorough=80000),
         Part("normalize", _norm, check_norm, classify_norm, quick=4000, thorough=60000),
         Part("large", _large, check_large, classify_large, quick=48, thorough=800, chunk=10)]
