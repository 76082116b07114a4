"""Written raw timestamp files encode exactly the events given."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("'write': generated events, handed over in every container and unit callers use (long "
        "doubles, doubles, integer arrays, lists; 1 ns, 125 ps, 4 ps units), are written in every "
        "format and the bytes compared with the specification's encoding. 'rewrite': a generated "
        "file is read and written back in any other format; the bytes must be the specified "
        "encoding of the same events (whole-unit readings drop what is below the unit). 'large': "
        "the same with 255 to 130 000 events. "
        "Non-trivial: at least two events and one timestamp of 2^32 units or more.")
ASSUMPTIONS = ["event times representable in the container used to hand them over"]


@st.composite
def _case(draw):
    f, legacy = draw(gen.fmt())
    res = draw(st.sampled_from(gen.RES))
    tcont = draw(st.sampled_from(
        ["longdouble", "longdouble", "uint64", "int64", "float64", "list", "object"]))
    ev = draw(gen.events(max_size=25, flags=False))
    step = 1 << ref.SHIFT[res]
    if tcont in ("uint64", "int64", "list", "object"):
        ev = [[t - t % step, p] for t, p in ev]
    elif tcont == "float64":
        ev = [[t & ((1 << 53) - 1), p] for t, p in ev]
    return {"fmt": f, "legacy": legacy, "res": res, "tcont": tcont,
            "pcont": draw(st.sampled_from(["uint32", "int64", "uint8", "uint64", "list"])),
            "events": ev}


def check(case, env):
    path = os.path.join(env.newdir(), "out.dat")
    if len(case["events"]) % 3 == 0:
        with open(path, "wb") as f:   # an older, longer file in the way
            f.write(b"\xff" * 2000)
    ev = case["events"]
    got = env.sut("ts_write", fmt=case["fmt"], path=path, t=[e[0] for e in ev],
                  p=[e[1] for e in ev], legacy=case["legacy"], res=case["res"],
                  tcont=case["tcont"], pcont=case["pcont"])
    want = ref.encode_events(ev, case["fmt"], bool(case["legacy"]))
    if got["bytes"] != want:
        raise Violation(_diff(got["bytes"], want, case["fmt"], bool(case["legacy"])))
    if not got["inputs_unchanged"]:
        raise Violation("the caller's arrays were modified")


def _diff(got, want, fmt, legacy):
    try:
        g = ref.decode_events(got, fmt, legacy)
    except Exception as e:
        return f"{fmt}: file of {len(got)} bytes does not decode ({e}); {len(want)} expected"
    w = ref.decode_events(want, fmt, legacy)
    for i, (a, b) in enumerate(zip(g, w)):
        if a != b:
            return f"{fmt}: event {i} written as {a}, should be {b}"
    return f"{fmt}: {len(g)} events ({len(got)} bytes) written, {len(w)} ({len(want)} bytes) given"


def classify(case):
    ts = [e[0] for e in case["events"]]
    labels = [f"{case['fmt']}{'X' if case['legacy'] else ''}",
              f"{case.get('res')}/{case.get('tcont', case.get('fractional'))}"]
    if not ts:
        labels.append("no events")
    if any(t >= 1 << 53 for t in ts):
        labels.append("timestamp beyond 53 bits")
    return len(ts) >= 2 and max(ts) >= 1 << 32, labels


@st.composite
def _rewrite(draw):
    f, legacy = draw(gen.fmt())
    g, glegacy = draw(gen.fmt())
    return {"fmt": f, "legacy": legacy, "dst": g, "dst_legacy": glegacy,
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "events": draw(gen.events(max_size=25))}


def check_rewrite(case, env):
    d = env.newdir()
    src, dst = os.path.join(d, "in.dat"), os.path.join(d, "out.dat")
    ev = case["events"]
    with open(src, "wb") as f:
        f.write(ref.encode_events(ev, case["fmt"], bool(case["legacy"])))
    got = env.sut("ts_rewrite", src_fmt=case["fmt"], src=src, src_legacy=case["legacy"],
                  dst_fmt=case["dst"], dst=dst, dst_legacy=case["dst_legacy"],
                  res=case["res"], fractional=case["fractional"])
    s = 0 if case["fractional"] else ref.SHIFT[case["res"]]
    want = ref.encode_events([((t >> s) << s, p & 15) for t, p in ev],
                             case["dst"], bool(case["dst_legacy"]))
    if got != want:
        raise Violation(_diff(got, want, case["dst"], bool(case["dst_legacy"])))


@st.composite
def _large(draw):
    c = dict(draw(_rewrite()), events=[])
    if c["dst"] == "a1" and c["fmt"] == "a1" and draw(st.booleans()):
        return dict(c, bulk=draw(gen.bulk(17)))
    return dict(c, bulk=draw(gen.bulk(15)))


def check_large(case, env):
    check_rewrite(dict(case, events=gen.bulk_events(case["bulk"])), env)


def classify_large(case):
    return True, [f"2^{case['bulk']['n'].bit_length() - 1} events or more"]


_E = [[1, 1], [(1 << 53) + 1, 2], [(1 << 54) - 1, 15]]
PARTS = [
    Part("write", _case, check, classify, quick=10000, thorough=150000, regressions=[
        {"fmt": f, "legacy": False, "res": "PS4", "tcont": "uint64", "pcont": "uint32",
         "events": _E} for f in ("a0", "a1", "a2")]),
    Part("rewrite", _rewrite, check_rewrite, classify, quick=8000, thorough=120000, regressions=[
        {"fmt": f, "legacy": False, "dst": g, "dst_legacy": True, "res": "NS1",
         "fractional": True, "events": _E} for f in ("a0", "a1", "a2") for g in ("a0", "a1", "a2")]),
    Part("large", _large, check_large, classify_large, quick=60, thorough=1000, chunk=10),
]
