"""Raw timestamp files decode to exactly the events they hold."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("A file image in one of the three raw formats (a0, a1, a2; a1 in both word orders) is "
        "built byte by byte from generated events and read at every resolution, whole or "
        "fractional; readings are compared exactly with the specification's decoding. "
        "'large': files of 255 to 130 000 events, sizes around powers of two. Text also in capitals and without the last newline. 'cut': binary files "
        "that end inside an event: refused, or exactly the complete events. Non-trivial: at least two events and at least one timestamp of "
        "2^32 units or more.")
ASSUMPTIONS = ["80-bit long doubles (x86-64), as the library requires for 54-bit precision"]


@st.composite
def _case(draw):
    f, legacy = draw(gen.fmt())
    ev = draw(gen.events(max_size=30))
    return {"fmt": f, "legacy": legacy, "events": ev,
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "style": draw(gen.style(f))}


def compare(got, ev, res, fractional, what):
    t, p = got["t"], got["p"]
    want_t = ref.expected_times([e[0] for e in ev], res, fractional)
    want_p = [e[1] & 15 for e in ev]
    have_t, have_p = ref.values(t), ref.values(p)
    if len(have_t) != len(ev) or len(have_p) != len(ev):
        raise Violation(f"{what}: {len(ev)} events in the file, {len(have_t)} times and "
                        f"{len(have_p)} patterns read")
    if ev and not fractional and t["kind"] != "int":
        raise Violation(f"{what}: whole units asked for, got {t['dtype']}")
    for i, (a, b) in enumerate(zip(have_t, want_t)):
        if a != b:
            raise Violation(f"{what}: event {i}: time {a} read, {b} stored")
    for i, (a, b) in enumerate(zip(have_p, want_p)):
        if a != b:
            raise Violation(f"{what}: event {i}: pattern {a} read, {b} stored")


@st.composite
def _large(draw):
    f, legacy = draw(gen.fmt())
    return {"fmt": f, "legacy": legacy, "bulk": draw(gen.bulk(17 if f == "a1" else 16)),
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans())}


def check_large(case, env):
    check(dict(case, events=gen.bulk_events(case["bulk"])), env)


def classify_large(case):
    return True, [f"2^{case['bulk']['n'].bit_length() - 1} events or more"]


def check(case, env):
    path = os.path.join(env.newdir(), "in.dat")
    with open(path, "wb") as f:
        f.write(ref.styled(ref.encode_events(case["events"], case["fmt"], bool(case["legacy"])),
                           case.get("style")))
    got = env.sut("ts_read", fmt=case["fmt"], path=path, legacy=case["legacy"],
                  res=case["res"], fractional=case["fractional"])
    compare(got, case["events"], case["res"], case["fractional"], case["fmt"])


def classify(case):
    ts = [e[0] for e in case["events"]]
    labels = [f"{case['fmt']}{'X' if case['legacy'] else ''}",
              f"{case['res']}/{'fractional' if case['fractional'] else 'whole'}"]
    if case.get("style"):
        labels.append("text " + case["style"])
    if not ts:
        labels.append("empty file")
    if len(ts) == 1:
        labels.append("one event")
    if any(t >= 1 << 53 for t in ts):
        labels.append("timestamp beyond 53 bits")
    if any(e[1] > 15 for e in case["events"]):
        labels.append("flag bits set")
    return len(ts) >= 2 and max(ts) >= 1 << 32, labels


@st.composite
def _cut(draw):
    ev = draw(gen.events(min_size=1, max_size=12))
    return {"legacy": draw(st.sampled_from([None, False, True])), "events": ev,
            "cut": draw(st.integers(1, 7)), "res": draw(st.sampled_from(gen.RES)),
            "fractional": draw(st.booleans()), "buffer": draw(st.integers(1, len(ev) + 1))}


def refused(got):
    if got[1] in ("CpuBudgetExceeded", "InterpreterDied", "MemoryError"):
        raise Violation(f"a1 cut inside an event: {got[1]}: {got[2]}")


def check_cut(case, env):
    """A binary file that ends inside an event."""
    path = os.path.join(env.newdir(), "in.dat")
    with open(path, "wb") as f:
        f.write(ref.encode_events(case["events"], "a1", bool(case["legacy"]))[:-case["cut"]])
    whole = case["events"][:-1]
    args = {"fmt": "a1", "path": path, "legacy": case["legacy"], "res": case["res"],
            "fractional": case["fractional"]}
    got = env.try_sut("ts_read", **args)
    if got[0] == "ok":
        env.count("complete events read")
        compare(got[1], whole, case["res"], case["fractional"], "a1 cut inside an event")
    else:
        refused(got)
        env.count("refused")
    got = env.try_sut("ts_sread", buffer_size=case["buffer"], **args)
    if got[0] == "ok":
        at = 0
        for b in got[1]["batches"]:
            k = len(b["t"]["v"])
            compare(b, whole[at:at + k], case["res"], case["fractional"],
                    "a1 cut inside an event, streamed")
            at += k
        if at != len(whole):
            raise Violation(f"a1 cut inside an event: {at} events streamed, {len(whole)} complete")
    else:
        refused(got)


_R = [
    {"fmt": f, "legacy": None, "events": ev, "res": r, "fractional": fr}
    for f in ("a0", "a1", "a2") for r, fr in (("PS4", False), ("NS1", True))
    for ev in ([], [[5, 1]], [[1, 1], [(1 << 53) + 1, 2], [(1 << 54) - 1, 15]],
               [[1 << 53, 0], [(1 << 53) + 1, 3]])
]
PARTS = [Part("decode", _case, check, classify, quick=16000, thorough=240000, regressions=_R),
         Part("large", _large, check_large, classify_large, quick=80, thorough=1200, chunk=10),
         Part("cut", _cut, check_cut, lambda c: (len(c["events"]) > 1, [f"{c['cut']} bytes short"]),
              quick=1500, thorough=20000)]