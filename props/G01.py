"""The event generator for freqcd writes and lists events exactly."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("generated time lists (up to and beyond 54 bits), both word orders, to a file or standard "
        "output, over any older file, from the command line or line by line; the bytes must be "
        "the specified events. 'list': generated event files, named or piped: one decimal time "
        "per event, the file itself and its directory left as they were. Non-trivial: at least "
        "two events.")
ASSUMPTIONS = ["line-by-line input ends with the end of file; how the program ends then is left open"]
MASK = (1 << 54) - 1


@st.composite
def _make(draw):
    ts = draw(st.lists(st.one_of(gen.raw_ts(), gen.raw_ts(), gen.wide(0, 1 << 60),
                                 st.integers(-2, 2).map(lambda d: (1 << 54) + d)),
                       min_size=1, max_size=12))
    return {"ts": ts, "legacy": draw(st.booleans()),
            "out": draw(st.sampled_from(["fresh", "older", "stdout", "lines", "lines"])),
            "over": draw(st.booleans()),
            "noise": draw(st.lists(st.sampled_from(["", "abc", "1.5", "x1"]), max_size=3))}


def check_make(case, env):
    d = env.newdir()
    out = os.path.join(d, "events")
    if case["out"] == "older" or case["out"] == "lines" and case["over"]:
        with open(out, "wb") as f:
            f.write(b"\xff" * 777)
    flags = ["-x"] * case["legacy"]
    argv = ["prog"] + flags
    stdin = b""
    if case["out"] != "stdout":
        argv += ["-o", "events"]
    if case["out"] == "lines":
        lines = [str(t) for t in case["ts"]]
        for i, n in enumerate(case["noise"]):
            lines.insert(2 * i, n)
        stdin = ("\n".join(lines) + "\n").encode()
    else:
        argv += ["-t"] + [str(t) for t in case["ts"]]
    r = env.sut("fresh_main", module="fpfind.lib.generate_freqcd_testcase", argv=argv, cwd=d,
                stdin=stdin)
    what = f"{' '.join(argv)[:200]}"
    if case["out"] != "lines" and (r["exc"] or r["code"]):
        raise Violation(f"{what}: {r['exc'] or r['code']}")
    if case["out"] == "stdout":
        data = r["outb"]
    else:
        with open(out, "rb") as f:
            data = f.read()
    want = ref.encode_events([(t & MASK, 1) for t in case["ts"]], "a1", case["legacy"])
    if data != want:
        raise Violation(f"{what}: wrote {data[:48].hex()} ({len(data)} bytes), "
                        f"should be {want[:48].hex()} ({len(want)} bytes)")
    if sorted(os.listdir(d)) != ([] if case["out"] == "stdout" else ["events"]):
        raise Violation(f"{what}: left files {sorted(os.listdir(d))}")


def classify_make(case):
    return len(case["ts"]) >= 2, [case["out"], "legacy" if case["legacy"] else "plain"] + \
        ["beyond 54 bits"] * any(t > MASK for t in case["ts"])


@st.composite
def _list(draw):
    big = draw(st.integers(0, 39)) == 0
    return {"bulk": draw(gen.bulk(14, 12)) if big else None,
            "events": [] if big else draw(gen.events(max_size=15)), "legacy": draw(st.booleans()),
            "via": draw(st.sampled_from(["file", "pipe"]))}


def listed(case):
    if case["bulk"] is not None:
        return gen.bulk_events(case["bulk"])
    return [tuple(e) for e in case["events"]]


def check_list(case, env):
    d = env.newdir()
    ev = listed(case)
    data = ref.encode_events(ev, "a1", case["legacy"])
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(data)
    argv = ["prog"] + ["-x"] * case["legacy"] + ["in.dat" if case["via"] == "file" else "-"]
    r = env.sut("fresh_main", module="fpfind.lib.generate_freqcd_testcase", argv=argv, cwd=d,
                stdin=data if case["via"] == "pipe" else b"")
    what = " ".join(argv)
    if r["exc"] or r["code"]:
        raise Violation(f"{what}: {r['exc'] or r['code']}")
    want = "".join(f"{t}\n" for t, _ in ev)
    if r["out"] != want:
        raise Violation(f"{what}: printed {r['out'][:200]!r}, should be {want[:200]!r}")
    with open(os.path.join(d, "in.dat"), "rb") as f:
        if f.read() != data:
            raise Violation(f"{what}: modified its input file")
    if os.listdir(d) != ["in.dat"]:
        raise Violation(f"{what}: left files {sorted(os.listdir(d))}")


def classify_list(case):
    return case["bulk"] is not None or len(case["events"]) >= 2, \
        [case["via"], "legacy" if case["legacy"] else "plain"] + \
        ["thousands of events"] * (case["bulk"] is not None)


PARTS = [Part("make", _make, check_make, classify_make, quick=3000, thorough=30000),
         Part("list", _list, check_list, classify_list, quick=2000, thorough=20000)]
