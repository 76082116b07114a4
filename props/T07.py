"""The statistics report describes the (filtered) events."""
import os
import re
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.T04 import CLI, apply_filters, filter_args, filtered_file
from props.T03 import big_events

RULE = ("reports produced by the command line (streaming and in memory, with and without filters) "
        "and by the library (arbitrary block sizes) over generated files; every figure is "
        "compared with the reference counts, times within 1 ns of print rounding. 'blocks' uses "
        "files longer than the streaming block. Non-trivial: at least two events reported.")
ASSUMPTIONS = ["the event rate of a file whose events share one timestamp is not defined"]


def parse(text):
    out = {}
    for line in text.splitlines():
        if ":" in line:
            k, v = line.split(":", 1)
            k, v = k.strip(), v.strip()
            if k in out:
                raise Violation(f"{k!r} is reported twice")
            out[k] = v
    return out


def compare(text, events):
    want = ref.statistics(events)
    got = parse(text)
    for k, v in want.items():
        if k == "patterns":
            s = re.sub(r"np\.\w+\(", "(", got.get("Detection patterns", ""))
            g = [int(x) for x in re.findall(r"\d+", s)]
            if g != v:
                raise Violation(f"detection patterns {g}, should be {v}")
            continue
        if k not in got:
            raise Violation(f"the report has no {k!r}:\n{text[:1500]}")
        if isinstance(v, Fraction):
            g = Fraction(got[k])
            if abs(g - v) > Fraction(2, 10 ** 9):
                raise Violation(f"{k}: {got[k]}, should be {float(v):.9f}")
        elif int(got[k]) != v:
            raise Violation(f"{k}: {got[k]}, should be {v}")
    d, near = want.get("Duration (s)", 0), Fraction(1, 10 ** 10)
    if d > 10 * near:   # below, the printed precision does not determine the rate
        g = Fraction(got["Event rate (/s)"])
        if not len(events) / (d + near) - 1 <= g <= len(events) / (d - near) + 1:
            raise Violation(f"event rate {g}, should be {float(len(events) / d)}")


@st.composite
def _cli(draw):
    ev, f = draw(filtered_file())
    return {"events": sorted(ev), "filters": f, "src": draw(st.sampled_from(CLI)),
            "inmemory": draw(st.booleans()), "quiet": draw(st.booleans())}


def check_cli(case, env):
    d = env.newdir()
    a = case["src"]
    data = ref.encode_events(case["events"], "a" + a[0], a[1] and a[0] == "1")
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(data)
    argv = (["parse_timestamps", f"-A{a[0]}"] + ["-X"] * a[1] + ["--inmemory"] * case["inmemory"]
            + ["-q"] * case["quiet"] + ["-p"] + filter_args(case["filters"]) + ["in.dat"])
    got = env.sut("run_main", module="fpfind.lib.parse_timestamps", argv=argv, cwd=d)
    if got["exc"] or got["code"]:
        raise Violation(f"{' '.join(argv)}: exit {got['code']} {got['exc']}\n{got['err'][-500:]}")
    compare(got["out"], apply_filters(case["events"], case["filters"]))
    with open(os.path.join(d, "in.dat"), "rb") as f:
        if f.read() != data or os.listdir(d) != ["in.dat"]:
            raise Violation("reporting changed the input file or left another behind")


def classify_cli(case):
    ev = apply_filters(case["events"], case["filters"])
    labels = ["in memory" if case["inmemory"] else "streaming",
              "filters" if case["filters"] else "no filters"]
    labels.append("no events" if not ev else "one instant" if ev[0][0] == ev[-1][0] else "span")
    return len(ev) >= 2, labels


@st.composite
def _lib(draw):
    f, legacy = draw(gen.fmt())
    ev = sorted(draw(gen.events(max_size=30, in_order=True)))
    return {"fmt": f, "legacy": legacy, "events": ev,
            "kind": draw(st.sampled_from(["array", "stream", "stream", "stream"])),
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "buffer_size": draw(st.integers(1, 31))}


def check_lib(case, env):
    path = os.path.join(env.newdir(), "in.dat")
    with open(path, "wb") as f:
        f.write(ref.encode_events(case["events"], case["fmt"], bool(case["legacy"])))
    text = env.sut("ts_stats", path=path, **{k: v for k, v in case.items() if k != "events"})
    s = 0 if case["kind"] == "array" or case["fractional"] else ref.SHIFT[case["res"]]
    compare(text, [(t >> s << s, p & 15) for t, p in case["events"]])


def classify_lib(case):
    n = len(case["events"])
    return n >= 2, [case["kind"], "one block" if n <= case["buffer_size"] else "several blocks"]


@st.composite
def _blocks(draw):
    return {"n": draw(st.sampled_from([99_999, 100_000, 100_001, 200_000, 210_000])),
            "base": draw(gen.wide(0, 1 << 52)), "step": draw(gen.wide(1000, 1 << 30)),
            "mul": draw(st.integers(1, 15)), "legacy": draw(st.booleans())}


def check_blocks(case, env):
    d = env.newdir()
    ev = sorted(big_events(case["n"], case["base"], case["step"], case["mul"]))
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(ref.encode_events(ev, "a1", case["legacy"]))
    argv = ["parse_timestamps", "-A1"] + ["-X"] * case["legacy"] + ["-p", "-q", "in.dat"]
    got = env.sut("run_main", module="fpfind.lib.parse_timestamps", argv=argv, cwd=d)
    if got["exc"] or got["code"]:
        raise Violation(f"{' '.join(argv)}: exit {got['code']} {got['exc']}")
    compare(got["out"], ev)


def classify_blocks(case):
    return True, ["more than one block" if case["n"] > 100_000 else "one block"]


_ONE = [[1 << 40, 3]]
PARTS = [
    Part("cli", _cli, check_cli, classify_cli, quick=6000, thorough=100000, regressions=[
        {"events": e, "filters": f, "src": ["1", True], "inmemory": m, "quiet": True}
        for e in ([], _ONE) for m in (False, True)
        for f in ({}, {"pattern": 4, "mask": False, "invert": False})]),
    Part("lib", _lib, check_lib, classify_lib, quick=6000, thorough=100000),
    Part("blocks", _blocks, check_blocks, classify_blocks, quick=24, thorough=300),
]
