"""The timestamp conversion command line."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.T03 import big_events
from props.T06 import window_events, windows

RULE = ("generated files through the converter's command line: every pair of formats, streaming "
        "and in memory, with and without pattern and time filters and with an older output file "
        "in the way; the output bytes must be the specified encoding of the reference-filtered "
        "events and the input must be untouched. 'chain' converts through several formats and "
        "back; 'blocks' uses files longer than the streaming block; 'reject' runs invocations "
        "without a readable input or without a destination; 'onto' names the input as output, under "
        "one name or two: refused and untouched, or replaced by the right result. Non-trivial: at "
        "least two events survive / the file holds events.")
ASSUMPTIONS = ["time bounds are multiples of 1/512 s, so that they are exact in any unit",
               "events beyond 53 bits lie on even units when a time filter is used"]


@st.composite
def filters(draw, ts):
    f = {}
    if draw(st.booleans()):
        f["pattern"] = draw(st.integers(0, 15))
        f["mask"] = draw(st.booleans())
        f["invert"] = draw(st.booleans())
    if draw(st.booleans()):
        f["start"], f["end"] = draw(windows(ts, True))
    return f


def filter_args(f):
    out = []
    if "pattern" in f:
        out += ["--pfilter-pattern", str(f["pattern"])]
        out += ["--pfilter-mask"] * f["mask"] + ["--pfilter-invert"] * f["invert"]
    if f.get("start") is not None:
        out += [f"--tfilter-start={f['start']!r}"]
    if f.get("end") is not None:
        out += [f"--tfilter-end={f['end']!r}"]
    return out


def apply_filters(events, f):
    ev = [(t, p & 15) for t, p in events]
    if "pattern" in f:
        ev = ref.pattern_filter(ev, f["pattern"], f["mask"], f["invert"])
    return ref.time_filter(ev, f.get("start"), f.get("end"))


@st.composite
def filtered_file(draw, max_size=30):
    ts = draw(window_events(max_size=max_size))
    f = draw(filters(ts))
    if not ("start" in f) and draw(st.booleans()):   # order does not matter here
        ts = draw(st.lists(gen.raw_ts(), max_size=max_size))
    ps = draw(st.lists(gen.low10(), min_size=len(ts), max_size=len(ts)))
    return [[t, p] for t, p in zip(ts, ps)], f


CLI = [("0", False), ("1", False), ("1", True), ("2", False), ("0", True), ("2", True)]


@st.composite
def _case(draw):
    ev, f = draw(filtered_file())
    return {"events": ev, "filters": f, "src": draw(st.sampled_from(CLI)),
            "dst": draw(st.sampled_from(CLI + [None, None])),
            "inmemory": draw(st.booleans()), "quiet": draw(st.booleans()),
            "existing": draw(st.booleans())}


def convert(env, d, src, dst, a, b, extra=()):
    """One run of the command line; b: (format, legacy) or None for the default."""
    argv = ["parse_timestamps", f"-A{a[0]}"] + ["-X"] * a[1]
    if b is not None:
        argv += [f"-a{b[0]}"] + ["-x"] * b[1]
    argv += list(extra) + [src, dst]
    got = env.sut("run_main", module="fpfind.lib.parse_timestamps", argv=argv, cwd=d)
    if got["exc"] or got["code"]:
        raise Violation(f"{' '.join(argv)}: exit {got['code']} {got['exc']}\n{got['err'][-500:]}")
    with open(os.path.join(d, dst), "rb") as f:
        return f.read()


def check(case, env):
    d = env.newdir()
    a, b = case["src"], case["dst"]
    data = ref.encode_events(case["events"], "a" + a[0], a[1] and a[0] == "1")
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(data)
    if case["existing"]:
        with open(os.path.join(d, "out.dat"), "wb") as f:
            f.write(b"0123456789abcdef\n" * 60)
    got = convert(env, d, "in.dat", "out.dat", a, b,
                  ["--inmemory"] * case["inmemory"] + ["-q"] * case["quiet"]
                  + filter_args(case["filters"]))
    fmt, leg = ("a1", False) if b is None else ("a" + b[0], b[1] and b[0] == "1")
    ev = apply_filters(case["events"], case["filters"])
    want = ref.encode_events(ev, fmt, leg)
    if got != want:
        try:
            g = ref.decode_events(got, fmt, leg)
        except Exception:
            g = None
        raise Violation(f"-A{a} -> -a{b} with {case['filters']}: {len(got)} bytes written, "
                        f"{len(want)} expected; events {str(g)[:300]} instead of {str(ev)[:300]}")
    with open(os.path.join(d, "in.dat"), "rb") as f:
        if f.read() != data:
            raise Violation("the input file was modified")


def classify(case):
    f = case["filters"]
    n = len(apply_filters(case["events"], f))
    labels = [f"A{case['src']}", "in memory" if case["inmemory"] else "streaming",
              "filters: " + ("+".join(k for k in ("pattern", "start") if k in f) or "none")]
    if case["events"] and not n:
        labels.append("everything filtered out")
    return n >= 2, labels


@st.composite
def _chain(draw):
    return {"events": draw(gen.events(max_size=20)), "src": draw(st.sampled_from(CLI)),
            "steps": draw(st.lists(st.tuples(st.sampled_from(CLI), st.booleans()),
                                   min_size=2, max_size=5))}


def check_chain(case, env):
    d = env.newdir()
    at = case["src"]
    enc = lambda ev, k: ref.encode_events(ev, "a" + k[0], k[1] and k[0] == "1")
    with open(os.path.join(d, "0"), "wb") as f:
        f.write(enc(case["events"], at))
    ev = [(t, p & 15) for t, p in case["events"]]
    for i, (to, mem) in enumerate(case["steps"]):
        got = convert(env, d, str(i), str(i + 1), at, to, ["-q"] + ["--inmemory"] * mem)
        if got != enc(ev, to):
            raise Violation(f"step {i} ({at} -> {to}) does not preserve the events")
        at = to


def classify_chain(case):
    return len(case["events"]) >= 2, [f"{len(case['steps'])} steps"]


@st.composite
def _blocks(draw):
    n = draw(st.sampled_from([99_999, 100_000, 100_001, 150_000, 200_000, 230_001]))
    base = draw(gen.wide(0, 1 << 53))
    step = draw(gen.wide(1, 1 << 32)) * 2
    last = base + step * n + 2000
    if last > ref.TS_MAX:
        base = max(0, base - (last - ref.TS_MAX)) & ~1
    # bounds that fall inside the file
    ts = [base + step * k for k in (0, 50_000, 100_000, n)]
    f = draw(filters(ts))
    # stretches of one pattern, so that whole blocks may be filtered away
    cuts = []
    if draw(st.booleans()):
        n = draw(st.sampled_from([150_000, 200_000, 230_001]))
        p, q = draw(st.permutations(range(16)))[:2]
        shape = draw(st.sampled_from([[p, q], [p, q, p], [p, q, q], [q, p, q]]))
        at = sorted({0, *draw(st.lists(st.sampled_from([1, 100_000, 100_001, 120_000]),
                                       min_size=1, max_size=2))})
        cuts = [[i, s] for i, s in zip(at, shape)]
        f.update(pattern=draw(st.sampled_from([p, q])), mask=False, invert=draw(st.booleans()))
        if draw(st.booleans()):
            f["start"], f["end"] = draw(windows(ts + [base + step * 125_000], True))
    elif draw(st.booleans()):
        cuts = [[draw(st.integers(0, n)), draw(st.integers(0, 15))]]
    return {"stretches": cuts, "n": n, "base": base & ~1, "step": step,
            "mul": draw(st.integers(1, 15)), "filters": f,
            "src": draw(st.sampled_from([("1", True), ("1", False)])),
            "dst": draw(st.sampled_from([("1", True), ("1", False), ("2", False)]))}


def block_events(case):
    ev = sorted((t & ~1, p) for t, p in big_events(case["n"], case["base"], case["step"],
                                                   case["mul"]))
    for at, p in case.get("stretches", ()):
        ev[at:] = [(t, p) for t, _ in ev[at:]]
    return ev


def check_blocks(case, env):
    d = env.newdir()
    a, b = case["src"], case["dst"]
    ev = block_events(case)
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(ref.encode_events(ev, "a1", a[1]))
    got = convert(env, d, "in.dat", "out.dat", a, b, ["-q"] + filter_args(case["filters"]))
    want = apply_filters(ev, case["filters"])
    if got != ref.encode_events(want, "a" + b[0], b[1]):
        raise Violation(f"{case['n']} events with {case['filters']}: the {len(got)} bytes written "
                        f"are not the {len(want)} events selected")


def classify_blocks(case):
    ev = block_events(case)
    n = len(apply_filters(ev, case["filters"]))
    kept = [bool(apply_filters(ev[i:i + 100_000], case["filters"]))
            for i in range(0, len(ev), 100_000)]
    labels = ["more than one block" if case["n"] > 100_000 else "one block",
              "filters: " + ("+".join(k for k in ("pattern", "start", "end")
                                      if case["filters"].get(k) is not None) or "none")]
    if any(b and not all(kept[:i]) for i, b in enumerate(kept)):
        labels.append("a block is filtered away before a kept one")
    return n >= 2, labels


@st.composite
def _reject(draw):
    return {"kind": draw(st.sampled_from(["no input file", "input is a directory",
                                          "no destination", "unknown format"])),
            "src": draw(st.sampled_from(CLI)), "inmemory": draw(st.booleans()),
            "events": draw(gen.events(min_size=1, max_size=4))}


def check_reject(case, env):
    d = env.newdir()
    a = case["src"]
    data = ref.encode_events(case["events"], "a" + a[0], a[1] and a[0] == "1")
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(data)
    os.mkdir(os.path.join(d, "dir"))
    argv = ["parse_timestamps", f"-A{a[0]}"] + ["-X"] * a[1] + ["--inmemory"] * case["inmemory"]
    k = case["kind"]
    argv += {"no input file": ["none.dat", "out.dat"], "input is a directory": ["dir", "out.dat"],
             "no destination": ["in.dat"],
             "unknown format": ["-a3", "in.dat", "out.dat"]}[k]
    got = env.sut("run_main", module="fpfind.lib.parse_timestamps", argv=argv, cwd=d)
    if not got["code"]:
        raise Violation(f"{' '.join(argv)} ({k}) reports success")
    if sorted(os.listdir(d)) != ["dir", "in.dat"]:
        raise Violation(f"{k}: left {sorted(os.listdir(d))} behind")
    with open(os.path.join(d, "in.dat"), "rb") as f:
        if f.read() != data:
            raise Violation(f"{k}: the input file was modified")


def classify_reject(case):
    return True, [case["kind"]]


_E = [[3, 1], [(1 << 53) + 1, 2], [(1 << 54) - 1, 15]]
@st.composite
def _onto(draw):
    ev, f = draw(filtered_file())
    return {"events": ev, "filters": f, "src": draw(st.sampled_from(CLI)),
            "dst": draw(st.sampled_from(CLI)), "inmemory": draw(st.booleans()),
            "as": draw(st.sampled_from(["in.dat", "./in.dat", "soft", "hard", "sub/../in.dat"]))}


def check_onto(case, env):
    d = env.newdir()
    a, b = case["src"], case["dst"]
    data = ref.encode_events(case["events"], "a" + a[0], a[1] and a[0] == "1")
    src = os.path.join(d, "in.dat")
    with open(src, "wb") as f:
        f.write(data)
    os.mkdir(os.path.join(d, "sub"))
    os.symlink("in.dat", os.path.join(d, "soft"))
    os.link(src, os.path.join(d, "hard"))
    argv = ["parse_timestamps", f"-A{a[0]}"] + ["-X"] * a[1] + [f"-a{b[0]}"] + ["-x"] * b[1] \
        + ["-q"] + ["--inmemory"] * case["inmemory"] + filter_args(case["filters"]) \
        + ["in.dat", case["as"]]
    got = env.sut("run_main", module="fpfind.lib.parse_timestamps", argv=argv, cwd=d)
    with open(src, "rb") as f:
        now = f.read()
    with open(os.path.join(d, case["as"]), "rb") as f:
        out = f.read()
    want = ref.encode_events(apply_filters(case["events"], case["filters"]), "a" + b[0],
                             b[1] and b[0] == "1")
    failed = got["code"] or got["exc"]
    env.count("refused" if failed else "replaced")
    if failed and now != data:
        raise Violation(f"{' '.join(argv)}: failed, and the input is gone: {len(data)} bytes "
                        f"became {len(now)}")
    if not failed and (out != want or now not in (data, want)):
        raise Violation(f"{' '.join(argv)}: {len(data)} bytes became {len(now)}, the result is "
                        f"{len(out)} bytes and should be {len(want)}")


PARTS = [
    Part("onto", _onto, check_onto, lambda c: (len(c["events"]) > 0, [c["as"]]), quick=600,
         thorough=6000),
    Part("convert", _case, check, classify, quick=6000, thorough=100000, regressions=[
        {"events": _E, "filters": {}, "src": [a, False], "dst": ["1", False],
         "inmemory": m, "quiet": True, "existing": True} for a in "012" for m in (False, True)]),
    Part("chain", _chain, check_chain, classify_chain, quick=600, thorough=10000),
    Part("blocks", _blocks, check_blocks, classify_blocks, quick=96, thorough=800),
    Part("reject", _reject, check_reject, classify_reject, quick=400, thorough=4000),
]
