"""Streaming readers and writers agree with their whole-file counterparts."""
import os
import zlib

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props.T01 import compare

RULE = ("'sread': a generated file is streamed with a generated block size; the concatenated "
        "blocks must be the file's exact events in order, every block but the last holds exactly "
        "the block size (also while a second stream is read in turns), and the announced number of blocks is the number delivered. 'swrite': "
        "the same events cut into arbitrary blocks (empty ones included) must produce the "
        "specified file. 'large': files of several default-size blocks, streamed with the "
        "default and odd block sizes, compared with whole-file reading. 'wlarge': 'swrite' with up to 2^15 events. Non-trivial: more than "
        "one block.")


@st.composite
def _sread(draw):
    f, legacy = draw(gen.fmt())
    ev = draw(gen.events(max_size=30))
    n = len(ev)
    b = draw(st.one_of(st.integers(1, max(1, n + 2)), st.just(max(1, n)),
                       st.integers(1, 3), st.sampled_from([10, 100, 100_000])))
    return {"fmt": f, "legacy": legacy, "events": ev, "buffer": b,
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans()),
            "style": draw(gen.style(f)), "twin": draw(st.sampled_from([0, 0, 1, 2, 5]))}


def check_sread(case, env):
    path = os.path.join(env.newdir(), "in.dat")
    ev, b = case["events"], case["buffer"]
    with open(path, "wb") as f:
        f.write(ref.styled(ref.encode_events(ev, case["fmt"], bool(case["legacy"])),
                           case.get("style")))
    got = env.sut("ts_sread", fmt=case["fmt"], path=path, legacy=case["legacy"],
                  res=case["res"], fractional=case["fractional"], buffer_size=b, twin=case.get("twin", 0))
    want_n = -(-len(ev) // b)
    at = 0
    for i, batch in enumerate(got["batches"]):
        k = len(batch["t"]["v"])
        if k > b:
            raise Violation(f"block {i} holds {k} events, block size {b}")
        if k < b and i + 1 < len(got["batches"]):
            raise Violation(f"block {i} holds {k} events although more follow (block size {b})")
        compare(batch, ev[at:at + k], case["res"], case["fractional"],
                f"{case['fmt']} block {i}")
        at += k
    types = got.get("types", [])
    for i, ty in enumerate(types[1:]):
        if ty != types[0]:
            raise Violation(f"block {i} holds times and patterns as {ty}, whole-file reading "
                            f"gives {types[0]}")
    if at != len(ev):
        raise Violation(f"{at} events streamed, {len(ev)} in the file")
    if got["n"] != want_n or len(got["batches"]) != want_n:
        raise Violation(f"{len(ev)} events in blocks of {b}: {got['n']} blocks announced, "
                        f"{len(got['batches'])} delivered, {want_n} expected")


def classify_sread(case):
    n, b = len(case["events"]), case["buffer"]
    labels = [f"{case['fmt']}{'X' if case['legacy'] else ''}"]
    labels.append("no events" if n == 0 else "one block" if n <= b else
                  "whole blocks" if n % b == 0 else "short last block")
    return n > b, labels


@st.composite
def _swrite(draw):
    f, legacy = draw(gen.fmt())
    res = draw(st.sampled_from(gen.RES))
    tcont = draw(st.sampled_from(["longdouble", "uint64"]))
    step = 1 << ref.SHIFT[res] if tcont == "uint64" else 1
    ev = [[t - t % step, p] for t, p in draw(gen.events(max_size=25, flags=False))]
    cuts = sorted(draw(st.lists(st.integers(0, len(ev)), max_size=6)))
    return {"fmt": f, "legacy": legacy, "res": res, "tcont": tcont, "events": ev, "cuts": cuts,
            "display": draw(st.booleans()), "announce": draw(st.booleans())}


def check_swrite(case, env):
    path = os.path.join(env.newdir(), "out.dat")
    ev, cuts = case["events"], [0] + case["cuts"] + [len(case["events"])]
    batches = [([e[0] for e in ev[a:b]], [e[1] for e in ev[a:b]])
               for a, b in zip(cuts, cuts[1:])]
    got = env.sut("ts_swrite", fmt=case["fmt"], path=path, batches=batches,
                  legacy=case["legacy"], res=case["res"], tcont=case["tcont"], pcont="uint32",
                  display=case["display"], num_batches=len(batches) if case["announce"] else None)
    want = ref.encode_events(ev, case["fmt"], bool(case["legacy"]))
    if got["bytes"] != want:
        raise Violation(f"{case['fmt']}: {len(batches)} blocks written as {len(got['bytes'])} "
                        f"bytes that differ from the {len(want)} specified")


def classify_swrite(case):
    cuts = [0] + case["cuts"] + [len(case["events"])]
    sizes = [b - a for a, b in zip(cuts, cuts[1:])]
    labels = [f"{case['fmt']}{'X' if case['legacy'] else ''}"]
    if 0 in sizes:
        labels.append("has an empty block")
    return sum(1 for s in sizes if s) > 1, labels


def big_events(n, base, step, mul):
    return [((base + i * step + (i * i) % 977) & ref.TS_MAX, (i * mul + i // 7) % 16)
            for i in range(n)]


@st.composite
def _large(draw):
    f, legacy = draw(st.sampled_from(
        [("a1", False), ("a1", True), ("a1", True), ("a0", None), ("a2", None)]))
    b = draw(st.sampled_from([None, None, None, 99_999, 65_536, 7_001]))
    blk = b or 100_000
    n = blk * draw(st.integers(1, 2)) + draw(st.sampled_from([-1, 0, 1, 1234]))
    return {"fmt": f, "legacy": legacy, "n": n, "buffer": b,
            "base": draw(gen.raw_ts()), "step": draw(gen.wide(1, 1 << 30)),
            "mul": draw(st.integers(1, 15)),
            "res": draw(st.sampled_from(gen.RES)), "fractional": draw(st.booleans())}


def check_large(case, env):
    path = os.path.join(env.newdir(), "in.dat")
    ev = big_events(case["n"], case["base"], case["step"], case["mul"])
    with open(path, "wb") as f:
        f.write(ref.encode_events(ev, case["fmt"], bool(case["legacy"])))
    got = env.sut("ts_big_stream", cpu=120, fmt=case["fmt"], path=path, legacy=case["legacy"],
                  res=case["res"], fractional=case["fractional"], buffer_size=case["buffer"])
    os.unlink(path)
    total = sum(s[0] for s in got["sizes"])
    if got["events"] != case["n"] or total != case["n"]:
        raise Violation(f"{case['n']} events in the file, {got['events']} read whole, "
                        f"{total} streamed")
    if got["bad"] is not None:
        raise Violation(f"block {got['bad']} differs from the whole-file reading")
    if got["n"] != len(got["sizes"]):
        raise Violation(f"{got['n']} blocks announced, {len(got['sizes'])} delivered")


def classify_large(case):
    b = case["buffer"] or 100_000
    return case["n"] > b, [f"{case['fmt']}", "default block size" if case["buffer"] is None
                           else "chosen block size"]


@st.composite
def _wlarge(draw):
    c = dict(draw(_swrite()), events=[], bulk=draw(gen.bulk(15)))
    if c["tcont"] == "uint64":
        c["res"] = "PS4"
    c["cuts"] = sorted(draw(st.lists(st.one_of(st.integers(0, c["bulk"]["n"]), st.sampled_from(
        [0, c["bulk"]["n"], min(c["bulk"]["n"], 1)])), max_size=6)))
    return c


def check_wlarge(case, env):
    check_swrite(dict(case, events=[[t, p & 15] for t, p in gen.bulk_events(case["bulk"])]), env)


def classify_wlarge(case):
    n = case["bulk"]["n"]
    cuts = [0] + case["cuts"] + [n]
    return sum(b > a for a, b in zip(cuts, cuts[1:])) > 1, [
        f"2^{n.bit_length() - 1} events or more", case["fmt"]]


PARTS = [
    Part("wlarge", _wlarge, check_wlarge, classify_wlarge, quick=60, thorough=1000, chunk=10),
    Part("sread", _sread, check_sread, classify_sread, quick=9000, thorough=120000, regressions=[
        {"fmt": f, "legacy": None, "events": [[(1 << 53) + 1, 1], [(1 << 54) - 1, 2], [7, 3]],
         "buffer": 2, "res": "PS4", "fractional": False} for f in ("a0", "a1", "a2")]),
    Part("swrite", _swrite, check_swrite, classify_swrite, quick=5000, thorough=80000),
    Part("large", _large, check_large, classify_large, quick=24, thorough=300, chunk=12),
]
