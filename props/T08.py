"""Streaming holds a few blocks, however long the file."""
import os
import signal
import subprocess
import time

import numpy as np
from hypothesis import strategies as st

from vf import client, gen
from vf.client import Violation
from vf.core import Part

RULE = ("'reader': a file of many blocks is changed behind the block that a streaming reader has "
        "reached; the blocks from the fourth after that must show the change, so that no more than "
        "these are held. 'writer': a stream of generated blocks is given to the streaming writers "
        "and to the statistics; when the last one is asked for, at most four earlier blocks are "
        "still held and all but these are on disk. 'command': the command is stopped after its first "
        "output and the rest of its input is changed; its output must show the change. Non-trivial: at least ten blocks.")
ASSUMPTIONS = ["up to four blocks may be held at a time"]
SLACK = 4


@st.composite
def _reader(draw):
    f, legacy = draw(gen.fmt())
    blocks = draw(st.integers(8, 16))
    return {"fmt": f, "legacy": legacy, "blocks": blocks, "size": draw(st.integers(8200, 9000)),
            "after": draw(st.integers(1, blocks - SLACK - 1)),
            "t0": draw(gen.wide(0, 1 << 53)), "step": draw(gen.wide(2, 1 << 20))}


def check_reader(case, env):
    got = env.sut("lazy_read", path=os.path.join(env.newdir(), "in.dat"), **case)
    if len(got) != case["blocks"]:
        raise Violation(f"{len(got)} blocks of {case['size']} streamed, should be {case['blocks']}")
    for i, g in enumerate(got):
        if i < case["after"] and g != "old":
            raise Violation(f"block {i} of {case['fmt']} is not what the file held")
        if i >= case["after"] + SLACK and g != "new":
            raise Violation(f"block {i} of {case['fmt']} was read before block {case['after']} "
                            f"was asked for (blocks: {' '.join(got)})")


@st.composite
def _writer(draw):
    kind, legacy = draw(st.one_of(gen.fmt(), gen.fmt(), st.just(("statistics", None))))
    return {"kind": kind, "legacy": legacy, "blocks": draw(st.integers(8, 14)),
            "size": draw(st.integers(8200, 9000)), "t0": draw(gen.wide(0, 1 << 53)),
            "step": draw(gen.wide(1, 1 << 20)), "res": None}


def check_writer(case, env):
    got = env.sut("lazy_write", path=os.path.join(env.newdir(), "out.dat"), **case)
    if got["live"] > SLACK:
        raise Violation(f"{case['kind']}: {got['live']} of {case['blocks'] - 1} earlier blocks are "
                        f"still held when the last one is asked for")
    if case["kind"] != "statistics":
        least = got["size"] // case["blocks"] * (case["blocks"] - 1 - SLACK)
        if got["disk"] < least:
            raise Violation(f"{case['kind']}: {got['disk']} bytes on disk when the last of "
                            f"{case['blocks']} blocks is asked for, should be {least} or more")


def classify(case):
    return case["blocks"] >= 10, [case.get("fmt") or case["kind"]]


@st.composite
def _command(draw):
    return {"filter": draw(st.sampled_from([[], ["--tfilter-start", "0"], ["--pfilter-pattern", "5"]])),
            "step": draw(st.integers(2, 1 << 12)), "blocks": draw(st.integers(18, 24)),
            "t0": draw(gen.wide(0, 1 << 50)), "legacy": draw(st.booleans())}


BLOCK = 100_000 * 8


def check_command(case, env):
    d = env.newdir()
    n = case["blocks"] * 100_000
    def data(shift):
        v = (np.uint64(case["t0"] + shift) + np.arange(n, dtype=np.uint64) * np.uint64(case["step"])
             << np.uint64(10)) | np.uint64(5)
        a = np.empty((n, 2), dtype="<u4")
        a[:, 0 if case["legacy"] else 1] = v >> np.uint64(32)
        a[:, 1 if case["legacy"] else 0] = v & np.uint64(0xffffffff)
        return a.tobytes()
    old, new = data(0), data(1)
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(src, "wb") as f:
        f.write(old)
    legacy = ["-X", "-x"] if case["legacy"] else []
    argv = ["-A1", "-a1", "-q"] + legacy + case["filter"] + ["in", "out"]
    p = subprocess.Popen([client.VENV_PY, "-m", "fpfind.lib.parse_timestamps"] + argv, cwd=d,
                         env=dict(os.environ, PYTHONPATH=f"{client.REPO}/src",
                                  PYTHONDONTWRITEBYTECODE="1"),
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL)
    try:
        # stop it once the first block is on its way out, and change what it must still read
        while p.poll() is None and not (os.path.exists(out) and os.path.getsize(out) > 0):
            time.sleep(0.002)
        if p.returncode is None:
            os.kill(p.pid, signal.SIGSTOP)
            time.sleep(0.01)
        if not os.path.exists(out):
            raise Violation(f"parse_timestamps {' '.join(argv)}: no output")
        done = os.path.getsize(out)
        at = (done // BLOCK + 10) * BLOCK
        if p.poll() is None and at < len(new):
            with open(src, "r+b") as f:
                f.seek(at)
                f.write(new[at:])
            env.count("changed under way")
        else:
            at = len(new)
            env.count("too late to change")
        if p.poll() is None:
            os.kill(p.pid, signal.SIGCONT)
        p.wait(timeout=300)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    what = f"parse_timestamps {' '.join(argv)} ({n} events)"
    with open(out, "rb") as f:
        got = f.read()
    if p.returncode or len(got) != len(old) or got[:at] != old[:at]:
        raise Violation(f"{what}: status {p.returncode}, output of {len(got)} bytes is not the input")
    if got[at:] != new[at:]:
        raise Violation(f"{what}: what follows byte {at} of the input had been read when "
                        f"{done} bytes were written")


PARTS = [Part("reader", _reader, check_reader, classify, quick=60, thorough=1500, chunk=5),
         Part("writer", _writer, check_writer, classify, quick=60, thorough=1500, chunk=5),
         Part("command", _command, check_command, lambda c: (True, [" ".join(c["filter"][:1]) or "no filter"]), quick=16,
              thorough=200, chunk=1)]
