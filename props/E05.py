"""Damaged epoch files are refused, never decoded into wrong events or read forever."""
import os

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part
from props import E02, E04
from props.E01 import epochs, in_epoch

RULE = ("well-formed generated T1, T2, T3 and T4 files are cut short at a generated byte, given a "
        "wrong event count, or given a non-zero terminal base; the reader must end with an error, "
        "or with exactly the original events (a cut in the final padding loses nothing). 'large' cuts files of 255 to 16 000 events. A "
        "reader that does not return is stopped by a CPU budget. Non-trivial: the damage removes "
        "or contradicts at least one event.")
ASSUMPTIONS = ["the T3 reader only reports another number of entries, and goes on",
               "the header states the number of events (zero means unstated)",
               "every base width is at least one bit"]


@st.composite
def _file(draw, kind):
    """(case fields, whole file, header size)."""
    e = draw(epochs())
    if kind == "T1":
        n = draw(st.integers(1, 12))
        t = draw(st.lists(st.one_of(in_epoch(), st.just(0)), min_size=n, max_size=n))
        p = draw(st.lists(st.integers(1, 15), min_size=n, max_size=n))
        low = (e & 0x1FFFF) << 37
        return {"epoch": e, "events": [[low + a, b] for a, b in zip(t, p)]}
    if kind == "T3":
        n = draw(st.integers(1, 20))
        return {"epoch": e, "entries": draw(st.lists(st.integers(1, 255), min_size=n, max_size=n))}
    order, base_bits, diffs, bases, force = draw(E02.stream(max_size=12))
    if not diffs:
        diffs, bases, force = [5], [1], [0]
    c = {"epoch": e, "order": order, "base_bits": base_bits, "bases": bases, "force": force,
         "length": 1, "pad": 0}
    if kind == "T2":
        c.update(diffs=[d % (1 << 28) for d in diffs], tag=0x102)
    else:
        c.update(deltas=[max(0, d - 2) for d in diffs], tag=0x104)
    return c


def build(kind, c, **kw):
    if kind == "T1":
        return ref.encode_T1(c["epoch"], c["events"], **kw)
    if kind == "T3":
        return ref.encode_T3(c["epoch"], c["entries"], **kw)
    n = len(c["bases"])
    length = kw.pop("length", n)
    if kind == "T2":
        return ref.encode_T2(c["epoch"], c["diffs"], c["bases"], c["order"], c["base_bits"],
                             c["force"], length, **kw)
    return ref.encode_T4(c["epoch"], c["deltas"], c["bases"], c["order"], c["base_bits"],
                         c["force"], length, **kw)


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["T1", "T1", "T2", "T2", "T3", "T4", "T4"]))
    c = draw(_file(kind))
    size = len(build(kind, c))
    dmg = ["cut", "cut", "cut", "count"] + (
        ["end"] if kind in ("T2", "T4") else [])
    dmg = draw(st.sampled_from(dmg))
    out = {"kind": kind, "file": c, "damage": dmg}
    if dmg == "cut":
        out["cut"] = draw(st.one_of(st.integers(0, size - 1),
                                    st.integers(max(0, size - 20), size - 1)))
    elif dmg == "count":
        n = len(c[{"T1": "events", "T3": "entries"}.get(kind, "bases")])
        out["count"] = draw(st.one_of(st.integers(1, n + 3), gen.wide(1, 1 << 20))
                            .filter(lambda k: k != n))
    else:
        out["end"] = draw(st.integers(1, (1 << c["base_bits"]) - 1))
    if kind in ("T1", "T2"):
        out["res"] = draw(st.sampled_from(gen.RES))
        out["fractional"] = draw(st.booleans())
        out["full"] = draw(st.booleans())
    return out


def read(case, env, path):
    k = case["kind"]
    if k in ("T1", "T2"):
        return env.try_sut("ep_read", cpu=20.0, kind=k, path=path, full=case["full"],
                           res=case["res"], fractional=case["fractional"])
    if k == "T3" and case["damage"] == "count":
        return env.try_sut("ep_read_T3", cpu=20.0, path=path, heed=True)
    return env.try_sut("ep_read_" + k, cpu=20.0, path=path)


def check(case, env):
    d = env.newdir()
    k, c = case["kind"], case["file"]
    good = build(k, c)
    path = os.path.join(d, f"{c['epoch']:x}")
    if case["damage"] == "cut":
        bad = good[:case["cut"]]
        what = f"{k} file cut after {case['cut']} of {len(good)} bytes"
    elif case["damage"] == "count":
        bad = build(k, c, length=case["count"])
        what = f"{k} file announcing {case['count']} events"
    else:
        bad = build(k, c, end_base=case["end"])
        what = f"{k} file with terminal base {case['end']}"
    with open(path, "wb") as f:
        f.write(bad)
    got = read(case, env, path)
    if got[0] == "exc":
        if got[1] in ("CpuBudgetExceeded", "MemoryError", "InterpreterDied"):
            raise Violation(f"{what}: the reader does not end ({got[1]})")
        return
    if k == "T3" and case["damage"] == "count" and got[1]["error"]:
        return      # this reader goes on, but says so
    if case["damage"] != "cut":
        raise Violation(f"{what}: accepted")
    with open(path, "wb") as f:
        f.write(good)
    whole = read(case, env, path)
    if whole[0] != "ok":
        raise Violation(f"the undamaged {k} file is refused: {whole[1:3]}")
    if got[1] != whole[1]:
        raise Violation(f"{what}: decoded into {str(got[1])[:300]} instead of "
                        f"{str(whole[1])[:300]}")


def classify(case):
    k, c = case["kind"], case["file"]
    labels = [f"{k} {case['damage']}"]
    if case["damage"] != "cut":
        return True, labels
    head = {"T1": 20, "T2": 24, "T3": 16, "T4": 20}[k]
    size = len(build(k, c))
    if case["cut"] < head:
        labels.append("inside the header")
    elif case["cut"] == head:
        labels.append("after the header")
    elif (case["cut"] - head) % 4:
        labels.append("inside a word")
    else:
        labels.append("between words")
    return case["cut"] < size - (8 if k == "T1" else 4), labels


@st.composite
def _large(draw):
    """Files of thousands of events, cut anywhere or around multiples of 512 bytes."""
    kind = draw(st.sampled_from(["T1", "T2", "T4"]))
    out = {"kind": kind, "bulk": draw(gen.bulk(14)), "epoch": draw(epochs()),
           "order": draw(st.integers(8, 28)), "base_bits": 4, "damage": "cut"}
    at = draw(st.floats(0, 1))
    out["at"] = at
    out["snap"] = draw(st.sampled_from([0, 4, 512, 4096, 8192]))
    out["off"] = draw(st.sampled_from([0, 0, 1, 4, 8, 20, 24]))
    if kind in ("T1", "T2"):
        out.update(res=draw(st.sampled_from(gen.RES)), fractional=draw(st.booleans()),
                   full=draw(st.booleans()))
    return out


def large_file(case):
    k = case["kind"]
    if k == "T1":
        low = (case["epoch"] & 0x1FFFF) << 37
        return {"epoch": case["epoch"],
                "events": [[low + t, p or 1] for t, p in zip(gen.bulk_ts(case["bulk"], 1 << 37),
                                                             gen.bulk_low10(case["bulk"], 15))]}
    c = E02.expand(dict(case, base_bits=4), 1 << 32)
    c.update(length=1, pad=0)
    if k == "T4":
        c["deltas"] = c["diffs"]
    return c


def check_large(case, env):
    c = large_file(case)
    size = len(build(case["kind"], c))
    cut = int(case["at"] * (size - 1))
    if case["snap"]:
        cut = min(size - 1, cut // case["snap"] * case["snap"] + case["off"])
    check(dict(case, file=c, cut=cut), env)


_T1 = {"epoch": 5, "events": [[5 << 37 | 77, 1], [(5 << 37) + 400, 2]]}
_T2 = {"epoch": 5, "order": 8, "base_bits": 4, "bases": [1, 2, 4], "force": [0, 0, 0],
       "length": 1, "pad": 0, "diffs": [9, 500, 20], "tag": 0x102}
_T4 = {"epoch": 5, "order": 8, "base_bits": 4, "bases": [1, 2, 4], "force": [0, 0, 0],
       "length": 1, "pad": 0, "deltas": [9, 500, 20], "tag": 0x104}
PARTS = [
    Part("damage", _case, check, classify, quick=10000, thorough=150000, regressions=[
        {"kind": "T1", "file": _T1, "damage": "cut", "cut": c, "res": "NS1", "fractional": True,
         "full": False} for c in (28, 30, 32, 33, 34, 36)] + [
        {"kind": "T2", "file": _T2, "damage": "cut", "cut": c, "res": "NS1", "fractional": True,
         "full": False} for c in (24, 25, 28, 30, 32)] + [
        {"kind": "T4", "file": _T4, "damage": "cut", "cut": c} for c in (20, 21, 24, 26, 28)]),
    Part("large", _large, check_large, lambda c: (c["at"] < 0.99, [c["kind"]]), quick=64,
         thorough=1000, chunk=10),
]
