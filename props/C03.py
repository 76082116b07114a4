"""freqcd follows its frequency channel, without ever stepping the time axis."""
import os
import re
import subprocess
from fractions import Fraction

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import Violation
from vf.core import Part
from props.C01 import offsets

RULE = ("a running program is given a generated history of event pieces and frequency-channel "
        "writes (values, several at once, values split across writes, unusable lines: empty, not "
        "an integer, out of range, overlong; closing the channel), each taken up before the next. "
        "Model: the correction grows by elapsed time x the last usable value, whatever came "
        "before stays. 'updates': hundreds of small changes, an event after each: nothing is lost with "
        "them. Non-trivial: at least two different values were in force while events "
        "passed and the correction exceeds ten units. 'busy': a long input that never runs dry, with the "
        "values ready beside it in a file or pipe: from the middle of the events on the last usable "
        "value is in force, before it one of those given. Non-trivial there: it differs from the "
        "first by twenty units in the end.")
ASSUMPTIONS = ["frequency writes and event writes do not race: each is taken up before the next",
               "channel values are plain decimal integers without blanks; other lines are unusable"]


def setup(env):
    env.data["freqcd"] = freqcd.build(env)


GOOD = re.compile(r"^-?\d+$")


def usable(line):
    return bool(GOOD.match(line)) and abs(int(line)) < freqcd.FMAX


def bad_lines():
    return st.one_of(
        st.sampled_from(["", "abc", "-", "1.5", "12abc", "1e5", "--5", "0x10", "5 6", "nan",
                         "2097152", "-2097152", "2147483647", "2147483648", "-2147483648",
                         "4294967296", "4294967301", "-4294967290", "9223372036854775807",
                         "9223372036854775813", "18446744073709551621",
                         "-9223372036854775808", "99999999999999999999999"]),
        gen.wide(freqcd.FMAX, 1 << 70).flatmap(
            lambda v: st.sampled_from([str(v), str(-v)])),
        st.integers(1, 1 << 70).map(lambda k: str((k << 32) + 5)),
        st.text("abcxyz.,;:", min_size=1, max_size=40),
        st.integers(60, 330).map(lambda n: "x" * n),
        st.integers(90, 230).map(lambda n: "7" * n),
        st.integers(90, 230).map(lambda n: "z" * n + "12345"))


@st.composite
def freq_text(draw):
    padded = st.tuples(offsets(False), st.integers(0, 9)).map(
        lambda v: "-" * (v[0] < 0) + "0" * v[1] + str(abs(v[0])))
    lines = draw(st.lists(st.one_of(offsets(False).map(str), offsets(False).map(str), padded,
                                    bad_lines(), bad_lines(), st.just("-0")),
                          min_size=1, max_size=4))
    if draw(st.integers(0, 9)) == 0:   # a burst of values
        lines = [str(1000 * i) for i in range(draw(st.integers(10, 60)))] + lines
    return "\n".join(lines) + "\n"


@st.composite
def _case(draw):
    steps, closed = [], False
    n = draw(st.integers(2, 9))
    scale = draw(st.integers(10, 48))
    pending = ""
    for _ in range(n):
        kind = draw(st.sampled_from(["events", "events", "freq", "freq", "part", "close", "head"]))
        if kind == "events" or closed:
            gaps = draw(st.lists(st.one_of(st.integers(0, (1 << scale) - 1),
                                           st.integers(0, 5000)), min_size=1, max_size=5))
            steps.append(["events", gaps, draw(st.sampled_from([0, 0, 0, 1, 4, 7]))])
        elif kind == "head":    # the first bytes of the event that comes next
            steps.append(["head", draw(st.integers(1, 7))])
        elif kind == "close":
            if draw(st.booleans()):
                steps.append(["close"])
                closed = True
        else:
            text = draw(freq_text())
            if kind == "part":    # cut somewhere; the rest follows in a later write
                k = draw(st.integers(0, len(text)))
                steps.append(["freq", pending + text[:k]] if pending + text[:k] else ["freq", "\n"])
                pending = text[k:]
                continue
            steps.append(["freq", pending + text])
            pending = ""
    if pending and not closed:
        steps.append(["freq", pending])
    steps.append(["events", [draw(st.integers(0, 1 << scale)), 1 << 30], 0])
    return {"steps": steps, "f": draw(offsets(False)), "give_f": draw(st.booleans()),
            "legacy": draw(st.booleans()), "base": draw(gen.wide(0, 1 << 51))}


def model(case):
    """The history as (events, exact corrections, number of value changes)."""
    f = case["f"] if case["give_f"] else 0
    buf, t, last = "", case["base"], None
    corr, out, cs, used = Fraction(0), [], [], []
    changes = 0
    for s in case["steps"]:
        if s[0] == "freq":
            buf += s[1]
            *lines, buf = buf.split("\n")
            for line in lines:
                if usable(line):
                    changes += int(line) != f
                    f = int(line)
        elif s[0] == "events":
            for g in s[1]:
                t += g
                if last is not None:
                    corr += Fraction((t - last) * f, 1 << 34)
                    if t > last:
                        used.append(f)
                last = t
                out.append((t, 1 + len(out) % 1023))
                cs.append(corr)
    return out, cs, changes, used


def check(case, env):
    d = env.newdir()
    ev, cs, changes, _ = model(case)
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = (["-f", str(case["f"])] if case["give_f"] else []) + ["-x"] * case["legacy"]
    s = freqcd.Session(env.data["freqcd"], args, d, freq=True)
    what = f"freqcd {' '.join(args)} -F"
    try:
        at = sent = 0
        for step in case["steps"]:
            if step[0] == "freq":
                s.frequency(step[1].encode())
            elif step[0] == "close":
                s.close_freq()
            elif step[0] == "head":
                if sent < at + step[1]:
                    s.feed(data[sent:at + step[1]])
                    sent = at + step[1]
            else:
                at += 8 * len(step[1])
                cut = at - step[2]
                if sent < cut:
                    s.feed(data[sent:cut])
                s.feed(data[max(sent, cut):at])
                sent = at
                s.expect(at)
        rc, out, err = s.finish()
    finally:
        s.kill()
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], cs, Fraction(2) + changes, what)


def classify(case):
    ev, cs, changes, used = model(case)
    text = "".join(s[1] for s in case["steps"] if s[0] == "freq")
    lines = text.split("\n")
    labels = []
    if any(not usable(x) for x in lines[:-1]):
        labels.append("unusable line")
    if any(len(x) >= 99 for x in lines[:-1]):
        labels.append("overlong line")
    if any(s[0] == "freq" and not s[1].endswith("\n") for s in case["steps"]):
        labels.append("value split across writes")
    if any(s[0] == "head" for s in case["steps"]):
        labels.append("event pending over a change")
    if any(s[0] == "close" for s in case["steps"]):
        labels.append("channel closed")
    if len(text) > 99:
        labels.append("more than one buffer of values")
    return len(set(used)) >= 2 and max(abs(c) for c in cs) > 10, labels


# ------------------------------------------------- events without a pause

@st.composite
def _busy(draw):
    """A long input that never runs dry, the values ready beside it."""
    lines = draw(st.lists(st.one_of(offsets(False).map(str), bad_lines()), max_size=2))
    lines.append(str(draw(offsets(False))))
    return {"lines": lines, "n": draw(st.integers(20000, 40000)), "legacy": draw(st.booleans()),
            "step": draw(gen.wide(1, 1 << 34)), "base": draw(gen.wide(0, (1 << 54) - 1)),
            "f": draw(offsets(False)), "via": draw(st.sampled_from(["fifo", "file"])),
            "src": draw(st.sampled_from(["-i", "stdin"]))}


def check_busy(case, env):
    d = env.newdir()
    text = "\n".join(case["lines"]) + "\n"
    ev = [((case["base"] + i * case["step"]) % freqcd.MOD, i % 1024) for i in range(case["n"])]
    with open(os.path.join(d, "in.dat"), "wb") as f:
        f.write(ref.encode_events(ev, "a1", case["legacy"]))
    args = ["-f", str(case["f"]), "-F", "freq", "-o", "out.dat"] + ["-x"] * case["legacy"]
    args += ["-i", "in.dat"] * (case["src"] == "-i")
    path, w = os.path.join(d, "freq"), None
    if case["via"] == "fifo":
        os.mkfifo(path)
        w = os.open(path, os.O_RDWR)
        os.write(w, text.encode())
    else:
        with open(path, "w") as f:
            f.write(text)
    what = f"freqcd {' '.join(args)} ({case['n']} events at once, {len(text)} bytes of values)"
    try:
        with open(os.path.join(d, "in.dat"), "rb") as stdin:
            p = subprocess.run([env.data["freqcd"]] + args, cwd=d, env=freqcd.ENVIRON, timeout=60,
                               stdin=stdin if case["src"] == "stdin" else subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise Violation(f"{what}: still running after 60s")
    finally:
        if w is not None:
            os.close(w)
    if p.returncode:
        raise Violation(f"{what}: exit {p.returncode}: {p.stderr[-300:]!r}")
    with open(os.path.join(d, "out.dat"), "rb") as f:
        got = ref.decode_events(f.read(), "a1", case["legacy"])
    if len(got) != case["n"] or [q for _, q in got] != [q for _, q in ev]:
        raise Violation(f"{what}: {len(got)} events out, or their other bits changed")
    good = [int(x) for x in case["lines"] if usable(x)]
    seen = {case["f"], *good}
    corr = [(g - t) % freqcd.MOD for (g, _), (t, _) in zip(got, ev)]
    # from the middle on, at the latest, the last value is in force
    half = case["n"] // 2
    for i in (case["n"] - 1, (case["n"] + half) // 2):
        want = Fraction((i - half) * case["step"] * good[-1], 1 << 34)
        diff = freqcd.off(corr[i] - corr[half], want)
        if abs(diff) > 3:
            raise Violation(f"{what}: between events {half} and {i} the correction grows by "
                            f"{float(want + diff):.1f}, at {good[-1]} it should by {float(want):.1f}")
    # before, some value given is
    lo, hi = min(seen), max(seen)
    for i in range(1, half, 997):
        diff = freqcd.off(corr[i], 0)
        a, b = (Fraction(i * case["step"] * v, 1 << 34) for v in (lo, hi))
        if not a - 3 <= diff <= b + 3:
            raise Violation(f"{what}: event {i} is corrected by {float(diff):.1f}, which no value "
                            f"given accounts for ({float(a):.1f} to {float(b):.1f})")


def classify_busy(case):
    good = [int(x) for x in case["lines"] if usable(x)]
    return (good[-1] != case["f"] and abs(case["step"] * case["n"] * (good[-1] - case["f"])) >> 34 > 20,
            [case["via"], case["src"]])


# ------------------------------------------------------- one update after another

@st.composite
def _updates(draw):
    f = draw(offsets(False))
    near = st.integers(-300, 300).map(lambda d: max(1 - freqcd.FMAX, min(freqcd.FMAX - 1, f + d)))
    return {"f": f, "values": draw(st.lists(near, min_size=1, max_size=8)),
            "n": draw(st.integers(60, 400)), "gap": draw(st.integers(1, 1 << draw(st.integers(12, 44)))),
            "base": draw(gen.wide(0, 1 << 51)), "legacy": draw(st.booleans())}


def unfold(case):
    """A value, an event, a value, an event..."""
    steps = [["events", [0], 0]]
    for i in range(case["n"]):
        steps.append(["freq", f"{case['values'][i % len(case['values'])]}\n"])
        steps.append(["events", [case["gap"] + i * 977 % 4096], 0])
    return dict(case, steps=steps, give_f=True)


def check_updates(case, env):
    """Each change costs no more than the resolution of the elapsed time, 2^12 units."""
    case = unfold(case)
    ev, cs, _, _ = model(case)
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    s = freqcd.Session(env.data["freqcd"], args, env.newdir(), freq=True)
    what = f"freqcd {' '.join(args)} -F, {case['n']} values"
    try:
        at, f, tol, tols = 0, case["f"], Fraction(2), []
        for step in case["steps"]:
            if step[0] == "freq":
                s.frequency(step[1].encode())
                tol += Fraction(abs(int(step[1]) - f), 1 << 22)
                f = int(step[1])
            else:
                s.feed(data[at:at + 8])
                at += 8
                s.expect(at)
                tols.append(tol)
        rc, out, err = s.finish()
    finally:
        s.kill()
    if rc:
        raise Violation(f"{what}: exit {rc}, {err[-300:]}")
    freqcd.compare(out, ev, case["legacy"], cs, tols, what)


def classify_updates(case):
    _, cs, changes, used = model(unfold(case))
    return changes > 50 and abs(cs[-1]) > 10, ["correction above 1000 units"] * (abs(cs[-1]) > 1000)


PARTS = [Part("updates", _updates, check_updates, classify_updates, quick=120, thorough=2500, chunk=5),
         Part("busy", _busy, check_busy, classify_busy, quick=160, thorough=3000),
         Part("history", _case, check, classify, quick=5000, thorough=100000, regressions=[
    {"steps": [["events", [0], 0], ["freq", p], ["freq", q], ["events", [1 << 45], 0]],
     "f": 7, "give_f": True, "legacy": False, "base": 5}
    for p, q in (("340", "000\n"), ("1", "2\n3"), ("4294967301\n", "5"), ("x" * 99, "123\n"),
                 ("9" * 50, "9" * 60 + "\n"), ("-2147483648\n", "-9223372036854775808\n"))])]
