"""freqcd refuses what it cannot honour, and survives whatever it is fed."""
import fcntl
import getopt
import os
import signal
import subprocess
import time
from fractions import Fraction

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import Violation
from vf.core import Part
from props.C01 import TOL, chronological, offsets

RULE = ("'offset': generated values for -f around and far beyond the admitted range, and texts "
        "that are not integers, in either unit, beside other options or in one word with them: admitted ones are applied, others end with a "
        "failure status, no output and existing files untouched. 'names': generated file names "
        "(blanks, any length, several separators, non-ASCII) for input, output and frequency file "
        "with decoy files under the cut-off names: exactly the named files are used, or the run "
        "fails and touches nothing. 'junk': arbitrary bytes as events and as frequency values into "
        "builds with address and bounds checking or checks for uninitialised memory: one event out per 8 bytes in, bits beside the "
        "time untouched, clean exit. 'faults': input, output or frequency file that is closed, full, "
        "a directory, missing, without reader or of the wrong direction: the run ends, a failure to "
        "open is reported, and what was written is right. 'same': input and output are one file, under one name or two: the run "
        "fails and leaves it alone, or leaves the right result. 'stalled': an output pipe that takes only "
        "so much and does not wait, emptied now and then: what comes out is right up to where it ends, "
        "and an early end is reported. 'words': whole generated command lines: well-formed ones do what the usual reading of "
        "options asks for, malformed ones end without memory errors and leave the files to be read alone. Non-trivial: the value is not admitted, "
        "the name holds a blank or exceeds 100 characters, the junk fills more than one frequency "
        "buffer, or something is faulty.")
ASSUMPTIONS = ["integers padded with blanks, and -d together with -F, are left open"]


def setup(env):
    env.data["freqcd"] = freqcd.build(env)
    env.data["asan"] = freqcd.build(env, sanitize=True)
    env.data["msan"] = freqcd.build(env, sanitize="memory")


LIMIT = {False: freqcd.FMAX - 1, True: 1220703}
EVENTS = [[1000, 5], [1000 + (1 << 40), 0x3ff], [1000 + (1 << 45), 2]]


def value(text):
    """The integer a text stands for, None if it is not one."""
    body = text[1:] if text[:1] in ("-", "+") else text
    return int(text) if body.isascii() and body.isdigit() else None


@st.composite
def _offset(draw):
    decimal = draw(st.booleans())
    m = LIMIT[decimal]
    far = st.one_of(
        st.integers(m + 1, m + 300), gen.wide(m + 1, 1 << 24), gen.wide(1 << 31, 1 << 34),
        st.integers(m + 1, 1 << 80), gen.wide(1, 1 << 40).map(lambda k: (k << 32) + 77),
        gen.wide(1, 1 << 20).map(lambda k: (k << 64) + 5),
        st.sampled_from([2097152, 2097153, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
                         (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, 1 << 64]))
    text = draw(st.one_of(
        far.map(str), far.map(lambda v: "-" + str(v)),
        st.integers(m - 300, m).map(str), st.integers(m - 300, m).map(lambda v: "-" + str(v)),
        offsets(decimal).map(str),
        st.sampled_from(["", "abc", "1.5", "1e3", "12abc", "0x10", "--5", "-", "5,6", "nan", "inf",
                         "1_000", "5-", "1/2", "99999x", "0.0", "1.", ".5", "-1.0e-6"]),
        st.tuples(st.integers(-999, 999), st.text("abcxyz.,;:/eE_", min_size=1, max_size=4)).map(
            lambda p: f"{p[0]}{p[1]}"),
        st.text("abcXYZ.,%$_", min_size=1, max_size=8)))
    return {"text": text, "decimal": decimal, "legacy": draw(st.booleans()),
            "d_first": draw(st.booleans()),
            "join": draw(st.sampled_from(["", "", "text", "flags", "both"])),
            "out": draw(st.sampled_from(["none", "existing", "fresh"]))}


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def check_offset(case, env):
    d = env.newdir()
    v = value(case["text"])
    good = v is not None and abs(v) <= LIMIT[case["decimal"]]
    ev = [tuple(e) for e in EVENTS]
    data = ref.encode_events(ev, "a1", case["legacy"])
    args = ["-f", case["text"]]
    if case["join"] in ("flags", "both"):   # several options in one word
        args = ["-" + "d" * case["decimal"] + "x" * case["legacy"] + "f", case["text"]]
    else:
        if case["decimal"]:
            args = ["-d"] + args if case["d_first"] else args + ["-d"]
        args += ["-x"] * case["legacy"]
    if case["join"] in ("text", "both") and case["text"]:
        i = args.index(case["text"])
        args[i - 1:i + 1] = ["".join(args[i - 1:i + 1])]
    if case["out"] != "none":
        args += ["-o", "out.dat"]
    if case["out"] == "existing":
        with open(os.path.join(d, "out.dat"), "wb") as f:
            f.write(b"precious")
    before = snapshot(d)
    rc, out, err = freqcd.run(env.data["freqcd"], args, data, d)
    what = f"freqcd {args}"
    if not good:
        if rc == 0:
            raise Violation(f"{what}: accepted (exit 0, {len(out)} bytes on standard output)")
        if out:
            raise Violation(f"{what}: exit {rc}, yet {len(out)} bytes of output")
        if snapshot(d) != before:
            raise Violation(f"{what}: exit {rc}, yet files changed")
        return
    if rc:
        raise Violation(f"{what}: exit {rc}: {err[-200:]}")
    if case["out"] != "none":
        out = snapshot(d)["out.dat"]
    f = Fraction(v << 34, 10 ** 10) if case["decimal"] else Fraction(v)
    tol = [TOL + (Fraction(t - 1000, 1 << 34) if case["decimal"] else 0) for t, _ in ev]
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, f), tol, what)


def classify_offset(case):
    v = value(case["text"])
    bad = v is None or abs(v) > LIMIT[case["decimal"]]
    return bad, ["not an integer" if v is None else "out of range" if bad else "admitted",
                 "decimal" if case["decimal"] else "binary"]


# -------------------------------------------------------------------- names

@st.composite
def filename(draw):
    kind = draw(st.sampled_from(["plain", "blank", "long", "path", "odd"]))
    if kind == "plain":
        return "n" + draw(st.text("abcdefgh.-_0123", max_size=30))
    if kind == "blank":
        a, b = draw(st.text("abcd", min_size=1, max_size=6)), draw(st.text("efgh", min_size=1, max_size=6))
        name = a + draw(st.sampled_from([" ", "  ", "\t", "\n", " \t"])) + b
        return draw(st.sampled_from([name, name, name + " ", " " + name]))
    if kind == "long":
        n = draw(st.one_of(st.integers(100, 250), st.integers(190, 210)))
        return "".join(chr(97 + i % 26) for i in range(n))
    if kind == "path":
        n = draw(st.integers(1, 400))
        return "./" * n + draw(st.text("abc", min_size=1, max_size=60))
    name = draw(st.text("%sdxé世\\'\"$*?[-", min_size=1, max_size=12))
    return "%s" if name == "-" else name


@st.composite
def _names(draw):
    ts = draw(chronological(min_size=1, max_size=6))
    return {"events": [[t, 1 + i] for i, t in enumerate(ts)],
            "in": draw(st.one_of(st.none(), filename())),
            "out": draw(st.one_of(st.none(), filename())),
            "freq": draw(st.one_of(st.none(), filename())),
            "missing": draw(st.sampled_from([None, None, None, None, "in", "freq"])),
            "f": draw(offsets(False))}


def cuts(name):
    """Names a careless reading of NAME would end up with."""
    out = {name.split()[0] if name.split() else "", name[:199], name[:200], name[:198],
           name[:200].split()[0] if name[:200].split() else ""}
    out |= {os.path.basename(x) for x in list(out)}
    return {os.path.normpath(x) for x in out if x.strip("/.") and "/" not in os.path.normpath(x)}


def short(name):
    return name if len(name) < 40 else f"{name[:30]}...({len(name)} chars)"


def check_names(case, env):
    d = env.newdir()
    ev = [tuple(e) for e in case["events"]]
    data = ref.encode_events(ev, "a1", False)
    real = {k: os.path.normpath(case[k]) for k in ("in", "out", "freq") if case[k] is not None}
    if len(set(real.values())) < len(real):
        return
    decoys = set().union(*[cuts(case[k]) for k in real]) - set(real.values())
    for n in decoys:
        if len(n.encode()) <= 250:
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"decoy!!!")
    args, feed = [], data
    if "in" in real:
        args += ["-i", case["in"]]
        feed = b""
        if case["missing"] != "in":
            with open(os.path.join(d, real["in"]), "wb") as f:
                f.write(data)
    if "freq" in real:
        args += ["-F", case["freq"]]
        if case["missing"] != "freq":
            with open(os.path.join(d, real["freq"]), "wb") as f:
                f.write(b"")
    if "out" in real:
        args += ["-o", case["out"]]
    args += ["-f", str(case["f"])]
    before = snapshot(d)
    rc, out, err = freqcd.run(env.data["freqcd"], args, feed, d)
    what = f"freqcd {[short(a) for a in args]}"
    after = snapshot(d)
    missing = case["missing"] in real
    must = all(len(case[k].encode()) <= 190 for k in real) and not missing
    if rc == 0 and missing:
        raise Violation(f"{what}: exit 0 although its {case['missing']} file does not exist")
    if rc and must:
        raise Violation(f"{what}: exit {rc}: {err[-200:]}")
    if rc:
        # the files it can name may have been opened already; nothing else may change
        allowed = {real["out"]} if "out" in real else set()
        changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
        if changed - allowed:
            raise Violation(f"{what}: exit {rc}, yet {[short(c) for c in changed]} changed")
        if out:
            raise Violation(f"{what}: exit {rc}, yet {len(out)} bytes of output")
        return
    for n, content in before.items():
        if n != real.get("out") and after.get(n) != content:
            raise Violation(f"{what}: file {short(n)!r} was changed or removed")
    if "out" in real:
        if out:
            raise Violation(f"{what}: {len(out)} bytes on standard output")
        if real["out"] not in after:
            raise Violation(f"{what}: its output file was not created; files are "
                            f"{[short(n) for n in after]}")
        out = after.pop(real["out"])
    extra = set(after) - set(before)
    if extra:
        raise Violation(f"{what}: created {[short(n) for n in extra]}")
    freqcd.compare(out, ev, False, freqcd.static_corrections(ev, case["f"]), TOL, what)


def classify_names(case):
    names = [case[k] for k in ("in", "out", "freq") if case[k] is not None]
    blank = any(c.isspace() for n in names for c in n)
    long = any(len(n) > 100 for n in names)
    labels = [f"{k} named" for k in ("in", "out", "freq") if case[k] is not None]
    labels += ["blank in name"] * blank + ["name over 100"] * long
    labels += ["name over 199"] * any(len(n) > 199 for n in names)
    labels += ["missing file"] * (case["missing"] is not None and case[case["missing"]] is not None)
    return blank or long, labels


# --------------------------------------------------------------------- junk

def junk_lines():
    return st.one_of(
        st.binary(max_size=60), st.integers(0, 700).map(lambda n: b"7" * n),
        st.integers(0, 700).map(lambda n: b"\n" * n),
        st.integers(95, 105).map(lambda n: b"x" * n + b"\n"),
        st.integers(95, 105).map(lambda n: b"1" * n),
        gen.wide(-(1 << 66), 1 << 66).map(lambda v: str(v).encode() + b"\n"),
        gen.wide(-(1 << 22), 1 << 22).map(lambda v: str(v).encode() + b"\n"),
        st.just(b"\0" * 120), st.just(b"-\n+\n \n\t5\n"))


@st.composite
def _junk(draw):
    data = draw(st.one_of(st.binary(max_size=400),
                          st.tuples(st.binary(min_size=1, max_size=17), st.integers(0, 3000))
                          .map(lambda p: (p[0] * p[1])[:30000])))
    freq = b"".join(draw(st.lists(junk_lines(), max_size=8)))
    return {"data": data.hex(), "freq": freq.hex(), "legacy": draw(st.booleans()),
            "f": draw(offsets(False)), "via": draw(st.sampled_from(["file", "fifo"])),
            "build": draw(st.sampled_from(["asan", "msan"])), "first": draw(st.booleans()), "cut": draw(st.integers(0, 500))}


def check_junk(case, env):
    d = env.newdir()
    data, freq = bytes.fromhex(case["data"]), bytes.fromhex(case["freq"])
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    what = f"freqcd {' '.join(args)} -F ({case['via']}) on {len(data)} junk bytes"
    if case["via"] == "file":
        with open(os.path.join(d, "freq"), "wb") as f:
            f.write(freq)
        rc, out, err = freqcd.run(env.data[case["build"]], args + ["-F", "freq"], data, d)
    else:
        s = freqcd.Session(env.data[case["build"]], args, d, freq=True)
        try:
            a, b = data[:case["cut"]], data[case["cut"]:]
            if case["first"]:
                s.frequency(freq)
                s.feed(a)
            else:
                s.feed(a)
                s.frequency(freq)
            s.feed(b)
            rc, out, err = s.finish()
        finally:
            s.kill()
    if rc:
        raise Violation(f"{what}: exit {rc}: {err[-600:]}")
    n = len(data) // 8
    if len(out) != 8 * n:
        raise Violation(f"{what}: {len(out)} bytes out for {n} whole events in")
    was = ref.decode_events(data[:8 * n], "a1", case["legacy"])
    now = ref.decode_events(out, "a1", case["legacy"])
    for i, ((_, p), (_, q)) in enumerate(zip(was, now)):
        if p != q:
            raise Violation(f"{what}: event {i}: bits beside the time {p:#x} became {q:#x}")


def classify_junk(case):
    n, m = len(case["data"]) // 2, len(case["freq"]) // 2
    return m > 99, [case["via"], "over 1000 events" if n > 8000 else "up to 1000 events",
                    "torn last event" if n % 8 else "whole events"]


# ------------------------------------------------------------------- faults

@st.composite
def _faults(draw):
    n = draw(st.one_of(st.integers(0, 8), st.sampled_from([9000, 20000])))
    src = draw(st.sampled_from(["stdin", "file", "stdin closed", "stdin a directory", "a directory",
                                "missing", "stdin write-only"]))
    dst = draw(st.sampled_from(["stdout", "file", "stdout closed", "full device", "stdout full",
                                "no reader", "a directory", "missing directory", "stdout read-only"]))
    freq = draw(st.sampled_from([None, None, "file", "a directory", "missing"]))
    if src == "stdin closed":
        freq = None     # the descriptor of the frequency file would take its place
    return {"n": n, "start": draw(gen.wide(0, 1 << 53)), "src": src, "dst": dst, "freq": freq,
            "f": draw(offsets(False)), "legacy": draw(st.booleans())}


BAD_SRC = ("stdin closed", "stdin a directory", "a directory", "missing", "stdin write-only")
BAD_DST = ("stdout closed", "full device", "stdout full", "no reader", "a directory",
           "missing directory", "stdout read-only")


def check_faults(case, env):
    d = env.newdir()
    ev = [(case["start"] + i * 1000, 1 + i % 15) for i in range(case["n"])]
    data = ref.encode_events(ev, "a1", case["legacy"])
    os.mkdir(os.path.join(d, "dir"))
    for name, content in (("in.dat", data), ("f.txt", b"")):
        with open(os.path.join(d, name), "wb") as f:
            f.write(content)
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    args += {"file": ["-i", "in.dat"], "a directory": ["-i", "dir"],
             "missing": ["-i", "none/in.dat"]}.get(case["src"], [])
    args += {"file": ["-o", "out.dat"], "full device": ["-o", "/dev/full"], "a directory": ["-o", "dir"],
             "missing directory": ["-o", "none/out.dat"]}.get(case["dst"], [])
    args += {None: [], "file": ["-F", "f.txt"], "a directory": ["-F", "dir"],
             "missing": ["-F", "none/f.txt"]}[case["freq"]]
    fds = []
    def fd(path, flags):
        fds.append(os.open(path, flags))
        return fds[-1]
    stdin = subprocess.DEVNULL
    if case["src"] == "stdin":
        stdin = fd(os.path.join(d, "in.dat"), os.O_RDONLY)
    elif case["src"] == "stdin a directory":
        stdin = fd(os.path.join(d, "dir"), os.O_RDONLY)
    elif case["src"] == "stdin write-only":
        stdin = fd("/dev/null", os.O_WRONLY)
    stdout = subprocess.DEVNULL
    caught = os.path.join(d, "caught.dat")
    if case["dst"] == "stdout":
        stdout = fd(caught, os.O_WRONLY | os.O_CREAT)
    elif case["dst"] == "stdout full":
        stdout = fd("/dev/full", os.O_WRONLY)
    elif case["dst"] == "stdout read-only":
        stdout = fd("/dev/null", os.O_RDONLY)
    elif case["dst"] == "no reader":
        r, stdout = os.pipe()
        os.close(r)
        fds.append(stdout)
    redirect = " <&-" * (case["src"] == "stdin closed") + " >&-" * (case["dst"] == "stdout closed")
    argv = ["sh", "-c", 'exec "$0" "$@"' + redirect, env.data["freqcd"]] + args
    p = subprocess.Popen(argv, stdin=stdin, stdout=stdout, stderr=subprocess.PIPE, cwd=d,
                         env=freqcd.ENVIRON)
    what = f"freqcd {args} (input {case['src']}, output {case['dst']}, {case['n']} events)"
    try:
        _, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation(f"{what}: still running after 60s")
    finally:
        for x in fds:
            os.close(x)
    rc = p.returncode
    if rc < 0 and not (case["dst"] == "no reader" and rc == -signal.SIGPIPE):
        raise Violation(f"{what}: ended by signal {-rc}")
    with open(os.path.join(d, "in.dat"), "rb") as f:
        if f.read() != data:
            raise Violation(f"{what}: the input file was changed")
    unusable = (case["src"] == "missing" or case["freq"] == "missing"
                or case["dst"] in ("a directory", "missing directory"))
    if unusable and rc == 0:
        raise Violation(f"{what}: exit 0 although a named file cannot be opened")
    if case["dst"] not in ("stdout", "file"):
        return
    out = os.path.join(d, "out.dat") if case["dst"] == "file" else caught
    got = b""
    if os.path.exists(out):
        with open(out, "rb") as f:
            got = f.read()
    if case["src"] in BAD_SRC or case["freq"] == "missing":
        if got:
            raise Violation(f"{what}: {len(got)} bytes of output without input")
        return
    if case["freq"] == "a directory":
        # it may give up, but what it wrote must be right
        ev = ev[:len(got) // 8]
    elif rc:
        raise Violation(f"{what}: exit {rc}: {err[-200:]}")
    freqcd.compare(got, ev, case["legacy"], freqcd.static_corrections(ev, case["f"]), TOL, what)


def classify_faults(case):
    bad = [k + ": " + case[k] for k, l in (("src", BAD_SRC), ("dst", BAD_DST)) if case[k] in l]
    bad += [f"freq: {case['freq']}"] * (case["freq"] in ("a directory", "missing"))
    return bool(bad), bad or ["no fault"]


# --------------------------------------------------------------------- same

@st.composite
def _same(draw):
    return {"n": draw(st.sampled_from([0, 1, 3, 50, 2000])), "f": draw(offsets(False)),
            "legacy": draw(st.booleans()), "src": draw(st.sampled_from(["-i", "stdin"])),
            "as": draw(st.sampled_from(["in.dat", "./in.dat", "soft", "hard", "dir/../in.dat"])),
            "swap": draw(st.booleans())}


def check_same(case, env):
    """Input and output are one file: refused, or replaced by the right result."""
    d = env.newdir()
    ev = [((1 << 30) + i * 1000, 1 + i % 15) for i in range(case["n"])]
    data = ref.encode_events(ev, "a1", case["legacy"])
    src = os.path.join(d, "in.dat")
    with open(src, "wb") as f:
        f.write(data)
    os.mkdir(os.path.join(d, "dir"))
    os.symlink("in.dat", os.path.join(d, "soft"))
    os.link(src, os.path.join(d, "hard"))
    names = ["in.dat", case["as"]]
    if case["swap"]:
        names.reverse()
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"] + ["-o", names[1]]
    args += ["-i", names[0]] * (case["src"] == "-i")
    with open(src, "rb") as stdin:
        try:
            p = subprocess.run([env.data["freqcd"]] + args, cwd=d, env=freqcd.ENVIRON, timeout=60,
                               stdin=stdin if case["src"] == "stdin" else subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            raise Violation(f"freqcd {args}: still running after 60s")
    with open(os.path.join(d, names[1]), "rb") as f:
        out = f.read()
    what = f"freqcd {args} with the input {names[0]} the same file, {case['n']} events"
    if p.returncode:
        env.count("refused")
        if out != data:
            raise Violation(f"{what}: exit {p.returncode}, and of {len(data)} bytes {len(out)} are left")
        return
    freqcd.compare(out, ev, case["legacy"], freqcd.static_corrections(ev, case["f"]), TOL, what)


# -------------------------------------------------------------------- words

@st.composite
def _words(draw):
    """A whole command line, well formed or not."""
    num = st.one_of(offsets(False).map(str), offsets(True).map(str))
    name = st.sampled_from(["ev.dat", "f.txt", "new.dat", "none.dat"])
    word = st.one_of(
        st.tuples(st.just("-f"), num), st.tuples(num.map(lambda v: "-f" + v)),
        st.tuples(st.sampled_from(["-x", "-d", "-xd", "-dx", "-xx"])),
        st.tuples(num.map(lambda v: "-xf" + v)), st.tuples(st.just("-xf"), num),
        st.tuples(st.just("-o"), st.just("new.dat")), st.tuples(st.just("-onew.dat")),
        st.tuples(st.just("-xo"), st.just("new.dat")),
        st.tuples(st.just("-i"), st.just("ev.dat")), st.tuples(st.just("-iev.dat")),
        st.tuples(st.just("-F"), st.just("f.txt")),
        st.tuples(st.sampled_from(["--", "-f", "-o", "-i", "-F", "-xf", "-", "-q", "-xq", "ev.dat", "5",
                                   "--x", "-x-", "-:", "-f:", ""])),
        st.tuples(st.sampled_from(["-f", "-q", "-i", "-F"]), st.one_of(num, name)))
    words = [w for t in draw(st.lists(word, max_size=7)) for w in t]
    return {"words": words, "build": draw(st.sampled_from(["asan", "msan"])), "n": draw(st.sampled_from([0, 1, 2, 40])),
            "start": draw(gen.wide(0, 1 << 53))}


def intent(words):
    """What the words ask for by the usual reading of options; None when they are malformed."""
    try:
        opts, _ = getopt.getopt(words, "i:o:F:f:xd")
    except getopt.GetoptError:
        return None
    return opts


def check_words(case, env):
    d = env.newdir()
    words = case["words"]
    opts = intent(words)
    flags = [o for o, _ in opts or []]
    legacy, decimal = "-x" in flags, "-d" in flags
    ev = [(case["start"] + i * (1 << 36), 1 + i % 15) for i in range(case["n"])]
    data = ref.encode_events(ev, "a1", legacy)
    with open(os.path.join(d, "ev.dat"), "wb") as f:
        f.write(data)
    with open(os.path.join(d, "f.txt"), "wb") as f:
        f.write(b"")
    rc, out, err = freqcd.run(env.data[case["build"]], words, b"" if "-i" in flags else data, d)
    what = f"freqcd {words}"
    if rc < 0 or rc == 86:
        raise Violation(f"{what}: exit {rc}: {err[-600:]}")
    after = snapshot(d)
    if after.pop("ev.dat") != data or after.pop("f.txt") != b"":
        raise Violation(f"{what}: a file it was to read was changed")
    if opts is None:
        return
    last = dict(opts)
    values = [value(a) for o, a in opts if o == "-f"]
    limit = LIMIT[decimal]
    if None in values or any(abs(v) > limit for v in values[-1:]):
        bad = True
    elif any(abs(v) > limit for v in values):
        return      # overruled by a later one
    else:
        bad = False
    if any(a not in ("ev.dat", "f.txt", "new.dat") for o, a in opts if o in ("-i", "-o", "-F")):
        if any(not a for o, a in opts if o in ("-i", "-o", "-F")):
            return
        bad = bad or last.get("-i", "ev.dat") != "ev.dat" or last.get("-F", "f.txt") != "f.txt"
        if not bad:
            return
    if bad:
        if rc == 0:
            raise Violation(f"{what}: accepted")
        if out:
            raise Violation(f"{what}: exit {rc}, yet {len(out)} bytes of output")
        return
    if last.get("-i", "ev.dat") != "ev.dat" or last.get("-F", "f.txt") != "f.txt" or \
            last.get("-o", "new.dat") != "new.dat":
        return
    if rc:
        raise Violation(f"{what}: exit {rc}: {err[-200:]}")
    if "-o" in last:
        if out or "new.dat" not in after:
            raise Violation(f"{what}: {len(out)} bytes on standard output, files {sorted(after)}")
        out = after.pop("new.dat")
    if after:
        raise Violation(f"{what}: created {sorted(after)}")
    v = values[-1] if values else 0
    f = Fraction(v << 34, 10 ** 10) if decimal else Fraction(v)
    tol = [TOL + (Fraction(t - case["start"], 1 << 34) if decimal else 0) for t, _ in ev]
    freqcd.compare(out, ev, legacy, freqcd.static_corrections(ev, f), tol, what)


def classify_words(case):
    opts = intent(case["words"])
    return bool(case["words"]) and case["n"] > 1, [
        "malformed" if opts is None else "well formed", f"{min(5, len(case['words']))} words"]


# ------------------------------------------------------------------ stalled

@st.composite
def _stalled(draw):
    size = st.one_of(st.integers(1, 60), st.integers(400, 2600))
    return {"pieces": draw(st.lists(st.tuples(size, st.integers(0, 7)).map(list), min_size=2,
                                    max_size=6)),
            "room": draw(st.sampled_from([4096, 4096, 8192, 16384])),
            "drain": draw(st.lists(st.sampled_from([0, 1, 100, 1000, 4096, 5000, 1 << 16, 1 << 16]),
                                   min_size=6, max_size=6)),
            "f": draw(offsets(False)), "legacy": draw(st.booleans()),
            "start": draw(gen.wide(0, 1 << 50))}


def check_stalled(case, env):
    """Output that takes only so much at a time and does not wait: what comes
    out is right up to where it ends, and an early end is reported."""
    d = env.newdir()
    n = sum(k for k, _ in case["pieces"])
    ev = [(case["start"] + i * 100000, i % 1024) for i in range(n)]
    data = ref.encode_events(ev, "a1", case["legacy"])
    r, w = os.pipe()
    fcntl.fcntl(w, 1031, case["room"])      # F_SETPIPE_SZ
    for fd in (r, w):
        os.set_blocking(fd, False)
    args = ["-f", str(case["f"])] + ["-x"] * case["legacy"]
    what = f"freqcd {args} (output without waiting, room for {case['room']} bytes, {n} events)"
    p = subprocess.Popen([env.data["freqcd"]] + args, stdin=subprocess.PIPE, stdout=w,
                         stderr=subprocess.PIPE, cwd=d, env=freqcd.ENVIRON)
    os.close(w)
    out, at = b"", 0
    end = time.monotonic() + 60
    try:
        for i, (_, part) in enumerate(case["pieces"]):
            to = 8 * sum(x for x, _ in case["pieces"][:i + 1])
            cut = min(len(data), to + part if i + 1 < len(case["pieces"]) else len(data))
            try:
                view = memoryview(data)[at:max(at, cut)]
                while view:
                    m = os.write(p.stdin.fileno(), view[:8192])
                    view = view[m:]
                    while freqcd.pending(p.stdin.fileno()) and p.poll() is None:
                        if time.monotonic() > end:
                            raise Violation(f"{what}: input not read within 60s")
                        time.sleep(0.0001)
                at = max(at, cut)
            except BrokenPipeError:
                break
            left = case["drain"][i]
            while left:
                try:
                    b = os.read(r, left)
                except BlockingIOError:
                    break
                if not b:
                    break
                out += b
                left -= len(b)
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        while True:
            over = p.poll() is not None
            try:
                b = os.read(r, 1 << 16)
                out += b
                if not b:
                    break
            except BlockingIOError:
                if over:
                    break
                if time.monotonic() > end:
                    raise Violation(f"{what}: still running after 60s")
                time.sleep(0.0005)
        err = p.stderr.read()
        rc = p.wait()
    finally:
        p.kill()
        p.wait()
        os.close(r)
        p.stderr.close()
    if rc < 0:
        raise Violation(f"{what}: ended by signal {-rc}")
    got = ref.decode_events(out[:len(out) // 8 * 8], "a1", case["legacy"])
    env.count("cut short" if len(got) < n else "complete")
    if len(got) > n:
        raise Violation(f"{what}: {len(got)} events out")
    freqcd.compare(out[:8 * len(got)], ev[:len(got)], case["legacy"],
                   freqcd.static_corrections(ev[:len(got)], case["f"]), TOL, what)
    if len(out) < 8 * n and rc == 0 and b"rror" not in err:
        raise Violation(f"{what}: {len(out)} of {8 * n} bytes written, yet no error reported")


def classify_stalled(case):
    n = sum(k for k, _ in case["pieces"])
    return 8 * n > case["room"], [f"room {case['room']}"]


PARTS = [
    Part("words", _words, check_words, classify_words, quick=3000, thorough=60000),
    Part("stalled", _stalled, check_stalled, classify_stalled, quick=500, thorough=8000),
    Part("same", _same, check_same, lambda c: (c["n"] > 0, [c["as"], c["src"]]), quick=400,
         thorough=4000),
    Part("offset", _offset, check_offset, classify_offset, quick=8000, thorough=100000),
    Part("names", _names, check_names, classify_names, quick=6000, thorough=80000),
    Part("junk", _junk, check_junk, classify_junk, quick=1500, thorough=30000, regressions=[
        {"data": "00" * 16, "freq": (b"x" * n + b"1\n").hex(), "legacy": False, "f": 1,
         "via": v, "first": True, "cut": 8, "build": b} for n in (98, 99, 100, 200, 399)
        for v in ("file", "fifo") for b in ("asan", "msan")]),
    Part("faults", _faults, check_faults, classify_faults, quick=1500, thorough=20000),
]
