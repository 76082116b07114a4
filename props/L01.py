"""Log messages: every detail once, aligned, at the right verbosity, in every sink."""
import re

from hypothesis import strategies as st

from vf.client import Violation
from vf.core import Part

RULE = ("'format': generated messages, indents, details (list, tuple or dictionary), delimiters "
        "and overridden function, file and line: the text holds the message and each detail once "
        "and in order; human-readable details stand on lines of their own whose delimiter is "
        "below that of the first line and one step further in. 'levels': verbosity counts and "
        "labels map to their levels. 'sinks': generated sequences of messages through a logger "
        "with a log file: exactly those at or above the level appear, once and alike in both, the "
        "older log replaced. 'program': fpfind on one pair of generated event files at several "
        "verbosities, with and without '-L FILE', an older file standing there or not: the file "
        "and standard error hold the same lines, their levels are those of the verbosity, a "
        "quieter run holds just the lines of a louder one at or above its level, and the result "
        "is the same. Non-trivial: at least two details / messages on both sides of the level / "
        "a run with a log file.")

WORD = st.text("abcdefghij klm:=%{}.-", min_size=1, max_size=20).map(
    lambda s: s.strip() or "x")
DELIMS = ["| ", "| ", "| ", "=> ", "::"]
FMT = ["{levelname:<7s}\t{funcName}:{lineno}\t| {message}", "{filename} {levelname} | {message}",
       "{funcName}:{lineno} {filename}| {message}"]


@st.composite
def _format(draw):
    details = draw(st.lists(WORD, max_size=4))
    kind = draw(st.sampled_from(["list", "tuple", "dict"]))
    over = {}
    if draw(st.booleans()):
        over["_funcname"] = draw(st.text("abc[]", min_size=1, max_size=8))
    if draw(st.booleans()):
        over["_filename"] = draw(st.text("xyz.", min_size=1, max_size=8))
    if draw(st.booleans()):
        over["_lineno"] = draw(st.integers(1, 99999))
    delim = draw(st.sampled_from(DELIMS))
    msg = draw(st.one_of(WORD, WORD, st.just(""), st.lists(WORD, min_size=2, max_size=3).map(
        lambda w: (delim.join(w)).strip())))
    if msg:
        msg += " " * draw(st.sampled_from([0, 0, 0, 1, 2, 5]))
    return {"human": draw(st.booleans()), "fmt": draw(st.integers(0, len(FMT) - 1)),
            "indent": draw(st.integers(0, 6)), "msg": msg, "delim": delim, "details": details, "kind": kind,
            "given": draw(st.sampled_from([True, True, True, False])), "over": over}


def check_format(case, env):
    delim = case["delim"]
    fmt = FMT[case["fmt"]].replace("| ", delim)
    msg = " " * case["indent"] + case["msg"]
    d = case["details"]
    if case["kind"] == "dict":
        d = {f"k{(i * 7 + 5) % 10}": v for i, v in enumerate(d)}   # not in alphabetical order
    elif case["kind"] == "tuple":
        d = tuple(d)
    out = env.sut("log_format", human=case["human"], delimiter=None if delim == "| " else delim, fmt=fmt, msg=msg, details=d,
                  override=case["over"], with_details=case["given"])
    head = fmt.format(levelname="INFO", message=msg, lineno=case["over"].get("_lineno", 42),
                      funcName=case["over"].get("_funcname", "origfunc"),
                      filename=case["over"].get("_filename", "orig.py"))
    what = f"{msg!r} with {d!r}" if case["given"] else f"{msg!r}"
    if not case["given"]:
        want = head
    elif not case["human"]:
        want = f"{head}\t{d}"
    else:
        rows = [f"{k}: {v}" for k, v in d.items()] if isinstance(d, dict) else list(d)
        pre = head[:len(head) - len(msg)]
        blank = "".join(c if c.isspace() else " " for c in pre[:-len(delim)]) + delim
        lines = [head]
        step = " " * case["indent"] + "  "
        if not case["msg"]:
            # no text: the first detail takes its place; how far in is left open
            got = out.split("\n")
            if len(got) != max(1, len(rows)) or (rows and not (
                    got[0].startswith(pre) and got[0][len(pre):].strip() == rows[0].strip())):
                raise Violation(f"{what}: {out!r}")
            for g, r in zip(got[1:], rows[1:]):
                if not g.startswith(blank) or g[len(blank):].strip() != r.strip():
                    raise Violation(f"{what}: {out!r}")
            return
        lines += [f"{blank}{step}{r}" for r in rows]
        want = "\n".join(lines)
    if out != want:
        raise Violation(f"{what}: formatted as {out!r}, should be {want!r}")


def classify_format(case):
    return case["given"] and len(case["details"]) >= 2, [
        "human-readable" if case["human"] else "one line", case["kind"]] + \
        ["overridden"] * bool(case["over"])


@st.composite
def _levels(draw):
    return {"counts": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            "labels": draw(st.lists(st.sampled_from(["debug", "info", "warning", "error", "x", "",
                                                     None]), min_size=1, max_size=5))}


def check_levels(case, env):
    got = env.sut("log_levels", **case)
    want = [[{0: 30, 1: 20}.get(c, 10) for c in case["counts"]],
            [{"debug": 10, "info": 20, "error": 40}.get(x, 30) for x in case["labels"]]]
    if got != want:
        raise Violation(f"levels {got}, should be {want}")


@st.composite
def _sinks(draw):
    msgs = []
    for i in range(draw(st.integers(0, 8))):
        kind = draw(st.sampled_from([None, "list", "list", "tuple", "dict"]))
        n = draw(st.integers(0, 3)) if kind else 0
        text = draw(st.sampled_from(["", "  ", "m"])) if n else "m"
        if text == "m":
            text = draw(st.sampled_from(["", "    "])) + f"message-{i}"
        msgs.append([draw(st.sampled_from([10, 20, 30, 40])), text, kind,
                     [f"detail-{i}-{j}" for j in range(n)]])
    return {"messages": msgs, "level": draw(st.sampled_from(["debug", "info", "warning", "error", None])),
            "old": draw(st.sampled_from([None, "older text\n"])), "root": draw(st.booleans()),
            "human": draw(st.booleans())}


TOKEN = re.compile(r"message-\d+|detail-\d+-\d+")


def check_sinks(case, env):
    d = env.newdir()
    got = env.sut("log_file", path=d + "/log", **case)
    lim = {"debug": 10, "info": 20, "warning": 30, "error": 40, None: 30}[case["level"]]
    want = [(lev, TOKEN.findall(text) + det) for lev, text, _, det in case["messages"] if lev >= lim]
    if got["handlers"] != 2 or not got["same"]:
        raise Violation(f"{got['handlers']} handlers after asking for the same logger twice")
    if not got["kept"]:
        raise Violation("logging a message changed the details it was given")
    for sink in ("file", "err"):
        have = []
        for line in got[sink].splitlines():
            lev = next((v for k, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30),
                                       ("ERROR", 40)) if k in line), None)
            if lev is not None:
                have.append((lev, []))
            if have:
                have[-1][1].extend(TOKEN.findall(line))
        if have != want:
            raise Violation(f"{sink}: {have}, should be {want}")
        if "older text" in got[sink]:
            raise Violation("the older log was kept")
    if got["file"] != got["err"] and not case["messages"] == []:
        strip = lambda s: [x.split("\t", 1)[-1] for x in s.splitlines()]  # noqa: clock ticks
        if strip(got["file"]) != strip(got["err"]):
            raise Violation("log file and standard error differ")


def classify_sinks(case):
    lim = {"debug": 10, "info": 20, "warning": 30, "error": 40, None: 30}[case["level"]]
    hit = {m[0] >= lim for m in case["messages"]}
    return len(hit) == 2, [str(case["level"])]


@st.composite
def _program(draw):
    runs = [{"v": v, "log": draw(st.sampled_from([True, True, False])), "old": draw(st.booleans()),
             "joined": draw(st.booleans())}
            for v in draw(st.sampled_from([[2, 1], [2, 0], [1, 0], [3, 1], [2, 1, 0], [1, 3, 0]]))]
    return {"k": 1, "q": draw(st.sampled_from([12, 13, 14])), "R": draw(st.sampled_from([64, 512])),
            "r": 4, "s": 3.0, "S": 6.0, "dt": draw(st.floats(-5e4, 5e4)),
            "df": draw(st.sampled_from([0.0, 1e-6])), "N": draw(st.sampled_from([60, 240])),
            "na": 0, "nb": 0.5, "jitter": 0.1, "C": 1 << 40, "skip": 0,
            "cut": draw(st.sampled_from([0, 0, 0, 100])),
            "args": draw(st.sampled_from([[], [], ["-V", "2"], ["-P", "--precomp-stop", "2e-7"]])),
            "seed": draw(st.integers(0, (1 << 32) - 1)), "runs": runs}


LEVEL = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
TIME = re.compile(r"^\d{8}_\d{6}\t")
# names the options, the verbosity among them, so it differs between the runs
OWN = re.compile(r"verbosity=|logging=")


def _entries(text):
    """[level, message with its details] in order."""
    out = []
    for line in text.splitlines():
        if TIME.match(line):
            _, level, rest = line.split("\t", 2)
            out.append([LEVEL.get(level.strip(), 0), rest])
        elif out:
            out[-1][1] += "\n" + line
    return out


def check_program(case, env):
    runs = env.sut("fp_log_case", case=case, directory=env.newdir(), cpu=300)
    louder = None
    for v, r in zip(case["runs"], runs):
        what = "fpfind " + " ".join(r["argv"])
        lim = {0: 30, 1: 20}.get(v["v"], 10)
        have = _entries(r["err"])
        if v["log"] != (r["log"] is not None):
            raise Violation(f"{what}: log file {'missing' if v['log'] else 'written'}")
        if v["log"]:
            if "older log" in r["log"]:
                raise Violation(f"{what}: the older log was kept")
            logged = _entries(r["log"])
            if logged != have:
                raise Violation(f"{what}: log file and standard error differ: "
                                f"{_differ(logged, have)}")
        if any(level < lim for level, _ in have):
            raise Violation(f"{what}: {min(have)} shown")
        if lim <= 20 and lim not in [level for level, _ in have]:
            raise Violation(f"{what}: nothing of level {lim} in {len(have)} messages")
        mine = [e for e in have if not OWN.search(e[1])]
        res = [r["code"], r["exc"] and r["exc"][:2], r["out"]]
        if louder:
            top = max(lim, louder[0], 20)      # the lowest level tells the time needed
            x = [e for e in louder[1] if e[0] >= top]
            y = [e for e in mine if e[0] >= top]
            if x != y:
                raise Violation(f"{what}: messages differ from a run with another verbosity: "
                                f"{_differ(y, x)}")
            if res != louder[2]:
                raise Violation(f"{what}: {res}, with another verbosity {louder[2]}")
        louder = [lim, mine, res]


def _differ(x, y):
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f"message {i}: {x[i:i + 1]} and {y[i:i + 1]}"


def classify_program(case):
    return any(v["log"] for v in case["runs"]), ["-" + "v" * v["v"] for v in case["runs"] if v["v"]]


PARTS = [
    Part("program", _program, check_program, classify_program, quick=60, thorough=600),
    Part("format", _format, check_format, classify_format, quick=6000, thorough=60000),
    Part("levels", _levels, check_levels, lambda c: (len(c["counts"]) > 1, []), quick=400,
         thorough=2000),
    Part("sinks", _sinks, check_sinks, classify_sinks, quick=1000, thorough=8000)]
