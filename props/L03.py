"""Help texts name every option with its whole text, at any terminal width."""
import re

from hypothesis import strategies as st

from vf.client import Violation
from vf.core import Part

RULE = ("'parser': generated parsers (flags, options with and without values, positional arguments, "
        "groups, wrapped and raw help texts, terminal widths): the help formatted by fpfind's "
        "formatter must hold, for each argument, its names, value and whole help text, raw texts "
        "line by line, and nothing may be printed while formatting. 'description': generated module "
        "documentation: the description is its text up to the changelog, first paragraph apart. "
        "'program': fpfind -h at generated widths and with further options names every option, on "
        "standard error only. Non-trivial: at least three arguments, one with a value / at "
        "least two paragraphs / width below 200.")

WORD = st.text("abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-_.,:;'/+=()<>", min_size=1, max_size=14)
NAME = st.text("abcdefghijklmnopqrstuvwxyz", min_size=2, max_size=9)


@st.composite
def _parser(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=7, unique=True))
    letters = draw(st.permutations("abcdefgijkABCDEXYZ"))
    args = []
    for i, name in enumerate(names):
        kind = draw(st.sampled_from(["flag", "flag", "count", "value", "value", "value",
                                     "optional value", "pair", "positional"]))
        if name == "help":
            name = "helpme"
        opts = {0: ["--" + name], 1: ["-" + letters[i]], 2: ["-" + letters[i], "--" + name]}[
            draw(st.integers(0, 2))]
        metavar = draw(st.sampled_from([None, "", "FILE", "x"]))
        if kind == "positional":
            opts, metavar = [name], metavar or None
        words = draw(st.lists(WORD, min_size=1, max_size=draw(st.sampled_from([3, 20]))))
        raw = draw(st.integers(0, 3)) == 0
        text = " ".join(words)
        if raw:
            rows = [" ".join(words[j:j + 4]) for j in range(0, len(words), 4)]
            rows = [" " * draw(st.sampled_from([0, 0, 0, 1, 2, 4])) + r for r in rows]
            if draw(st.integers(0, 3)) == 0:
                rows.insert(draw(st.integers(0, len(rows) - 1)), "")
            text = "\n".join(rows)
        default = draw(st.sampled_from([None, None, 7, "ab"])) if kind == "value" else None
        if default is not None:
            text += " (default: %(default)s)"
        args.append({"kind": kind, "opts": opts, "metavar": metavar, "text": text, "raw": raw,
                     "default": default, "group": draw(st.integers(0, 2))})
    return {"args": args, "columns": draw(st.one_of(st.integers(20, 100), st.integers(100, 300)))}


def invocation(a):
    if a["kind"] == "positional":
        return a["metavar"] or a["opts"][0]
    m = a["metavar"]
    if m is None:
        m = next((o[2:] for o in a["opts"] if o.startswith("--")), a["opts"][0][1:]).upper()
    value = {"value": f" {m}", "optional value": f" [{m}]", "pair": f" {m} {m}"}.get(a["kind"], "")
    return ", ".join(a["opts"]) + value


def solid(s):
    return re.sub(r"\s+", "", s)


def raw_at(lines, want, w):
    """Do the lines, w columns in, hold the raw text as written?"""
    return lines[0][w:].rstrip() == want[0].rstrip() and all(
        x[w:].rstrip() == y.rstrip() and not x[:w].strip() for x, y in zip(lines[1:], want[1:]))


def check_parser(case, env):
    got = env.sut("help_format", args=case["args"], columns=case["columns"])
    if got["stray"]:
        raise Violation(f"printed {got['stray']!r} while formatting help")
    out = solid(got["help"])
    lines = got["help"].splitlines()
    for a in case["args"]:
        inv = invocation(a)
        text = a["text"].replace("%(default)s", str(a["default"]))
        if solid(inv) + solid(text) not in out:
            raise Violation(f"no '{inv}' with help {text!r} in\n{got['help']}")
        if a["raw"]:
            want = text.split("\n")
            ok = any(raw_at(lines[i:i + len(want)], want, w) for w in range(2, 80)
                     for i in range(len(lines) + 1 - len(want)))
            if not ok:
                raise Violation(f"lines of raw text {text!r} not kept in\n{got['help']}")


def classify_parser(case):
    return len(case["args"]) >= 3 and any(a["kind"] != "flag" for a in case["args"]), \
        sorted({a["kind"] for a in case["args"]}) + ["raw"] * any(a["raw"] for a in case["args"])


@st.composite
def _description(draw):
    line = st.lists(WORD, min_size=1, max_size=6).map(" ".join)
    paras = draw(st.lists(st.lists(line, min_size=1, max_size=4), min_size=1, max_size=5))
    seps = [draw(st.integers(1, 3)) for _ in paras]
    log = draw(st.one_of(st.none(), st.lists(st.one_of(line, line, line, st.just("Changelog: x")),
                                             max_size=4)))
    return {"paras": paras, "seps": seps, "log": log, "lead": draw(st.sampled_from(["", "", "\n"]))}


def check_description(case, env):
    doc = case["lead"] + "".join("\n".join(p) + "\n" * (1 + n) for p, n in zip(case["paras"], case["seps"]))
    full = doc
    if case["log"] is not None:
        full += "Changelog:\n" + "\n".join(case["log"])
    got = env.sut("help_description", doc=full)
    if "Changelog:" in doc:
        return
    if got.split() != doc.split():
        raise Violation(f"description of {full!r} is {got!r}")
    lines = doc.split("\n")
    first = lines[1] if case["lead"] else lines[0]
    want = ("\n\n" if case["lead"] else "") + first
    if not got.startswith(want) or got[len(want):].count("\n") > 2:
        raise Violation(f"description of {full!r} is {got!r}: the first line is not a paragraph")


def classify_description(case):
    return len(case["paras"]) >= 2, ["with changelog"] * (case["log"] is not None)


OPTIONS = [["-h", "--help"], ["-v", "--verbosity"], ["-L", "--logging"], ["--quiet"], ["--config"],
           ["--save"], ["-t", "--reference"], ["-T", "--target"], ["-X", "--legacy"],
           ["-Z", "--skip-duration"], ["-d", "--sendfiles"], ["-D", "--t1files"],
           ["-e", "--first-epoch"], ["-z", "--skip-epochs"], ["-k", "--num-wraps"],
           ["-q", "--buffer-order"], ["-R", "--initial-res"], ["-r", "--final-res"],
           ["-s", "--separation"], ["-S", "--threshold"], ["-V", "--output"],
           ["-P", "--precomp-enable"], ["--precomp-start"], ["--precomp-step"], ["--precomp-stop"],
           ["--precomp-ordered"], ["--precomp-fullscan"]]


@st.composite
def _program(draw):
    argv = draw(st.permutations([["-h"], *draw(st.lists(st.sampled_from(
        [["-v"], ["-q", "12"], ["-t", "nofile"], ["-T", "nofile"], ["-P"], ["-V", "3"]]),
        max_size=3, unique_by=lambda x: x[0]))]))
    return {"columns": draw(st.integers(20, 300)),
            "argv": draw(st.sampled_from([[], None, None, None])) if draw(st.booleans())
            else [x for a in argv for x in a]}


def check_program(case, env):
    argv = ["-h"] if case["argv"] is None else case["argv"]
    got = env.sut("help_program", argv=argv, columns=case["columns"], directory=env.newdir())
    what = f"fpfind {' '.join(argv)} ({case['columns']} columns)"
    if got["exc"] or got["code"] not in (0, 1):
        raise Violation(f"{what}: {got['exc']} exit {got['code']}")
    if got["out"] and got["err"]:
        raise Violation(f"{what}: printed {got['out'][:200]!r} beside the help")
    text = (got["out"] or got["err"]).partition("usage")[2]
    flat = solid(text)
    for o in OPTIONS:
        if flat.count(",".join(o)) < 1:
            raise Violation(f"{what}: {', '.join(o)} is not named in {text[-600:]}")


PARTS = [Part("parser", _parser, check_parser, classify_parser, quick=2500, thorough=40000),
         Part("description", _description, check_description, classify_description,
              quick=1500, thorough=20000),
         Part("program", _program, check_program,
              lambda c: (c["columns"] < 200, ["no arguments"] * (c["argv"] == [])),
              quick=120, thorough=2000)]
