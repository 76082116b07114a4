"""The freqcd stand-in script builds the program, and behaves like it from the first call."""
import os
import shutil
import signal
import subprocess

from hypothesis import strategies as st

from vf import freqcd, gen, ref
from vf.client import REPO, Violation
from vf.core import Part

RULE = ("A fresh copy of the package and of its stand-in script, in a generated layout, is called "
        "several times from a generated directory, by absolute or relative path or by name, with "
        "generated arguments, file names and events. Every call, the first included, must have the "
        "exit status, standard output and output file of the directly compiled program; after the "
        "first call the program has replaced the script, its place is on record, and the recorded "
        "place can be compiled again. With a source that does not compile the call fails, says so, "
        "and leaves the script to try again. Non-trivial: the program is not called by its absolute "
        "path, or a file is named relatively.")
ASSUMPTIONS = [
    "The script runs as an unprivileged user inside a scratch copy; gcc, ps, awk and python3 are there.",
    "Program paths without blanks: the script takes its own path from ps, which separates by blanks."]
NOBODY = 65534


def setup(env):
    env.data["freqcd"] = freqcd.build(env)
    d = env.scratch
    while d not in ("/", "/dev/shm", "/tmp"):
        if os.stat(d).st_uid == os.getuid():
            os.chmod(d, os.stat(d).st_mode | 0o711)
        d = os.path.dirname(d)
    os.chmod(env.data["freqcd"], 0o755)


NAMES = ["ev.dat", "my events.dat", "-dash.dat", "a'b.dat", "star*.dat", "$HOME.dat", 'q"q.dat',
         "semi;colon.dat", "sub/ev.dat", "back\\slash.dat", "tab\tname.dat", "amp&.dat"]


@st.composite
def _call(draw):
    n = draw(st.integers(0, 40))
    t, ev = draw(gen.wide(0, 1 << 52)), []
    for _ in range(n):
        t += draw(st.sampled_from([1, 1000, 1 << 20, 1 << 34, 1 << 40]))
        ev.append([t % freqcd.MOD, draw(st.integers(0, 1023))])
    return {"events": ev,
            "f": draw(st.one_of(st.integers(-2097151, 2097151).map(str),
                                st.sampled_from([None, "2097153", "abc", "", "1 2", "*", "$HOME"]))),
            "legacy": draw(st.booleans()), "decimal": draw(st.integers(0, 5)) == 5,
            "in": draw(st.one_of(st.none(), st.sampled_from(NAMES))),
            "out": draw(st.one_of(st.none(), st.sampled_from(NAMES))),
            "help": draw(st.integers(0, 9)) == 9}


def _case():
    return st.fixed_dictionaries({
        "layout": st.sampled_from(["separate", "inside", "shared"]),
        "by": st.sampled_from(["absolute", "relative", "here", "name", "relative name", "dots"]),
        "calls": st.lists(_call(), min_size=1, max_size=4),
        "broken": st.sampled_from([False, False, False, True]),
        "again": st.booleans(),
    })


ENV = {"LANG": "C.UTF-8"}


def execute(argv, data, cwd, env, executable=None):
    p = subprocess.Popen(argv, executable=executable, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=env, user=NOBODY, group=NOBODY,
                         extra_groups=[], start_new_session=True)
    try:
        out, err = p.communicate(data, timeout=120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Violation(f"{argv} still running after 120s")
    return p.returncode, out, err.decode(errors="replace")


def snapshot(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def own(d):
    os.chown(d, NOBODY, NOBODY)
    for root, dirs, names in os.walk(d):
        for n in dirs + names:
            os.chown(os.path.join(root, n), NOBODY, NOBODY)


def check(case, env):
    d = env.newdir()
    os.chmod(d, 0o755)
    inst = os.path.join(d, "inst")
    shutil.copytree(os.path.join(REPO, "src/fpfind"), os.path.join(inst, "fpfind"),
                    ignore=shutil.ignore_patterns("__pycache__", "freqcd_path"))
    pkg = os.path.join(inst, "fpfind")
    # where the installer puts the script: a directory of its own, one within
    # the package's tree (virtual environments), or one holding the data too
    bindir = {"separate": os.path.join(d, "bin"), "inside": os.path.join(inst, "bin"),
              "shared": os.path.join(d, "w1")}[case["layout"]]
    works = [os.path.join(d, "w1"), os.path.join(d, "w2")]
    for x in [bindir, os.path.join(d, "tmp")] + works:
        os.makedirs(x, exist_ok=True)
    for w in works:
        os.makedirs(os.path.join(w, "sub"))
    program = os.path.join(bindir, "freqcd")
    shutil.copy(os.path.join(pkg, "freqcd"), program)
    os.chmod(program, 0o755)
    own(d)
    # two working directories alike: one for the script, one for the plain program
    mine, plain = works
    cwd = bindir if case["by"] == "here" else mine
    if case["by"] == "here":
        twin = os.path.join(d, "w3")
        os.makedirs(os.path.join(twin, "sub"))
        os.makedirs(os.path.join(bindir, "sub"), exist_ok=True)
        own(twin)
        own(bindir)
        plain = twin
    path = "/usr/bin:/bin"
    e = dict(ENV, PYTHONPATH=inst, TMPDIR=os.path.join(d, "tmp"), HOME=d,
             PYTHONDONTWRITEBYTECODE="1")
    executable = None
    if case["by"] in ("absolute", "name"):
        executable = program
    elif case["by"] == "here":
        executable = "./freqcd"
    elif case["by"] == "dots":
        executable = os.path.join("..", os.path.basename(mine), os.path.relpath(program, mine))
    else:
        executable = os.path.relpath(program, mine)
    if case["by"] == "name":
        path = bindir + ":" + path
    elif case["by"] == "relative name":
        path = os.path.relpath(bindir, mine) + ":" + path
    e["PATH"] = path
    if "/" not in executable:
        executable = "./" + executable
    argv0 = "freqcd" if "name" in case["by"] else executable

    source = os.path.join(pkg, "freqcd.c")
    if case["broken"]:
        with open(source) as f:
            text = f.read()
        with open(source, "w") as f:
            f.write(text + "\nint broken( {\n")
        with open(program, "rb") as f:
            before = f.read()
        if not before.startswith(b"#!"):
            return
        rc, out, err = execute([argv0], b"", cwd, e, executable)
        if rc == 0 or rc < 0:
            raise Violation(f"the source does not compile, yet the call ended with {rc}")
        if not (out + err.encode()).strip():
            raise Violation("the source does not compile, and the call says nothing")
        with open(program, "rb") as f:
            if f.read() != before:
                raise Violation("the source does not compile, and the script is gone")
        with open(source, "w") as f:
            f.write(text)
    for i, c in enumerate(case["calls"]):
        if i == 1:
            with open(program, "rb") as f:
                if f.read(4) != b"\x7fELF":
                    raise Violation("after the first call the script is still in place")
        data = ref.encode_events([tuple(x) for x in c["events"]], "a1", c["legacy"])
        args = []
        if c["help"]:
            args += ["-h"]
        if c["f"] is not None:
            args += ["-f", c["f"]]
        args += ["-d"] * c["decimal"] + ["-x"] * c["legacy"]
        if c["in"] is not None:
            args += ["-i", c["in"]]
            for w in (cwd, plain):
                with open(os.path.join(w, c["in"]), "wb") as f:
                    f.write(data)
        if c["out"] is not None and c["out"] != c["in"]:
            args += ["-o", c["out"]]
        stdin = b"" if c["in"] is not None else data
        want = execute(["freqcd"] + args, stdin, plain, {"LANG": "C.UTF-8", "PATH": "/usr/bin:/bin"},
                       env.data["freqcd"])
        got = execute([argv0] + args, stdin, cwd, e, executable)
        what = f"call {i + 1} of {executable} {args}"
        if got[0] != want[0]:
            raise Violation(f"{what}: exit {got[0]}, the program itself {want[0]}: {got[2][-300:]}")
        if got[1] != want[1]:
            raise Violation(f"{what}: standard output {got[1][:60]!r} ({len(got[1])} bytes), the "
                            f"program itself {want[1][:60]!r} ({len(want[1])} bytes)")
        a, b = snapshot(cwd), snapshot(plain)
        if os.path.samefile(cwd, bindir):
            a.pop("freqcd", None)
        if a != b:
            names = sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))
            raise Violation(f"{what}: files {names} differ from those of the program itself")
    with open(program, "rb") as f:
        if f.read(4) != b"\x7fELF":
            raise Violation("after the calls the script is still in place")
    if case["again"]:
        # the record names the program, which can be compiled anew from it
        try:
            with open(os.path.join(pkg, "freqcd_path")) as f:
                where = f.read().strip()
        except OSError as x:
            raise Violation(f"the place of the program is not on record: {x}")
        if not os.path.isabs(where) or os.path.realpath(where) != os.path.realpath(program):
            raise Violation(f"the record names {where!r}, the program is {program!r}")
        os.unlink(program)
        rc, out, err = execute(["./_postinstall", where], b"", pkg, e)
        if rc or not os.path.exists(program):
            raise Violation(f"compiling {where} again: exit {rc}: {err[-300:]}")
        ev = [(1000, 3), (1000 + (1 << 40), 1)]
        stdin = ref.encode_events(ev, "a1", False)
        if execute([program, "-f", "1000"], stdin, mine, e) != execute(
                [env.data["freqcd"], "-f", "1000"], stdin, mine, e):
            raise Violation("the program compiled from the record behaves differently")


def classify(case):
    rel = any(c["in"] or c["out"] for c in case["calls"])
    return case["by"] not in ("absolute", "name") or rel, [
        case["by"], case["layout"]] + ["broken source"] * case["broken"] + ["relative files"] * rel


PARTS = [Part("stand-in", _case, check, classify, quick=160, thorough=3000)]
