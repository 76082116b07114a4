"""Mutation testing of the checks: which small changes go unnoticed?

    python3-vt tools/mutate.py FILE [--max N] [--seed S] [--scale X] [--jobs J] [--out F] [--lines A-B]

Changes one operator, constant, condition or statement of FILE (relative to /repo) at a time
in a scratch copy, runs the file's checks on it (scaled-down quick tier) until one notices.
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/fpfind/"
CHECKS = {
    S + "lib/parse_timestamps.py": "T01 T02 T03 T05 T06 T07 T08 T04",
    S + "lib/parse_epochs.py": "E01 E02 E03 E04 E05 E07 E06",
    S + "lib/utils.py": "F06 F08 F09 L02 L03 E06 F01 F03",
    S + "fpfind.py": "F05 F10 F01 F02 F03 F04 F07",
    S + "freqcd.c": "C01 C02 C03 C04 C05",
    S + "fpplot.py": "G02",
    S + "lib/generate_freqcd_testcase.py": "G01",
    S + "lib/g2_two_timestamps.py": "G03",
    S + "lib/generate_freqdetuneg2.py": "G03",
    S + "lib/logging.py": "L01",
    S + "lib/getopt.c": "C01 C05 C03",
    S + "__init__.py": "T01 T02",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Div, ast.LShift: ast.RShift, ast.RShift: ast.LShift,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) \
        and isinstance(node.value.value, str)


def variants(node):
    """(description, function that changes a copy of the node in place)"""
    def setter(name, value):
        return lambda n: setattr(n, name, value)
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            if type(op) in CMP:
                def f(n, i=i, op=op):
                    n.ops[i] = CMP[type(op)]()
                yield f"{type(op).__name__}->{CMP[type(op)].__name__}", f
    elif isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
        yield (f"{type(node.op).__name__}->{BIN[type(node.op)].__name__}",
               setter("op", BIN[type(node.op)]()))
    elif isinstance(node, ast.BoolOp):
        other = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield "and<->or", setter("op", other)
        for i in range(len(node.values)):
            def f(n, i=i):
                n.values.pop(i)
            yield f"drop operand {i}", f
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield f"{v}->{not v}", setter("value", not v)
        elif isinstance(v, int):
            yield f"{v}->{v + 1}", setter("value", v + 1)
            yield f"{v}->{v - 1}", setter("value", v - 1)
        elif isinstance(v, float):
            yield f"{v}->{v * 1.1 + 1e-9}", setter("value", v * 1.1 + 1e-9)
    elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
        yield "condition true", setter("test", ast.Constant(True)) if not isinstance(
            node, ast.While) else (lambda n: None)
        yield "condition false", setter("test", ast.Constant(False))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
        yield "drop " + type(node.op).__name__, setter("op", ast.UAdd()) if not isinstance(
            node.op, ast.Not) else setter("operand", ast.UnaryOp(ast.Not(), node.operand))
    elif isinstance(node, ast.Slice):
        for k in ("lower", "upper", "step"):
            if getattr(node, k) is not None:
                yield f"drop slice {k}", setter(k, None)
    elif isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            def f(n, i=i):
                n.keywords.pop(i)
            yield f"drop keyword {k.arg}", f
    if isinstance(node, (ast.Continue, ast.Break)):
        yield "to pass", "pass"
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not is_doc(node):
        yield "delete statement", "pass"


def py_mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    owner = {}
    skip = set()
    for f in nodes:
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(f):
                owner[id(n)] = f.name
        if isinstance(f, ast.Call) and getattr(f.func, "attr", "") in (
                "add_argument", "add", "debug", "info", "warning", "error"):
            skip.update(id(n) for n in ast.walk(f))
        if isinstance(f, ast.Expr) and isinstance(f.value, ast.Call) and id(f.value) in skip:
            skip.add(id(f))
        if isinstance(f, ast.If) and "__name__" in ast.dump(f.test):
            skip.update(id(n) for n in ast.walk(f))
        if isinstance(f, (ast.JoinedStr, ast.FormattedValue)):
            skip.update(id(n) for n in ast.walk(f))
        for a in ("annotation", "returns"):
            if getattr(f, a, None) is not None:
                skip.update(id(n) for n in ast.walk(getattr(f, a)))
    out = []
    for i, n in enumerate(nodes):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        for k, (desc, fn) in enumerate(variants(n)):
            out.append((n.lineno, owner.get(id(n), "<module>"), desc, i, k))
    def make(i, k):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        fn = list(variants(n))[k][1]
        if fn == "pass":
            for p in ast.walk(t):
                for field in ("body", "orelse", "finalbody"):
                    b = getattr(p, field, None)
                    if isinstance(b, list) and any(x is n for x in b):
                        b[[x is n for x in b].index(True)] = ast.copy_location(ast.Pass(), n)
        else:
            fn(n)
        return ast.unparse(ast.fix_missing_locations(t)) + "\n"
    base = ast.unparse(tree) + "\n"
    return [(l, f, d, (lambda i=i, k=k: make(i, k))) for l, f, d, i, k in out], base


def c_mutants(src):
    lines = src.split("\n")
    out = []
    rules = [(r"(?<![<>=!+\-*/&|])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="),
             (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"<<", ">>"), (r">>", "<<"),
             (r"(?<![+\w(] )\+(?![+=])", "-"), (r" - ", " + "), (r"&&", "||"), (r"\|\|", "&&"),
             (r"(?<=\w) \* (?=\w)", " / "), (r"\+=", "-="), (r"-=", "+="), (r"(?<!&)&(?= )", "|"),
             (r" \| ", " & "), (r"\b\d+\b", None)]
    incomment = False
    for i, l in enumerate(lines):
        code = l
        if "/*" in l and "*/" not in l:
            incomment = True
        if incomment:
            if "*/" in l:
                incomment = False
            continue
        if l.strip().startswith(("//", "/*", "#include", "*", "fprintf")) or not l.strip():
            continue
        code = l.split("//")[0]
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), code)
        code2 = re.sub(r'"[^"]*"', lambda m: "_" * len(m.group()), code)
        code2 = re.sub(r"emsg\(\d+\)", lambda m: "_" * len(m.group()), code2)
        for pat, new in rules:
            for m in re.finditer(pat, code2):
                reps = [new] if new else [str(int(m.group()) + 1)] + (
                    [str(int(m.group()) - 1)] if int(m.group()) else [])
                for r in reps:
                    nl = l[:m.start()] + r + l[m.end():]
                    out.append((i + 1, "", f"{l.strip()[:60]}: {m.group()}->{r}",
                                lambda i=i, nl=nl: "\n".join(lines[:i] + [nl] + lines[i + 1:])))
        if code.strip().endswith(";") and not code.strip().startswith(("int ", "char", "ll ", "struct", "}", "typedef", "static", "case", "return", "unsigned", "fd_set")):
            nl = re.sub(r"^(\s*(?:if \(.*?\) )?)(.*?);", r"\1;", code) if not code.strip().startswith("if") else l[:len(l) - len(l.lstrip())] + ";"
            out.append((i + 1, "", f"delete: {l.strip()[:70]}",
                        lambda i=i, nl=nl: "\n".join(lines[:i] + [nl] + lines[i + 1:])))
    return out, src


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="0.4")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--shards", default="3")
    ap.add_argument("--lines")
    ap.add_argument("--checks")
    ap.add_argument("--only", help="file with lines 'line<TAB>desc' to run again")
    ap.add_argument("--out", default="/tmp/mut")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    src = open(os.path.join("/repo", a.file)).read()
    muts, base = (c_mutants if a.file.endswith(".c") else py_mutants)(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        muts = [m for m in muts if lo <= m[0] <= hi]
    if a.only:
        want = {tuple(l.rstrip("\n").split("\t")[:2]) for l in open(a.only)}
        muts = [m for m in muts if (str(m[0]), m[2]) in want]
    random.Random(a.seed).shuffle(muts)
    if a.max:
        muts = muts[:a.max]
    print(len(muts), "mutants of", a.file, flush=True)
    if a.list:
        for m in sorted(muts, key=lambda m: m[0]):
            print(m[0], m[1], m[2])
        return
    os.makedirs(a.out, exist_ok=True)
    log = open(os.path.join(a.out, os.path.basename(a.file) + ".jsonl"), "a")
    checks = (a.checks or CHECKS[a.file]).split()

    def one(m):
        line, func, desc, make = m
        text = make()
        if text == base:
            return
        d = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
        res, why = "survived", ""
        try:
            subprocess.run("git -C /repo archive HEAD src | tar x -C " + d, shell=True, check=True)
            with open(os.path.join(d, a.file), "w") as f:
                f.write(text)
            if a.file.endswith(".c"):
                r = subprocess.run(["gcc", "-w", "-o", d + "/x", d + "/" + S + "freqcd.c",
                                    d + "/" + S + "lib/getopt.c", "-lm"], capture_output=True)
                if r.returncode:
                    res = "does not compile"
                    checks_ = []
                else:
                    checks_ = checks
            else:
                checks_ = checks
            for c in checks_:
                r = subprocess.run([os.path.join(ROOT, "run"), c, "--tier", "quick"], cwd=ROOT,
                                   env=dict(os.environ, VF_REPO=d, VF_NOSHRINK="1", VF_SCALE=a.scale, VF_OUT=d,
                                            VF_SHARDS=a.shards), capture_output=True, text=True)
                if r.returncode:
                    res = f"killed {c}" if r.returncode == 1 else f"error {c} {r.returncode}"
                    why = (r.stdout.strip().splitlines() or r.stderr.strip().splitlines() or [""])[0][:200]
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rec = {"line": line, "func": func, "desc": desc, "res": res, "why": why}
        log.write(json.dumps(rec) + "\n")
        log.flush()
        if not res.startswith("killed"):
            print(line, func, desc, "|", res, why, flush=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        for f in [ex.submit(one, m) for m in muts]:
            try:
                f.result()
            except Exception as e:
                print("failed:", repr(e))


main()
