"""Writes DESIGN.md.  Run: python3-vt tools/design.py"""
import contextlib
import importlib
import io
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
with contextlib.redirect_stdout(io.StringIO()):
    import meta
    import findings


def read(n):
    return open(os.path.join(ROOT, "design", n)).read()


def wrap(s, first="", rest=""):
    return textwrap.fill(" ".join(s.split()), 100, initial_indent=first, subsequent_indent=rest)


def section(p):
    mod = importlib.import_module("props." + p["id"])
    out = [f"### {p['id']} — {p['title']}", ""]
    out += [wrap("*Decided by* " + p["technique"] + ". " + mod.RULE), ""]
    out += [wrap("*Bounds.* " + " ".join([p["note"], *(a[0].upper() + a[1:] + "." for a in getattr(mod, "ASSUMPTIONS", []))])), ""]
    out += [wrap("*Why this reaches what the tests cannot.* " + p["why"]), ""]
    cost = ""
    ev = os.path.join(ROOT, "evidence", p["id"] + ".json")
    if os.path.exists(ev):
        d = json.load(open(ev))
        if d["tier"] == "quick":
            cost = f" About {d['wall_s']:.0f} s for the quick check."
    out += [wrap("*Generated cases, quick / thorough:* " + "; ".join(
        f"{x.name} {x.quick} / {x.thorough}" + (f" (+{len(x.regressions)} saved)" if x.regressions else "")
        for x in mod.PARTS) + "." + cost), ""]
    return "\n".join(out)


def seeds():
    res = {}
    path = os.path.join(ROOT, "design", "seed_results.json")
    if os.path.exists(path):
        res = json.load(open(path))
    rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
        rows.append(f"| {sid} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(sid, '?')} |")
    return "\n".join(rows)


fixed = "\n".join(["| property | commit | what failed |", "|---|---|---|"] + [
    "| {} | {} | {} |".format(*l.split(" ", 2)) for l in findings.FIXED.strip().splitlines()])
parts = [read("head.md"), "## The properties, one by one\n", *(section(p) for p in meta.P),
         "## Not applicable\n\nNone: every listed property is decided by generated-input search.\n",
         read("tail.md").replace("FIXED_TABLE", fixed),
         read("seeds.md") + "\n" + seeds() + "\n"]
if os.path.exists(os.path.join(ROOT, "design", "mutation.md")):
    parts.append(read("mutation.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(parts))
