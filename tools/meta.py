"""Writes properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TS = "src/fpfind/lib/parse_timestamps.py"
EP = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"
FP = "src/fpfind/fpfind.py"
FC = "src/fpfind/freqcd.c"
FS = "src/fpfind/freqcd"
GO = "src/fpfind/lib/getopt.c"
GEN = "src/fpfind/lib/generate_freqcd_testcase.py"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


exec(open(os.path.join(ROOT, "tools", "properties_text.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    claimed = [p for p in P if os.path.exists(os.path.join(ROOT, "props", p["id"] + ".py"))]
    doc = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": f"./run {p['id']} --tier quick",
            "thorough_cmd": f"./run {p['id']} --tier thorough",
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in claimed],
        "not_applicable": [],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    missing = [p["id"] for p in P if p not in claimed]
    print(len(P), "properties;", len(claimed), "claimed; without a check:", missing)


main()
