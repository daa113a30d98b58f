#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. No check runs this."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/formatter.rs"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=("the string returned by MarkdownFormatter::format",)):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=[m.split(" @ ") for m in mech], technique=technique, note=note, observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(dict(
            id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                         observe_at=x["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

checks = []
na = []
for x in P:
    if x["technique"] is None:
        na.append(dict(property=x["id"], reason=x["note"]))
        continue
    checks.append(dict(property=x["id"], quick_cmd=f"VERIF_TIER=quick ./run.sh {x['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough ./run.sh {x['id']}",
                       evidence_file=f"evidence/{x['id']}.json",
                       technique=x["technique"], level="model_checking", level_note=x["note"]))
m = dict(version=1, setup_cmd="./run.sh --build", checks=checks, not_applicable=na,
         notes="All checks are one explorer, mc/, run by run.sh; './run.sh --replay FILE' runs a recorded violation again. "
               "No hooks: everything is observable through the public API and the CLI. tools/gen.py writes this file and properties.jsonl.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
