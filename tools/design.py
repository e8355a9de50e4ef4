"Writes the sections of DESIGN.md that follow from other files."

import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = {p["id"]: p for p in (json.loads(line) for line in f if line.strip())}

sections = {}
out = []
for id, p in props.items():
    out.append(f"### {id} {p['title']}\n")
    if id in CHECKS:
        c = CHECKS[id]
        out.append(c["explanation"] + "\n")
        out.append("Bounds: " + c["bounds"] + "\n")
        if c["assumptions"]:
            out.append("Assumes: " + " ".join(c["assumptions"]) + "\n")
    else:
        out.append("Not claimed. " + NOT_APPLICABLE.get(id, "No check has been built yet.") + "\n")
sections["properties"] = "\n".join(out)

with open(os.path.join(HERE, "known_findings.txt")) as f:
    lines = [line.strip() for line in f if line.strip()]
out = ["Repaired (`fix:` commits in /repo; the checks report them again if they return):\n"]
for line in lines:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        out.append(f"* {m[1]} ({m[2]}): {m[3]}")
out.append("\nRecorded, not repaired (the repair is neither small nor safe, or existing tests expect the behaviour):\n")
for line in lines:
    m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
    if m:
        out.append(f"* {m[1]} `{m[2]}`: {m[3]}")
sections["findings"] = "\n".join(out)

out = ["| seed | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    with open(path) as f:
        meta = json.load(f)
    id = os.path.basename(os.path.dirname(path))
    out.append(f"| {id} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} | {meta.get('caught_by', meta['property'])} |")
sections["seeds"] = "\n".join(out)

path = os.path.join(HERE, "DESIGN.md")
with open(path) as f:
    text = f.read()
for name, body in sections.items():
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + body + "\n" + text[j:]
with open(path, "w") as f:
    f.write(text)
