"""Assemble DESIGN.md: head, one section per property, tail."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import load  # noqa: E402

sys.path.insert(0, os.path.join(HERE, "tools"))
from mkmanifest import NA  # noqa: E402

how = json.load(open(os.path.join(HERE, "tools", "design_how.json"), encoding="utf-8"))
out = open(os.path.join(HERE, "tools", "design_head.md"), encoding="utf-8").read()
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    if p["id"] in NA:
        continue
    c = load(p["id"])
    h = how[p["id"]]
    out += f"### {p['id']} {p['title']}\n\n{c.rule}\n\n*Oracle:* {h['oracle']}\n\n"
    if h.get("bounds"):
        out += f"*Left out:* {h['bounds']}\n\n"
    out += f"*Why tests cannot settle it:* {h['why']} *Cost:* {c.quick_seeds} seeds, {h['cost']}.\n\n"
out += "### Not applicable\n\n" + "".join(f"- **{k}**: {v}\n" for k, v in NA.items()) + "\n"
tail = open(os.path.join(HERE, "tools", "design_tail.md"), encoding="utf-8").read()
seeded = os.path.join(HERE, "seeded")
names = sorted(n for n in os.listdir(seeded) if os.path.exists(os.path.join(seeded, n, "meta.json")))
table = "| Change | Caught by | Needs |\n| --- | --- | --- |\n"
for n in names:
    m = json.load(open(os.path.join(seeded, n, "meta.json"), encoding="utf-8"))
    table += f"| `{n}` | {m['property']} | {' '.join(m['needs'].split())} |\n"
fixes = set()
for line in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8"):
    if line.startswith("fixed:"):
        fixes.add(line.split()[2])
out += tail.replace("{SEEDED}", str(len(names))).replace("{TABLE}", table).replace("{FIXES}", str(len(fixes)))
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(out)
