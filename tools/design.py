"""Generate DESIGN.md from tools/design.in.md (tables from the properties, the planted bugs, and the repairs)."""

import json
import pathlib
import subprocess

R = pathlib.Path(__file__).resolve().parent.parent
FIRST = json.loads((R / "tools/seeds_first.json").read_text())

props = [json.loads(x) for x in (R / "properties.jsonl").read_text().splitlines() if x.strip()]
man = json.loads((R / "MANIFEST.json").read_text())
na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
import sys  # noqa: E402
sys.path.insert(0, str(R))
from checks.registry import CHECKS  # noqa: E402

rows = ["| id | property | decided by (oracle: the law in the statement) | quick: obligations / time |", "|---|---|---|---|"]
for p in props:
    if p["id"] in na:
        continue
    ev = R / "evidence" / (p["id"] + ".json")
    cost = ""
    try:
        t = (pathlib.Path("/tmp/s/all_" + p["id"] + ".txt")).read_text().splitlines()[0]
        cost = t.split(":")[1].split(" obl")[0].strip() + " / " + t.split("(")[1].split(")")[0]
    except Exception:
        pass
    rows.append(f"| {p['id']} | {p['title']} | `checks/{CHECKS[p['id']][0]}.py: {CHECKS[p['id']][1]}` {CHECKS[p['id']][2]} | {cost} |")
text = (R / "tools/design.in.md").read_text()
text = text.replace("@@TABLE@@", "\n".join(rows))
title = {p["id"]: p["title"] for p in props}
text = text.replace("@@NA@@", "\n".join(f"* **{k}** {title.get(k, '')}: {v}" for k, v in sorted(na.items())))
rows = ["| planted bug | property | needs | breaks | caught by its check |", "|---|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {FIRST.get(d.name, 'yes (first)')} |")
text = text.replace("@@SEEDS@@", "\n".join(rows))
rows = []
for x in (R / "known-findings.txt").read_text().splitlines():
    if x.startswith("fixed:"):
        _, pid, sha, what = x.split(" ", 3)
        rows.append(f"* {pid.split('=')[1]}, {sha}: {what}")
text = text.replace("@@FIXES@@", "\n".join(rows))
(R / "DESIGN.md").write_text(text)
