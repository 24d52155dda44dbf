"""Write properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py."""

import json
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from checks.registry import CHECKS  # noqa: E402
from tools.props import PROPS, NA  # noqa: E402

lines, checks, nas = [], [], []
for p in PROPS:
    for f in p["files"]:
        assert os.path.isfile("/repo/" + f), (p["pid"], f)
    assert len(p["title"]) <= 80, p["pid"]
    lines.append(json.dumps(dict(
        id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
        why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))))
    if p["pid"] in CHECKS:
        checks.append(dict(
            property=p["pid"], quick_cmd=f"python3 check.py {p['pid']} quick",
            thorough_cmd=f"python3 check.py {p['pid']} thorough", technique=p["technique"], level="other",
            level_note=p["note"]))
    else:
        r = dict(NA).get(p["pid"])
        assert r, f"{p['pid']} has neither a check nor a reason"
        nas.append(dict(property=p["pid"], reason=r))
assert set(CHECKS) <= {p["pid"] for p in PROPS}, set(CHECKS) - {p["pid"] for p in PROPS}
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="python3 -c 'import ast'", checks=checks, not_applicable=nas), indent=1) + "\n")
print(len(lines), "properties,", len(checks), "checks,", len(nas), "not applicable")
