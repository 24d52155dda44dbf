"""Plant a bug: python3 tools/seed.py SPEC.py   (SPEC defines: id, prop, edits=[(file, old, new)], needs, breaks, demo)

Works in a scratch copy of /repo; keeps the bug only when its demonstration passes before and fails after it, then
prints whether the quick check of its property catches it (and, with --tests, that the stable tests pass)."""

import json
import os
import pathlib
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def sh(cmd, cwd, env=None, t=300):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)


def plant(spec, run_all=False):
    work = pathlib.Path("/tmp/seed_" + spec["id"])
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True)
    out = ROOT / "seeded" / spec["id"]
    try:
        out.mkdir(parents=True, exist_ok=True)
        shutil.copy(ROOT / "tools/demo/lib.py", out / "lib.py")
        shutil.copy(ROOT / "tools/demo/demo.sh", out / "demo.sh")
        (out / "demo.py").write_text("from lib import *  # noqa\n" + spec["demo"].lstrip("\n") + "\ndone()\n")
        base = sh(["bash", str(out / "demo.sh")], work)
        for f, old, new in spec["edits"]:
            p = work / f
            s = p.read_text()
            assert s.count(old) == 1, (spec["id"], f, s.count(old))
            p.write_text(s.replace(old, new))
        patch = sh(["git", "diff"], work).stdout
        bug = sh(["bash", str(out / "demo.sh")], work)
        (out / "patch.diff").write_text(patch)
        (out / "meta.json").write_text(json.dumps(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), indent=1) + "\n")
        good = base.returncode == 0 and bug.returncode != 0
        print(spec["id"], "demo base", base.returncode, "bug", bug.returncode, "" if good else "NOT KEPT")
        if not good:
            print(base.stdout[-800:], base.stderr[-1500:], "-----", bug.stdout[-800:], bug.stderr[-500:])
            shutil.rmtree(out)
            return
        ids = [spec["prop"]]
        if run_all:
            sys.path.insert(0, str(ROOT))
            from checks.registry import CHECKS
            ids = list(CHECKS)
        for pid in ids:
            r = sh(["python3", "check.py", pid, "quick"], ROOT, dict(os.environ, VERIF_REPO=str(work)), 900)
            lines = [x for x in r.stdout.splitlines() if "violated:" in x or x.strip().startswith("at ")]
            print("   ", pid, "exit", r.returncode, "|", " ".join(lines[:2])[:300])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    spec_file = sys.argv[1]
    ns = {}
    exec(pathlib.Path(spec_file).read_text(), ns)
    for s in ns["SPECS"]:
        if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
            plant(s, "--all" in sys.argv)
