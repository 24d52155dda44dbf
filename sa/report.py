"""Obligations, evidence files, replay files, exit codes."""

import json
import os
import pathlib
import sys
import time

from sa.repo import AnalysisBroken

VERIF = pathlib.Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known-findings.txt"


def known_findings(pid):
    """Listed (not repaired) findings of a property: 'known: property=<id> key=<rule|construct> <text>'."""
    out = {}
    if KNOWN.is_file():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.removeprefix("key=")] = text
    return out


class Check:
    """Result of one property: every obligation is discharged, violated, or undecided."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.obs = []
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.floors = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ok(self, name, where=None):
        self.obs.append(("ok", name, where, None))

    def bad(self, name, where, detail):
        self.obs.append(("bad", name, where, detail))

    def undecided(self, name, where, detail):
        self.obs.append(("undecided", name, where, detail))

    def ob(self, cond, name, where, detail=""):
        """cond: True / False / None (undecided)."""
        if cond is None:
            self.undecided(name, where, detail)
        elif cond:
            self.ok(name, where)
        else:
            self.bad(name, where, detail)
        return cond

    def broken(self, txt):
        """Part of the analysis failed: undecided."""
        self.undecided("analysis of a configuration", None, txt)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def floor(self, key, n):
        """The analysis should have seen at least n instances: otherwise, the coverage is reported as reduced."""
        self.floors.append((key, n))

    def finish(self):
        bad, seen = [], set()
        for s, name, where, detail in self.obs:
            if s == "bad" and (name, where) not in seen:
                seen.add((name, where))
                bad.append((name, where, detail))
        und = [o for o in self.obs if o[0] == "undecided"]
        okn = sum(1 for o in self.obs if o[0] == "ok")
        known = known_findings(self.pid)
        new = []
        for name, where, detail in bad:
            if name in known:
                print(f"KNOWN-FINDING: property={self.pid} {name} :: {known[name]}")
            else:
                new.append((name, where, detail))
        blind = [f"{k}: {self.counts.get(k, 0)} < {n}" for k, n in self.floors if self.counts.get(k, 0) < n]
        evd = VERIF / "evidence"
        evd.mkdir(exist_ok=True)
        names = sorted({o[1] for o in self.obs if o[0] == "ok"})
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obs),
            "discharged": okn,
            "undecided": len(und),
            "undecided_list": [f"{n} @ {w}: {d}"[:300] for _, n, w, d in und[:40]],
            "rules_checked": names[:150],
            "counts": self.counts,
            "samples": self.samples[:10],
        }
        if blind:
            cov["reduced_coverage"] = blind
        (evd / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }, indent=1, default=str))
        print(f"{self.pid}: {len(self.obs)} obligations, {okn} discharged, {len(und)} undecided, {len(new)} violated "
              f"({round(time.time() - self.t0, 1)} s)")
        for _, n, w, d in und[:20]:
            print(f"  undecided: {n} @ {w}: {d}"[:300])
        if new:
            out = VERIF / "out"
            out.mkdir(exist_ok=True)
            path = out / f"{self.pid}.txt"
            lines = []
            for name, where, detail in new:
                lines.append(f"rule: {name}\nwhere: {where}\n{detail}\n")
                print(f"  violated: {name}\n    at {where}\n    {str(detail)[:600]}")
            path.write_text("\n".join(lines))
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if blind:
            print("  reduced coverage (the constructs were not recognised): " + "; ".join(blind))
        if okn == 0:
            print("analysis is blind: no obligation could be discharged")
            return 2
        return 0


class Part:
    """Obligations collected by a worker process."""

    def __init__(self, chk):
        self.pid, self.tier, self.seed = chk.pid, chk.tier, chk.seed
        self.obs, self.counts, self.samples, self.assumptions, self.floors = [], {}, [], [], []
        self.ret = None

    thorough = Check.thorough
    ok, bad, undecided, ob, count, floor, broken = Check.ok, Check.bad, Check.undecided, Check.ob, Check.count, Check.floor, Check.broken

    def data(self, err=None):
        return [tuple(None if x is None else str(x) for x in o) for o in self.obs], self.counts, [str(x) for x in self.samples], self.assumptions, self.floors, err, self.ret


_JOB = {}


def _work(k):
    import traceback
    chk, fct, items = _JOB["job"]
    part = Part(chk)
    try:
        part.ret = fct(part, items[k])
    except AnalysisBroken as ex:
        return part.data(("broken", str(ex)))
    except Exception:
        return part.data(("error", traceback.format_exc()[-1500:]))
    return part.data()


def parallel(chk, fct, items):
    """Run fct(part, item) in forked workers and merge the obligations (in the order of the items)."""
    import multiprocessing as mp
    _JOB["job"] = (chk, fct, list(items))
    n = len(_JOB["job"][2])
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        res = [_work(k) for k in range(n)]
    else:
        with mp.get_context("fork").Pool(min(8, n)) as pool:
            res = pool.map(_work, range(n), chunksize=1)
    errs = []
    for obs, counts, samples, ass, floors, err, _ in res:
        chk.obs += obs
        for k, v in counts.items():
            chk.count(k, v)
        chk.samples += samples
        chk.assumptions += [a for a in ass if a not in chk.assumptions]
        chk.floors += floors
        if err:
            errs.append(err)
    for kind, txt in errs:
        chk.broken(txt)
    return [r[-1] for r in res]


def main(pid, rule, fct):
    import traceback
    chk = Check(pid, rule)
    try:
        fct(chk)
    except AnalysisBroken as ex:
        chk.broken(str(ex))
    except Exception:
        chk.broken(traceback.format_exc()[-1500:])
    return chk.finish()
