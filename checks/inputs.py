"""Properties of the inputs: valid problems, validation, options."""

import itertools

from sa import sets
from sa.report import parallel
from sa.scenario import typed_voxel, typed_materials, typed_sources
from sa.term import T, walk, sym, const, mk
from checks.converge import _n
from checks.flow import run_solver, Guards, ITER

TYPES = {"electric": "e", "magnetic": "m", "electromagnetic": "em", "current": "c", "voltage": "v"}


def mat(t, doms, orient="isotropic", var="lumped"):
    return {"domain_list": list(doms), "material_type": t, "orientation_type": orient, "var_type": var}


def src(t, doms, var="lumped"):
    return {"domain_list": list(doms), "source_type": t, "var_type": var}


PROBLEMS = {
    "typed": (typed_materials(), typed_sources()),
    "lists": ({"a": mat("electric", ("d1", "d2")), "b": mat("electromagnetic", ("d3",))}, {"s": src("current", ("d4", "d5")), "t": src("voltage", ("d1",))}),
    "electric": ({"a": mat("electric", ("d3",)), "b": mat("electric", ("d1",))}, {"s": src("voltage", ("d5",)), "t": src("voltage", ("d2", "d4"))}),
    "magnetic": ({"a": mat("magnetic", ("d3",)), "b": mat("electric", ("d1",)), "c": mat("magnetic", ("d2",)), "e": mat("electromagnetic", ("d5",))}, {"s": src("current", ("d4",)), "t": src("current", ("d1",))}),
}
for _o, _v in itertools.product(("isotropic", "anisotropic"), ("lumped", "distributed")):
    PROBLEMS[f"values {_o} {_v}"] = (typed_materials(_o, _v), typed_sources(_v))


def params(tag):
    return {"freq": sym("freq_" + tag), "material_val": sym("material_val_" + tag), "source_val": sym("source_val_" + tag)}


def validity(chk):
    chk.floor("model_configurations", 4)
    chk.floor("rejections", 20)
    jobs = [("rules", k, dict(coupling=c, n_jobs=j)) for k in PROBLEMS for c, j in ((("direct", 0), ("segregated", 2)) if chk.thorough else (("direct", 0),))]
    jobs += [("names", k, None) for k in ("material", "source", "material second", "source second", "material value", "source value", "material value second", "source value second")]
    parallel(chk, _validity, jobs)


def _validity(chk, job):
    kind, a, b = job
    chk.count("model_configurations")
    (_rules if kind == "rules" else _names)(chk, a, b)


def _parts(defs, key, kinds):
    return sets.Arr([(("b", sym("idx_" + d).cid), sym("idx_" + d).cid) for m in defs.values() if m[key] in kinds for d in m["domain_list"]])


def base(x):
    return ("b", x.cid)


def rules(materials, sources):
    """Problem that cannot be solved: [(text, formula, symbols)]."""
    vc = _parts(materials, "material_type", ("electric", "electromagnetic"))
    vm = _parts(materials, "material_type", ("magnetic", "electromagnetic"))
    sc = _parts(sources, "source_type", ("current",))
    sv = _parts(sources, "source_type", ("voltage",))
    ss = sets.Arr(sc.parts + sv.parts)
    g = base(mk("elem", sym("graph_def"), 0))
    out = [
        ("without electric voxels", ("empty", vc.expr)),
        ("without source voxels", ("empty", ss.expr)),
        ("with electric materials sharing voxels", sets.neg(sets.uniq(vc))),
        ("with magnetic materials sharing voxels", sets.neg(sets.uniq(vm))),
        ("with sources sharing voxels", sets.neg(sets.uniq(ss))),
        ("with current sources outside of the electric voxels", sets.neg(("empty", ("d", sc.expr, vc.expr)))),
        ("with voltage sources outside of the electric voxels", sets.neg(("empty", ("d", sv.expr, vc.expr)))),
        ("with an electric component without source", ("and", [sets.neg(("empty", ("i", g, vc.expr))), ("empty", ("i", g, ss.expr)), sets.neg(("empty", base(sym("graph_def"))))])),
    ]
    for what, defs, val in (("material", materials, "material_val_sw_c"), ("source", sources, "source_val_sw_c")):
        for tag, m in defs.items():
            keys = {"electric": ("rho_re", "rho_im"), "magnetic": ("chi_re", "chi_im"), "electromagnetic": ("rho_re", "rho_im", "chi_re", "chi_im"),
                    "current": ("I_re", "I_im", "Y_re", "Y_im"), "voltage": ("V_re", "V_im", "Z_re", "Z_im")}[m.get("material_type") or m.get("source_type")]
            n = tuple(sorted((base(sym("idx_" + d)) for d in m["domain_list"]), key=str))
            for k in keys:
                v = mk("item", mk("item", sym(val), const(tag)), const(k))
                p = (base(v),)
                if m["var_type"] == "distributed":
                    out.append((f"with a wrong number of values: {what} {tag}, {k}", sets.neg(sets.same_dim(p, n))))
                    if m.get("orientation_type") == "anisotropic":
                        out.append((f"with a wrong number of components: {what} {tag}, {k}", sets.neg(sets.same_dim(("col", p, 1), 3))))
                elif m.get("orientation_type") == "anisotropic":
                    out.append((f"with a wrong number of components: {what} {tag}, {k}", sets.neg(sets.same_dim(p, 3))))
    return out


def opaque(f):
    out = []
    sets.atoms(f, out)
    return [a for a in out if a[0] == "atom"]


def syms(t):
    return {x.args[0] for x in walk(t) if x.op == "sym"}


def formula_syms(f):
    """Symbols (names) of a formula."""
    ids = set()

    def rec(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] in ("b", "uniq") and isinstance(x[1], int):
                ids.add(x[1])
            else:
                for y in x:
                    rec(y)
    rec(f)
    return ids


def _rules(chk, key, kw):
    materials, sources = PROBLEMS[key]
    lab = key + ("," + ",".join(str(x) for x in kw.values()) if kw else "")
    prob = {"sw_c": {"init": None, "param": params("sw_c")}}
    eng, res = run_solver_def(materials, sources, prob, kw)
    g = Guards(eng)
    calc = [e.idx for e in eng.events if e.kind == "call" and (_n(e.data[0]) or "").endswith(ITER)]
    first = min(calc, default=None)
    rl = rules(materials, sources)
    raises = [e for e in eng.events if e.kind in ("raise", "noreturn") and (first is None or e.idx < first)]
    for e in raises:
        e.facts = [(eng.freeze(f, res.state), p) for f, p in e.facts]
    rejected, maybe = [], []
    for e in raises:
        chk.count("rejections")
        lits = [sets.fact(f, p) for f, p in e.facts if not g.passed(f, p)] or [sets.fact(*e.facts[-1])] if e.facts else []
        if e.facts and sets.fact(*e.facts[-1]) is not None and not any(x is not None and x == sets.fact(*e.facts[-1]) for x in lits):
            lits.append(sets.fact(*e.facts[-1]))
        f = ("and", [x for x in lits if x is not None])
        op = opaque(f)
        rejected.append((f, e))
        if op:
            maybe.append((f, e))
    where = "pypeec/lib_solver/problem_geometry.py"
    allr = ("or", [f for f, _ in rejected])
    for text, rule in rl:
        name = f"a problem {text} is rejected before it is solved ({lab})"
        # only the rejections which speak about the same objects
        ids = formula_syms(rule)
        near = ("or", [f for f, _ in rejected if formula_syms(f) & ids])
        ok = sets.implies(rule, near)
        if ok is False and len(near[1]) < len(allr[1]):
            ok = sets.implies(rule, allr) or False
        if ok is False:
            rel = [e for f, e in maybe if any({x.cid for c, _ in e.facts[-1:] for x in walk(c)} & {i} for i in ids)]
            if rel:
                chk.undecided(name, rel[0].where(), f"condition not resolved: {rel[0].facts[-1][0]}")
                continue
        chk.ob(ok, name, where, "no error is raised on any path before the linear system is solved")
    bad = ("or", [f for _, f in rl])
    for f, e in rejected:
        if opaque(f) or not e.facts:
            continue
        ok = sets.implies(("and", [x for x in (sets.fact(c, p) for c, p in e.facts) if x is not None and not opaque(x)]), bad)
        chk.ob(ok, f"only problems that cannot be solved are rejected ({lab})", e.where(), f"raised for a valid problem: {str(e.facts[-1])[:300]}")


def run_solver_def(materials, sources, sweep, kw, vox=None):
    from sa.engine import Engine
    from sa.scenario import to_term, tolerance
    from checks.solver import repo
    eng = Engine(repo())
    eng.strip_copy = True
    st = eng.state.copy()
    prob = {"material_def": materials, "source_def": sources, "sweep_solver": sweep}
    kw = dict(kw or {})
    kw.setdefault("coupling", "direct")
    args = [to_term(eng, st, x) for x in (vox or typed_voxel(), prob, tolerance(**kw))]
    return eng, eng.run("pypeec.run.solver", "run", args, state=st)


def _names(chk, key, _):
    """Names which do not exist."""
    materials, sources = typed_materials(), typed_sources()
    par = params("sw_c")
    k = "second" in key
    what = key.split()[0]
    if "value" in key:
        defs = materials if what == "material" else sources
        tags = list(defs)
        drop = tags[-1] if k else tags[0]
        par[what + "_val"] = {t: sym(f"{what}_val_{t}") for t in tags if t != drop}
        text = f"a problem without values for the {what} {drop} is rejected before it is solved"
    else:
        defs = materials if what == "material" else sources
        tag = list(defs)[-1 if k else 0]
        defs[tag]["domain_list"] = ["d1", "d9"] if k else ["d9"]
        text = f"a problem with a {what} in an unknown domain is rejected before it is solved ({defs[tag]['domain_list']})"
    eng, res = run_solver_def(materials, sources, {"sw_c": {"init": None, "param": par}}, {})
    g = Guards(eng)
    calc = [e.idx for e in eng.events if e.kind == "call" and (_n(e.data[0]) or "").endswith(ITER)]
    dead = [e for e in eng.events if e.kind in ("raise", "noreturn") and g.definite(e)]
    ok = bool(dead) and not any(i < dead[0].idx for i in calc)
    chk.ob(ok, text, dead[0].where() if dead else "pypeec/lib_solver/problem_geometry.py", "no error on every path before the linear system is solved")
