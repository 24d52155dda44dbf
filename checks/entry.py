"""Entry points: files, options, checks of the inputs, errors, and the command line."""

import ast
import itertools

from sa.engine import Engine, HObj
from sa.report import parallel
from sa.term import walk, is_const, cval, const, sym, mk
from checks.solver import repo

STAGES = ("mesher", "viewer", "solver", "plotter")
RUN = {s: f"pypeec.run.{s}.run" for s in STAGES}
MAIN = {s: f"pypeec.main.run_{s}_file" for s in STAGES}
DATA, CONF = "scisave.load_data", "scisave.load_config"

# stage -> inputs of the run: (file, loader), output file
FILES = {
    "mesher": ([("file_geometry", CONF)], "file_voxel"),
    "viewer": ([("file_voxel", DATA), ("file_viewer", CONF)], None),
    "solver": ([("file_voxel", DATA), ("file_problem", CONF), ("file_tolerance", CONF)], "file_solution"),
    "plotter": ([("file_solution", DATA), ("file_plotter", CONF)], None),
}
PARAMS = {
    "mesher": ["data_geometry"],
    "viewer": ["data_voxel", "data_viewer"],
    "solver": ["data_voxel", "data_problem", "data_tolerance"],
    "plotter": ["data_solution", "data_plotter"],
}
OPTIONS = {"viewer": ["tag_plot", "plot_mode", "folder", "name"], "plotter": ["tag_sweep", "tag_plot", "plot_mode", "folder", "name"]}

# command -> (alias, stage, {parameter: option})
COMMANDS = {
    "mesher": ("me", {"file_geometry": "--geometry", "file_voxel": "--voxel"}),
    "viewer": ("vi", {"file_voxel": "--voxel", "file_viewer": "--viewer", "tag_plot": "--tag_plot", "plot_mode": "--plot_mode", "folder": "--folder"}),
    "solver": ("so", {"file_voxel": "--voxel", "file_problem": "--problem", "file_tolerance": "--tolerance", "file_solution": "--solution"}),
    "plotter": ("pl", {"file_solution": "--solution", "file_plotter": "--plotter", "tag_sweep": "--tag_sweep", "tag_plot": "--tag_plot", "plot_mode": "--plot_mode", "folder": "--folder"}),
}
DEFAULTS = {"tag_sweep": None, "tag_plot": None, "plot_mode": None, "folder": "."}
ARCHIVES = {"examples": "examples.zip", "documentation": "documentation.zip"}
# input -> schema of the configuration
SCHEMAS = {"data_geometry": "schema_geometry.yaml", "data_problem": "schema_problem.yaml", "data_tolerance": "schema_tolerance.yaml",
           "data_viewer": "schema_list_viewer.yaml", "data_plotter": "schema_list_plotter.yaml"}
# input -> required entries of the data files
CONTENT = {"data_voxel": ["data_geom"], "data_solution": ["data_init", "data_sweep"]}


def qual(f):
    if f.op == "ext":
        return f.args[0]
    if f.op == "func":
        return f.extra.qual
    return None


def name_of(t):
    return qual(t.args[0]) if t.op == "call" else None


def method_of(t):
    return t.args[0].args[1] if t.op == "call" and t.args[0].op == "attr" else None


def bound(t):
    """Arguments of a call by parameter name."""
    f, pos, kw = t.args[0], list(t.args[1]), dict(t.args[2])
    if f.op == "func":
        a = f.extra.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, pos):
            kw[n] = v
    return kw


def failed(ev):
    """The event belongs to an exception handler."""
    return any((f.op == "handler" and p) or (f.op == "trybody" and not p) or _has_handler(f, p) for f, p in ev.facts)


def _has_handler(f, p):
    return p and f.op == "and" and any(x.op == "handler" for x in f.args[0])


def conditions(ev):
    return [(f, p) for f, p in ev.facts if f.op not in ("trybody", "handler")]


def entry(chk):
    jobs = [("files", s) for s in STAGES] + [("data", s) for s in STAGES] + [("inputs", s) for s in STAGES]
    jobs += [("cli", c) for c in list(COMMANDS) + list(ARCHIVES)] + [("alias", c) for c in COMMANDS]
    jobs += [("format", k) for k in SCHEMAS] + [("content", k) for k in CONTENT]
    jobs += [("options", None), ("lint", None)]
    parallel(chk, _job, jobs)
    chk.floor("entry_points", 20)


def _job(chk, job):
    kind, arg = job
    chk.count("entry_points")
    {"files": _files, "data": _data, "inputs": _inputs, "cli": _cli, "alias": _alias, "format": _format, "content": _content,
     "options": _options, "lint": lambda c, _: _lint(c)}[kind](chk, arg)


# ---------------------------------------------------------------- files

def _opts(stage):
    return {k: sym(k) for k in OPTIONS.get(stage, [])}


def _files(chk, stage):
    inputs, out = FILES[stage]
    eng = Engine(repo())
    eng.opaque = set(RUN.values())
    params = [f for f, _ in inputs] + ([out] if out else [])
    fn = f"run_{stage}_file"
    res = eng.run("pypeec.main", fn, [], {**{p: sym(p) for p in params}, **_opts(stage)})
    where = f"pypeec/main.py in {fn}()"
    calls = [e for e in eng.events if e.kind == "call"]
    runs = [e for e in calls if name_of(e.data[0]) in RUN.values()]
    if not chk.ob(len(runs) == 1 and name_of(runs[0].data[0]) == RUN[stage], f"{fn}: runs the {stage} once", where,
                  str([name_of(e.data[0]) for e in runs])):
        return
    _same_run(chk, fn, runs[0], stage, {p: (mk_load(ld, f)) for p, (f, ld) in zip(PARAMS[stage], inputs)})
    # writes
    writes = [e for e in calls if _writes(e.data[0])]
    if out is None:
        chk.ob(not writes, f"{fn}: writes no file", writes[0].where() if writes else where, str(writes[0].data[0])[:200] if writes else "")
    elif chk.ob(len(writes) == 1, f"{fn}: writes one file", where, f"{len(writes)} writes"):
        w = writes[0]
        t = w.data[0]
        args = list(t.args[1]) + [v for _, v in t.args[2]]
        kw = dict(t.args[2])
        path = args[0] if t.args[1] else kw.get("filename")
        data = t.args[1][1] if len(t.args[1]) > 1 else next((v for k, v in t.args[2] if v is not path), None)
        chk.ob(path is not None and path.cid == sym(out).cid, f"{fn}: the result is written to {out}", w.where(), str(path)[:200])
        chk.ob(name_of(t) == "scisave.write_data", f"{fn}: the result is written as data", w.where(), str(name_of(t)))
        chk.ob(data is not None and data.cid == runs[0].data[0].cid, f"{fn}: the complete result of the {stage} is written", w.where(), str(data)[:300])
        chk.ob(not failed(w) and not conditions(w), f"{fn}: the file is written if and only if the {stage} succeeded", w.where(),
               "the file is written under other conditions")


def mk_load(loader, f):
    return loader, sym(f)


def _writes(t):
    n = name_of(t) or ""
    return n in ("scisave.write_data", "scisave.write_config", "builtins.open") or n.startswith("scisave.write") or n.startswith(("pickle.dump", "json.dump", "os.remove", "shutil."))


def _same_run(chk, fn, ev, stage, inputs):
    """The run has the inputs in their places and the options unchanged."""
    t = ev.data[0]
    kw = bound(t)
    for p, v in inputs.items():
        x = kw.get(p)
        if isinstance(v, tuple):
            good = x is not None and x.op == "call" and name_of(x) == v[0] and len(x.args[1]) + len(x.args[2]) == 1 and (list(x.args[1]) + [b for _, b in x.args[2]])[0].cid == v[1].cid
            want = f"{v[0]}({v[1]})"
        else:
            good, want = x is not None and x.cid == v.cid, str(v)
        chk.ob(good, f"{fn}: {p} of the {stage}", ev.where(), f"code: {str(x)[:200]} / specification: {want}")
    for o in OPTIONS.get(stage, []):
        x = kw.get(o)
        chk.ob(x is not None and x.cid == sym(o).cid, f"{fn}: option {o} of the {stage}", ev.where(), f"code: {str(x)[:200]}")
    extra = set(kw) - set(inputs) - set(OPTIONS.get(stage, []))
    chk.ob(not extra, f"{fn}: no other argument of the {stage}", ev.where(), str(sorted(extra)))
    chk.ob(not failed(ev) and not conditions(ev), f"{fn}: the {stage} is run on every path", ev.where(), "the run depends on other conditions")


def _data(chk, stage):
    eng = Engine(repo())
    eng.opaque = set(RUN.values())
    fn = f"run_{stage}_data"
    res = eng.run("pypeec.main", fn, [], {**{p: sym(p) for p in PARAMS[stage]}, **_opts(stage)})
    runs = [e for e in eng.events if e.kind == "call" and name_of(e.data[0]) in RUN.values()]
    where = f"pypeec/main.py in {fn}()"
    if not chk.ob(len(runs) == 1, f"{fn}: runs the {stage} once", where, f"{len(runs)} runs"):
        return
    _same_run(chk, fn, runs[0], stage, {p: sym(p) for p in PARAMS[stage]})
    if FILES[stage][1]:
        t = res.frozen()
        chk.ob(t.cid == runs[0].data[0].cid, f"{fn}: returns the result of the {stage}", where, f"code: {str(t)[:200]}")


# ---------------------------------------------------------------- checks of the inputs

def _inputs(chk, stage):
    """Every input is checked before it is used."""
    rep = repo()
    eng = Engine(rep)
    mod = f"pypeec.run.{stage}"
    own = {f"{m.name}.{q}" for m, q, _ in rep.functions()}
    eng.opaque = own - {RUN[stage]}
    eng.strip_copy = True
    eng.run(mod, "run", [], {**{p: sym(p) for p in PARAMS[stage]}, **_opts(stage)})
    where = f"pypeec/run/{stage}.py in run()"
    calls = [e for e in eng.events if e.kind == "call"]
    checks = [e for e in calls if (name_of(e.data[0]) or "").startswith("pypeec.lib_check.")]
    for p in PARAMS[stage]:
        fct = "check_data_" + p[5:]
        got = [e for e in checks if (name_of(e.data[0]) or "").endswith("." + fct) and any(_origin(a) == p for a in bound(e.data[0]).values())]
        free = [e for e in got if not conditions(e) and not failed(e)]
        if not chk.ob(bool(free), f"{stage}: {p} is checked by {fct}", where, "the input is not checked on every path"):
            continue
        first = min(e.idx for e in free)
        used = [e for e in calls if e.idx < first and e not in checks and (name_of(e.data[0]) or "").startswith("pypeec.") and
                any(x.op == "sym" and x.args[0] == p for x in walk(e.data[0]))]
        chk.ob(not used, f"{stage}: {p} is checked before it is used", used[0].where() if used else where, str(used[0].data[0])[:200] if used else "")
    # options of the plots
    if stage in OPTIONS:
        got = [e for e in checks if (name_of(e.data[0]) or "").endswith(".check_plot_options") and not conditions(e) and not failed(e)]
        good = any({k: v.cid for k, v in bound(e.data[0]).items()} == {k: sym(k).cid for k in ("plot_mode", "folder", "name")} for e in got)
        chk.ob(good, f"{stage}: the options of the plots are checked", where, str([str(e.data[0])[:200] for e in got]))
        tags = {"tag_plot": f"data_{stage}"}
        if stage == "plotter":
            tags["tag_sweep"] = None
        for tag, data in tags.items():
            good = False
            for e in checks:
                if (name_of(e.data[0]) or "").endswith(".check_tag_list") and not conditions(e) and not failed(e):
                    b = list(bound(e.data[0]).values())
                    if len(b) == 2 and any(x.cid == sym(tag).cid for x in b):
                        other = [x for x in b if x.cid != sym(tag).cid]
                        if other and (_origin(other[0]) == data if data else _sweeps(other[0])):
                            good = True
            chk.ob(good, f"{stage}: the tags {tag} are checked with the entries they select", where, "no such check")


def _origin(t):
    """Input behind a (copied) value."""
    while t.op == "call" and name_of(t) in ("copy.deepcopy", "copy.copy") and t.args[1]:
        t = t.args[1][0]
    return t.args[0] if t.op == "sym" else None


def _sweeps(t):
    """The sweeps of a solution: third value of its check, or its entry."""
    if t.op == "item" and is_const(t.args[1]):
        b = t.args[0]
        if cval(t.args[1]) == 2 and (name_of(b) or "").endswith(".check_data_solution"):
            return True
        if cval(t.args[1]) == "data_sweep" and _origin(b) == "data_solution":
            return True
    return False


def _format(chk, p):
    """A configuration is validated with its schema by the strict validator."""
    eng = Engine(repo())
    fn = "check_" + p
    eng.run("pypeec.lib_check.check_data_format", fn, [sym("data")])
    where = f"pypeec/lib_check/check_data_format.py in {fn}()"
    vals = [e for e in eng.events if e.kind == "call" and (method_of(e.data[0]) == "validate" or (name_of(e.data[0]) or "").endswith(".validate"))]
    vals = [e for e in vals if not conditions(e) and not failed(e)]
    data = [e for e in vals if any(x.cid == sym("data").cid for x in list(e.data[0].args[1]) + [v for _, v in e.data[0].args[2]])]
    if not data and any(e.kind == "raise" for e in eng.events) and any(e.kind == "call" and method_of(e.data[0]) in ("iter_errors", "is_valid", "best_match") for e in eng.events):
        chk.undecided(f"{fn}: the data are validated", where, "the errors of the validator are handled by the code")
        return
    if not chk.ob(bool(data), f"{fn}: the data are validated", where, "no validation on every path"):
        return
    for e in data:
        files = {cval(x) for x in walk(e.data[0]) if is_const(x) and isinstance(cval(x), str) and cval(x).endswith(".yaml")}
        if not files:
            chk.undecided(f"{fn}: schema", where, "schema file not found")
            continue
        chk.ob(files == {SCHEMAS[p]}, f"{fn}: validated with the schema {SCHEMAS[p]}", e.where(), str(sorted(files)))
    # types
    for kind, cls in (("number", "numpy.floating"), ("integer", "numpy.integer")):
        red = [x for x in walk(data[0].data[0]) if _redefines(x, kind)]
        if not red:
            chk.undecided(f"{fn}: type {kind}", where, "type not redefined")
            continue
        f = red[0].args[1][1]
        if f.op != "func":
            chk.undecided(f"{fn}: type {kind}", where, str(f)[:100])
            continue
        st = eng.state.copy()
        try:
            v, st = eng.apply(f, [sym("checker"), sym("instance")], {}, st, f.extra.node)
            v = eng.freeze(v, st)
        except Exception as ex:
            chk.undecided(f"{fn}: type {kind}", where, str(ex)[:100])
            continue
        acc, unknown = set(), False
        for ty in TYPES:
            r = _accepts(v, ty)
            unknown = unknown or r is None
            if r:
                acc.add(ty)
        if unknown:
            chk.undecided(f"{fn}: type {kind}", where, str(v)[:100])
            continue
        need, never = TYPE_RULES[kind]
        chk.ob(need <= acc and not never & acc, f"{fn}: values of the type {kind}", where, f"accepted types: {sorted(acc)}; {str(v)[:200]}")


TYPES = ("int", "numpy.int64", "float", "numpy.float64", "bool", "numpy.bool_", "str", "NoneType", "complex", "list")
TYPE_RULES = {"integer": ({"int", "numpy.int64"}, {"float", "numpy.float64", "bool", "numpy.bool_", "str", "NoneType", "complex", "list"}),
              "number": ({"float", "numpy.float64"}, {"bool", "numpy.bool_", "str", "NoneType", "complex", "list"})}
CLASSES = {
    "builtins.int": ({"int", "bool"}, {"int", "numpy.int64"}), "builtins.bool": ({"bool"}, {"bool", "numpy.bool_"}), "builtins.float": ({"float", "numpy.float64"}, {"float", "numpy.float64"}),
    "builtins.str": ({"str"}, {"str"}), "builtins.complex": ({"complex"}, {"complex"}), "builtins.list": ({"list"}, set()),
    "numpy.integer": ({"numpy.int64"}, {"int", "numpy.int64"}), "numpy.floating": ({"numpy.float64"}, {"float", "numpy.float64"}),
    "numpy.number": ({"numpy.int64", "numpy.float64"}, {"int", "numpy.int64", "float", "numpy.float64", "complex"}), "numpy.bool_": ({"numpy.bool_"}, {"bool", "numpy.bool_"}),
    "numpy.inexact": ({"numpy.float64"}, {"float", "numpy.float64", "complex"}), "numpy.generic": ({"numpy.int64", "numpy.float64", "numpy.bool_"}, set(TYPES)),
    "numbers.Integral": ({"int", "bool", "numpy.int64"}, set()), "numbers.Real": ({"int", "bool", "numpy.int64", "float", "numpy.float64"}, set()),
    "numbers.Number": ({"int", "bool", "numpy.int64", "float", "numpy.float64", "complex"}, set()),
    "numpy.int64": ({"numpy.int64"}, {"int", "numpy.int64"}), "numpy.float64": ({"numpy.float64"}, {"float", "numpy.float64"}),
}


def _classes(t):
    if t.op in ("tuple", "list"):
        out = [_classes(x) for x in t.args[0]]
        return None if None in out else [y for x in out for y in x]
    q = qual(t)
    return [q] if q in CLASSES else None


def _accepts(t, ty):
    """Value of a predicate about the type of the instance, for an instance of the type ty."""
    if is_const(t):
        return bool(cval(t))
    if t.op == "not" or t.op == "un" and t.args[0] == "not":
        v = _accepts(t.args[-1], ty)
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [_accepts(x, ty) for x in t.args[0]]
        if t.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if t.op == "phi":
        c = _accepts(t.args[0], ty)
        return None if c is None else _accepts(t.args[1 if c else 2], ty)
    n = name_of(t)
    if n in ("builtins.isinstance", "numpy.issubdtype", "builtins.issubclass") and len(t.args[1]) == 2:
        cs = _classes(t.args[1][1])
        x = t.args[1][0]
        if n != "builtins.isinstance":
            if not (name_of(x) == "builtins.type" or x.op == "attr" and x.args[1] == "__class__"):
                return None
            x = x.args[1][0] if x.op == "call" else x.args[0]
        if cs is None or x.cid != sym("instance").cid:
            return None
        k = 1 if n == "numpy.issubdtype" else 0
        return any(ty in CLASSES[c][k] for c in cs)
    if n == "builtins.bool" and len(t.args[1]) == 1:
        return _accepts(t.args[1][0], ty)
    return None


def _redefines(x, kind):
    if method_of(x) != "redefine" and not (name_of(x) or "").endswith(".redefine"):
        return False
    return bool(x.args[1]) and is_const(x.args[1][0]) and cval(x.args[1][0]) == kind


def _content(chk, p):
    """The content of a data file is checked and returned in its places."""
    eng = Engine(repo())
    fn = "check_" + p
    res = eng.run("pypeec.lib_check.check_data_options", fn, [sym("data")])
    where = f"pypeec/lib_check/check_data_options.py in {fn}()"
    out = res.frozen()
    want = ["status"] + CONTENT[p]
    items = list(out.args[0]) if out.op in ("tuple", "list") else None
    if items is None:
        chk.undecided(f"{fn}: result", where, str(out)[:100])
    else:
        good = len(items) == len(want) and all(x.op == "item" and x.args[0].cid == sym("data").cid and is_const(x.args[1]) and cval(x.args[1]) == w for x, w in zip(items, want))
        chk.ob(good, f"{fn}: returns {', '.join(want)}", where, f"code: {str(out)[:200]}")
    for e in eng.events:
        if e.kind == "call" and name_of(e.data[0]) == "jsonschema.validate":
            kw = bound(e.data[0])
            inst = kw.get("instance") or (e.data[0].args[1][0] if e.data[0].args[1] else None)
            need = {cval(x) for x in walk(e.data[0]) if is_const(x) and isinstance(cval(x), str)}
            for x in walk(e.data[0]):
                if is_const(x) and isinstance(cval(x), tuple):
                    need |= set(y for y in cval(x) if isinstance(y, str))
            if inst is not None and inst.cid == sym("data").cid and not conditions(e):
                chk.ob(set(want) <= need, f"{fn}: the entries {', '.join(want)} are required", e.where(), str(sorted(need)))
                return
    chk.undecided(f"{fn}: required entries", where, "no validation found")


def _options(chk, _):
    """Invalid tags and options of the plots are rejected."""
    eng = Engine(repo())
    mod = "pypeec.lib_check.check_data_options"
    eng.run(mod, "check_tag_list", [sym("data"), sym("tags")])
    where = "pypeec/lib_check/check_data_options.py in check_tag_list()"
    raises = [e for e in eng.events if e.kind == "raise"]
    verdict = [_rejects(e) for e in raises]
    if not raises:
        chk.bad("a tag which is not an entry is rejected", where, "no error is raised")
    elif True in verdict:
        chk.ok("a tag which is not an entry is rejected", where)
    elif None in verdict:
        chk.undecided("a tag which is not an entry is rejected", where, "condition of the error not recognised")
    else:
        chk.bad("a tag which is not an entry is rejected", raises[0].where(), str([(str(f)[:100], p) for f, p in raises[0].facts]))
    eng = Engine(repo())
    names = ["plot_mode", "folder", "name"]
    eng.run(mod, "check_plot_options", [], {k: sym(k) for k in names})
    where = "pypeec/lib_check/check_data_options.py in check_plot_options()"
    seen = {}
    for e in eng.events:
        if e.kind == "call" and name_of(e.data[0]) == "jsonschema.validate" and not conditions(e):
            kw = bound(e.data[0])
            inst = kw.get("instance") or (e.data[0].args[1][0] if e.data[0].args[1] else None)
            sch = kw.get("schema") or (e.data[0].args[1][1] if len(e.data[0].args[1]) > 1 else None)
            if inst is not None and sch is not None and inst.op == "sym":
                seen[inst.args[0]] = (sch, e)
    for k in names:
        used = any(x.cid == sym(k).cid for e in eng.events for y in [e.data[0] if e.kind == "call" else None] + [f for f, _ in e.facts] if y is not None for x in walk(y))
        chk.ob(k in seen or (None if used else False), f"the option {k} is checked", where, "no validation found")
    if "plot_mode" in seen:
        vals = set()
        for x in walk(seen["plot_mode"][0]):
            if is_const(x):
                v = cval(x)
                vals |= set(v) if isinstance(v, tuple) else {v}
        modes = {"qt", "nb", "save", "debug"}
        chk.ob(modes <= vals and not {v for v in vals if isinstance(v, str)} - modes - {"type", "enum", "null", "string"}, "plot modes", seen["plot_mode"][1].where(), str(vals))


def _rejects(e):
    """The error is raised if (and only if) a tag is not an entry: True, False (something else), None (not recognised)."""
    facts = [(f, p) for f, p in e.facts if f.op not in ("inloop", "trybody") and not _none(f, "tags") and not f.op.startswith(("elem", "pos"))]
    if len(facts) != 1:
        return None if facts else False
    f, p = facts[0]
    while f.op == "not" or f.op == "un" and f.args[0] == "not":
        f, p = f.args[-1], not p
    tags, data = sym("tags").cid, sym("data").cid

    def over(x, c):
        return any(z.cid == c for z in walk(x))

    def member(x, neg):
        """A generic tag is (not) an entry."""
        while x.op == "not" or x.op == "un" and x.args[0] == "not":
            x, neg = x.args[-1], not neg
        if x.op == "cmp" and x.args[0] in ("in", "not in") and over(x.args[2], data) and not over(x.args[1], data):
            return (x.args[0] == "not in") == neg
        return None
    if f.op == "cmp" and f.args[0] in ("in", "not in") and f.args[1].op == "elem" and over(f.args[1], tags) and over(f.args[2], data):
        return (f.args[0] == "not in") == p
    n = name_of(f)
    if n in ("builtins.any", "builtins.all") and len(f.args[1]) == 1:
        x = f.args[1][0]
        if x.op == "map" and over(x.args[0], tags):
            m = member(x.args[1], True)
            if m is None:
                return None
            # m: the predicate is "not an entry"
            return (m and p) if n == "builtins.any" else (not m and not p)
    return None


def _none(f, name):
    return f.op == "cmp" and f.args[0] in ("is", "is not", "==", "!=") and any(x.cid == sym(name).cid for x in f.args[1:] if hasattr(x, "cid")) and any(is_const(x) and cval(x) is None for x in f.args[1:] if hasattr(x, "op"))


# ---------------------------------------------------------------- command line

class _Cli:
    def __init__(self, command, alias=None):
        """Run the command line for a command (or its alias)."""
        self.eng = eng = Engine(repo())
        eng.opaque = set(MAIN.values())
        self.command = command
        self.typed = alias or command
        eng.method_models["parse_args"] = self.parse
        eng.call_models["builtins.hasattr"] = self.has
        self.res = None
        self.opts = {}
        self.res = eng.run("pypeec.script", "run_arguments", [sym("argv")])
        self.calls = [e for e in eng.events if e.kind == "call"]

    def has(self, eng, args, kwargs, st, node):
        h = eng.freeze(args[0], st) if len(args) == 2 else None
        if h is None or h.op != "obj" or not is_const(args[1]):
            return None
        if "command" not in dict(h.args[1]):
            return None
        return const(cval(args[1]) in dict(h.args[1])), st

    def parse(self, eng, obj, args, kwargs, st, node):
        calls = [e.data[0] for e in eng.events if e.kind == "call"]
        subs = [t for t in calls if method_of(t) == "add_parser" and (cval(t.args[1][0]) if t.args[1] and is_const(t.args[1][0]) else None) == self.command]
        self.parser = subs[0] if len(subs) == 1 else None
        self.aliases = set()
        h = HObj("obj", 0)
        self.argv = args[0] if args else None
        self.typed_ok = False
        if self.parser is not None:
            al = dict(self.parser.args[2]).get("aliases")
            self.aliases = _strings(al) if al is not None else set()
            for t in calls:
                if method_of(t) == "add_argument" and self._belongs(t.args[0].args[0], eng, st):
                    self.option(t)
        for d, o in self.opts.items():
            h.attrs[d] = sym("arg." + d)
        # destination of the name of the command
        for t in calls:
            if method_of(t) == "add_subparsers":
                d = dict(t.args[2]).get("dest")
                if d is not None and is_const(d):
                    h.attrs[cval(d)] = const(self.typed)
            if method_of(t) == "add_argument" and not self._sub(t.args[0].args[0]):
                d = dict(t.args[2]).get("dest")
                if d is not None and is_const(d):
                    h.attrs[cval(d)] = sym("arg." + str(cval(d)))
        return eng.alloc(st, h), st

    def _sub(self, t):
        return method_of(t) == "add_parser"

    def _belongs(self, t, eng, st):
        return t.cid == self.parser.cid

    def option(self, t):
        names = [cval(x) for x in t.args[1] if is_const(x)]
        kw = dict(t.args[2])
        d = kw.get("dest")
        dest = cval(d) if d is not None and is_const(d) else None
        if dest is None:
            long = [n for n in names if n.startswith("--")] or names
            dest = long[0].lstrip("-").replace("-", "_") if long else None
        self.opts[dest] = (names, kw, t)


def _strings(t):
    out = set()
    for x in walk(t):
        if is_const(x):
            v = cval(x)
            out |= {y for y in v if isinstance(y, str)} if isinstance(v, tuple) else {v} if isinstance(v, str) else set()
    return out


def _targets(cli):
    return [e for e in cli.calls if name_of(e.data[0]) in MAIN.values() or name_of(e.data[0]) == "shutil.unpack_archive"]


def _alias(chk, command):
    _cli(chk, command, COMMANDS[command][0])


def _cli(chk, command, alias=None):
    cli = _Cli(command, alias)
    typed = alias or command
    where = "pypeec/script.py in run_arguments()"
    if not hasattr(cli, "parser"):
        chk.undecided(f"command {typed}", where, "arguments are not parsed")
        return
    if not chk.ob(cli.parser is not None, f"command {typed}: exists", where, "no such command"):
        return
    if alias:
        chk.ob(alias in cli.aliases, f"command {typed}: alias of {command}", where, str(sorted(cli.aliases)))
    if not alias:
        chk.ob(cli.argv is not None and cli.argv.cid == sym("argv").cid, f"command {typed}: the given arguments are parsed", where, str(cli.argv)[:100])
    got = [e for e in _targets(cli)]
    sure = [e for e in got if not failed(e)]
    if not chk.ob(len(got) == 1 and len(sure) == 1, f"command {typed}: one action", where, str([name_of(e.data[0]) for e in got])):
        return
    e = got[0]
    t = e.data[0]
    open_ = [f for f, p in conditions(e)]
    if any(any(x.op == "attr" and x.args[1] == "command" for x in walk(f)) for f in open_):
        chk.undecided(f"command {typed}", e.where(), "the choice of the command is not understood")
        return
    chk.ob(not open_, f"command {typed}: the action is run on every path", e.where(), str([str(f)[:100] for f in open_]))
    if command in ARCHIVES:
        files = {s for s in _strings(t) if s.endswith(".zip")}
        chk.ob(files == {ARCHIVES[command]}, f"command {typed}: archive {ARCHIVES[command]}", e.where(), str(sorted(files)))
        target = list(t.args[1])[1:2] + [v for k, v in t.args[2] if k == "extract_dir"]
        chk.ob(bool(target) and target[0].op == "sym" and target[0].args[0].startswith("arg.") and target[0].args[0][4:] in cli.opts, f"command {typed}: extracted to the given path", e.where(), str(target)[:100])
    else:
        chk.ob(name_of(t) == MAIN[command], f"command {typed}: runs the {command}", e.where(), str(name_of(t)))
        kw = bound(t)
        spec = COMMANDS[command][1]
        extra = set(kw) - set(spec)
        chk.ob(not extra, f"command {typed}: no other argument", e.where(), str(sorted(extra)))
        for p, opt in spec.items():
            x = kw.get(p)
            dest = x.args[0][4:] if x is not None and x.op == "sym" and x.args[0].startswith("arg.") else None
            if not chk.ob(dest in cli.opts and opt in cli.opts[dest][0], f"command {typed}: {opt} gives {p}", e.where(), f"code: {str(x)[:100]} / options {cli.opts[dest][0] if dest in cli.opts else ''}"):
                continue
            names, okw, _ = cli.opts[dest]
            if p.startswith("file_"):
                r = okw.get("required")
                chk.ob(r is not None and is_const(r) and cval(r) is True, f"command {typed}: {opt} is required", where, str(r))
            else:
                r = okw.get("required")
                chk.ob(r is None or is_const(r) and cval(r) is False, f"command {typed}: {opt} is optional", where, str(r))
                d = okw.get("default")
                v = cval(d) if d is not None and is_const(d) else None if d is None else "?"
                chk.ob(v == DEFAULTS[p], f"command {typed}: default of {opt}", where, f"code: {d} / specification: {DEFAULTS[p]}")
            if p.startswith("tag_"):
                n = okw.get("nargs")
                chk.ob(n is not None and is_const(n) and cval(n) in ("+", "*"), f"command {typed}: {opt} is a list", where, str(n))
            if p == "plot_mode":
                c = okw.get("choices")
                chk.ob(c is not None and _strings(c) == {"qt", "nb", "save", "debug"}, f"command {typed}: choices of {opt}", where, str(c)[:100])
    _status(chk, cli, typed, where)
    known = {x.cid for x in walk(cli.res.frozen()) if x.op == "trybody"}
    lost = [f for f, p in e.facts if f.op == "trybody" and p and f.cid not in known]
    chk.ob(not lost, f"command {typed}: exit status is not zero after a failure", e.where(), "a handler around the action hides the failure from the status")


def _status(chk, cli, typed, where):
    """Zero if and only if nothing failed."""
    t = cli.res.frozen()
    tids = {x for x in walk(t) if x.op == "trybody"}
    hs = {x for x in walk(t) if x.op == "handler"}
    tids, hs = sorted(tids, key=lambda x: x.cid), sorted(hs, key=lambda x: x.cid)
    if len(tids) + len(hs) > 8:
        chk.undecided(f"command {typed}: exit status", where, "too many handlers")
        return
    if not tids:
        chk.ob(None if not is_const(t) or cval(t) else True, f"command {typed}: exit status zero after success", where, str(t)[:100])
        return
    # handlers of a block
    own = {}
    for x in walk(t):
        if x.op == "and":
            ts = [y.args[-1] for y in x.args[0] if (y.op == "not" or y.op == "un" and y.args[0] == "not") and y.args[-1].op == "trybody"]
            for h in x.args[0]:
                if h.op == "handler" and len(ts) == 1:
                    own.setdefault(ts[0].cid, set()).add(h.cid)
    for vals in itertools.product((True, False), repeat=len(tids)):
        for hv in itertools.product((True, False), repeat=len(hs)):
            ok = all(vals)
            if ok and any(hv):
                continue
            act = {h.cid for h, v in zip(hs, hv) if v}
            # the exception of a failed block is handled, or leaves the function
            if any(not v and x.cid in own and not own[x.cid] & act for x, v in zip(tids, vals)):
                continue
            env = {x.cid: v for x, v in zip(tids + hs, vals + hv)}
            leaf = _leaf(t, env)
            if leaf is None:
                chk.undecided(f"command {typed}: exit status", where, "condition not understood")
                return
            if ok:
                chk.ob(is_const(leaf) and cval(leaf) in (0, None) and cval(leaf) is not False, f"command {typed}: exit status zero after success", where, f"status {leaf}")
            elif is_const(leaf):
                chk.ob(isinstance(cval(leaf), int) and cval(leaf) != 0, f"command {typed}: exit status is not zero after a failure", where, f"status {leaf}")
            else:
                good = leaf.op == "attr" and leaf.args[1] == "code" and leaf.args[0].op == "exc"
                chk.ob(good or None, f"command {typed}: exit status of invalid arguments", where, f"status {str(leaf)[:100]}")


def _leaf(t, env):
    while t.op == "phi":
        c = _truth(t.args[0], env)
        if c is None:
            return None
        t = t.args[1] if c else t.args[2]
    return t


def _truth(c, env):
    if c.cid in env:
        return env[c.cid]
    if is_const(c):
        return bool(cval(c))
    if c.op == "not" or c.op == "un" and c.args[0] == "not":
        v = _truth(c.args[-1], env)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [_truth(x, env) for x in c.args[0]]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    return None


# ---------------------------------------------------------------- errors

BROAD = {"Exception", "BaseException"}
# top of the command line: the failure is reported by the exit status (decided by _status)
TOP = {"pypeec.script"}


def _lint(chk):
    rep = repo()
    names = set()
    for m in rep.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and any(_last(b).endswith(("Error", "Exception", "Warning")) for b in n.bases):
                names.add(n.name)
    for m in rep.modules.values():
        owner = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(n):
                    owner[x] = n.name
        for n in ast.walk(m.tree):
            where = f"{m.rel}:{getattr(n, 'lineno', 0)} in {owner.get(n, '<module>')}()"
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                f = _last(n.value.func)
                if f in names or (f.endswith(("Error", "Exception")) and f in dir(__builtins__) + _builtin_errors()):
                    chk.bad("every exception which is created is raised", where, f"{f}(...) is created and dropped")
                elif f == "suppress":
                    chk.bad("no failure is hidden", where, "suppress")
            if isinstance(n, ast.Raise):
                chk.count("raise_statements")
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if isinstance(it.context_expr, ast.Call) and _last(it.context_expr.func) == "suppress" and any(_last(a) in BROAD for a in it.context_expr.args):
                        chk.bad("no failure is hidden", where, "every exception is suppressed")
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    hw = f"{m.rel}:{h.lineno} in {owner.get(n, '<module>')}()"
                    types = [_last(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
                    chk.count("handlers")
                    if not BROAD & set(types):
                        continue
                    if m.name in TOP:
                        continue
                    chk.ob(_ends(h.body), "a handler of all exceptions raises again", hw, "the handler hides the failure")
                for x in n.finalbody:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Return):
                            chk.bad("no failure is hidden", f"{m.rel}:{y.lineno}", "return in a finally block")
    chk.ob(True, "every exception which is created is raised", None)


def _builtin_errors():
    import builtins
    return [k for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)]


def _last(n):
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Call):
        return _last(n.func)
    return ""


def _ends(body):
    """Every path through the block ends with a raise."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and _ends(s.body) and _ends(s.orelse):
            return True
        if isinstance(s, ast.With) and _ends(s.body):
            return True
        if isinstance(s, ast.Try) and _ends(s.finalbody or []):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and _last(s.value.func) in ("exit", "_exit", "abort"):
            return True
    return False
