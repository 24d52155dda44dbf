"""Properties of the options: what the validation accepts is what the code supports."""

import itertools

from sa import schema as sc
from sa.engine import Engine
from sa.report import parallel
from sa.scenario import to_term, typed_voxel, typed_materials, typed_sources, voxel
from sa.term import T, sym, mk, const, is_const, cval, walk, children
from checks.solver import repo

STAGES = {
    "mesher": ("pypeec.run.mesher", ("geometry",)),
    "viewer": ("pypeec.run.viewer", ("viewer",)),
    "plotter": ("pypeec.run.plotter", ("plotter",)),
    "solver": ("pypeec.run.solver", ("problem", "tolerance")),
}
FILES = {
    "geometry": "schema_geometry.yaml", "problem": "schema_problem.yaml", "tolerance": "schema_tolerance.yaml",
    "viewer": "schema_list_viewer.yaml", "plotter": "schema_list_plotter.yaml",
}


def text(path):
    return ".".join(str(k) for k in path) or "(root)"


class Stage:
    """Abstract run of one stage on any validated configuration."""

    def __init__(self, stage, problem=None, fixed=(), mode=None):
        mod, names = STAGES[stage]
        self.schemas = {n: sc.load(FILES[n]) for n in names}
        self.eng = Engine(repo())
        self.eng.strip_copy = True
        self.eng.keep_const = True
        self.st = self.eng.state.copy()
        roots, vals = {}, {}
        for n in names:
            top = self.schemas[n]
            if "properties" in top:
                d = {}
                for k in top.get("required", []):
                    roots[f"{n}.{k}"] = (n, (k,))
                    d[k] = sym(f"{n}.{k}")
                if n == "problem" and problem:
                    d.update(problem)
                vals[n] = d
            else:
                roots[n] = (n, ())
                vals[n] = sym(n)
        for (n, path), v in dict(fixed).items():
            t = sym(f"{n}.{path[0]}")
            if len(path) == 1:
                vals[n][path[0]] = v
            for k in path[1:]:
                t = mk("item", t, const(k))
            self.eng.fixed[t.cid] = const(v)
        self.consts = dict(fixed)
        self.memo_opt, self.memo_leaf = {}, {}
        self.returned = []
        self.loc = sc.Locator(roots)
        if stage == "mesher":
            args = [vals["geometry"]]
        elif stage == "viewer":
            args = [sym("data_voxel"), vals["viewer"], None, mode, sym("folder"), sym("name")]
        elif stage == "plotter":
            args = [sym("data_solution"), vals["plotter"], None, None, mode, sym("folder"), sym("name")]
        else:
            args = [typed_voxel() if problem else voxel(), vals["problem"], vals["tolerance"]]
        self.res = self.eng.run(mod, "run", [to_term(self.eng, self.st, x) for x in args], state=self.st)
        self.out = self.res.frozen()
        self._callbacks()

    def _callbacks(self):
        """Functions handed to the libraries (operators, callbacks) are executed by them."""
        done, k = set(), 0
        while k < len(self.eng.events):
            e = self.eng.events[k]
            k += 1
            if e.kind != "call":
                continue
            for f in [x for x in list(e.data[1]) + list(e.data[2].values()) if x.op == "func"]:
                if f.cid in done:
                    continue
                done.add(f.cid)
                a = f.extra.node.args
                pos = (a.posonlyargs + a.args)[1 if f.extra.bound is not None else 0:]
                args = [sym(f"X.{f.cid}.{i}") for i in range(len(pos) - len(f.extra.defaults))]
                n = len(self.eng.events)
                r, st = self.eng.apply(f, args, {}, self.res.state.copy(), None)
                for x in self.eng.events[n:]:
                    x.facts = tuple(e.facts) + tuple(x.facts)
                if r is not None:
                    self.returned.append(self.eng.freeze(r, st))

    def freeze(self, t):
        return self.eng.freeze(t, self.res.state)

    def leaf(self, loc):
        """Finite domain of an option (over all the alternatives of the schema), None otherwise."""
        if loc not in self.memo_leaf:
            self.memo_leaf[loc] = self._leaf(loc)
        return self.memo_leaf[loc]

    def _leaf(self, loc):
        ns = self.nodes(loc)
        if not ns:
            return None
        out = []
        for n in ns:
            d = sc.domain(n)
            if d is None:
                t = sc.types(n) or set()
                if "null" not in t:
                    return None
                d = [None, OTHER] if len(t) > 1 else [None]
            out += [v for v in d if v not in out]
        return out

    def nodes(self, loc, facts=()):
        name, path = loc
        lits = [(f, p) for f, p in facts if self.options_of([(f, p)])]

        def allowed(pre, key, val):
            here = (name, tuple(pre) + (key,))
            return all(self.value(f, {here: val}) is not (not p) for f, p in lits)
        return sc.nodes(self.schemas[name], path, allowed)

    def value(self, f, vals):
        """Truth value of a condition for given option values (None: unknown)."""
        if is_const(f):
            return bool(cval(f))
        if f.op in ("and", "or"):
            vs = [self.value(x, vals) for x in f.args[0]]
            stop = f.op == "or"
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if f.op == "un" and f.args[0] == "not":
            v = self.value(f.args[1], vals)
            return None if v is None else not v
        if f.op == "cmp":
            op, a, b = f.args
            x, y = self.operand(a, vals), self.operand(b, vals)
            if op in ("in", "not in"):
                if b.op in ("tuple", "list", "set") and x is not UNKNOWN:
                    ys = [self.operand(z, vals) for z in b.args[0]]
                    if UNKNOWN in ys or x is OTHER:
                        return None
                    return (x in ys) == (op == "in")
                return None
            if UNKNOWN in (x, y):
                return None
            if OTHER in (x, y):
                if None in (x, y):
                    return {"==": False, "is": False, "!=": True, "is not": True}.get(op)
                return None
            return {"==": x == y, "is": x is y or x == y, "!=": x != y, "is not": x != y}.get(op)
        v = self.operand(f, vals)
        return None if v is UNKNOWN or v is OTHER else bool(v)

    def operand(self, t, vals):
        if is_const(t):
            return cval(t)
        if t.op == "phi":
            c = self.value(t.args[0], vals)
            if c is not None:
                return self.operand(t.args[1 if c else 2], vals)
        ls = self.loc.locs(t)
        if len(ls) == 1:
            return vals.get(next(iter(ls)), UNKNOWN)
        return UNKNOWN

    def tests(self, f):
        """Options whose value is tested by a condition."""
        if f.op in ("and", "or"):
            return set().union(*(self.tests(x) for x in f.args[0]))
        if f.op == "un" and f.args[0] == "not":
            return self.tests(f.args[1])
        if f.op == "cmp":
            return set().union(*(self.tests(x) for x in f.args[1:] if x.op not in ("cmp", "and", "or", "un")))
        if f.op == "phi":
            return set().union(*(self.tests(x) for x in f.args))
        if f.op in ("tuple", "list", "set"):
            return set().union(*(self.tests(x) for x in f.args[0]))
        return self.loc.locs(f)

    def options_of(self, facts):
        """Options with finite domains that occur in conditions."""
        out = []
        for f, _ in facts:
            if f.cid not in self.memo_opt:
                self.memo_opt[f.cid] = [l for l in sorted(self.tests(f), key=str) if self.leaf(l) is not None]
            out += [l for l in self.memo_opt[f.cid] if l not in out]
        return out

    def related(self, start, facts):
        """Conditions that constrain the given options (directly or through other options)."""
        def groups(ls):
            return {(n, p[:-1]) for n, p in ls}
        names, out, todo = groups(start), [], list(facts)
        while True:
            new = [x for x in todo if names & groups(self.options_of([x])) and len(self.options_of([x])) <= 8]
            if not new:
                return out
            todo = [x for x in todo if x not in new]
            out += new
            names |= groups(self.options_of(new))

    def possible(self, vals):
        """The values can occur together in a validated configuration."""
        for n, p in {(n, p[:-1]) for n, p in vals}:
            here = {q[-1]: v for (m, q), v in vals.items() if m == n and q[:-1] == p}
            if not sc.nodes(self.schemas[n], p, lambda pre, k, v: pre != p or k not in here or here[k] == v):
                return False
        return True

    def assignments(self, facts, extra=(), limit=50000):
        """Option values compatible with the conditions."""
        ls = self.options_of(facts)
        ls += [x for x in extra if x not in ls]
        doms = [self.leaf(x) for x in ls]
        n = 1
        for d in doms:
            n *= len(d)
        if n > limit:
            return None
        out = []
        for v in itertools.product(*doms):
            vals = dict(zip(ls, v))
            if all(self.value(f, vals) is not (not p) for f, p in facts) and self.possible(vals):
                out.append(vals)
        return out


    def feasible_null(self, x, facts):
        a = self.assignments(self.related([x], facts), [x])
        return a is None or any(v[x] is None for v in a)

    def rejects(self, facts):
        """Option values for which an error is raised whatever the other data ([]: none, None: undecided)."""
        if not facts:
            return ["all"]
        f, p = facts[-1]
        own = self.options_of([facts[-1]])
        if not own:
            return ["all"] if is_const(f) and bool(cval(f)) is p else []
        a = self.assignments(self.related(own, facts))
        if a is None:
            return None
        return [self.pretty(v) for v in a if self.value(f, v) is p][:1]

    def pretty(self, vals):
        return {f"{n}: {text(p)}": v for (n, p), v in vals.items()}

    def nullable(self, chk, lab, facts_of):
        """Null values are not used as numbers."""
        null = set()
        for n, schema in self.schemas.items():
            for p, ns in sc.every_path(schema).items():
                if any("null" in types_of(x) and types_of(x) - {"null"} for x in ns):
                    null.add((n, p))
        memo = {}

        def touches(t):
            """Options with null values inside a value."""
            stack = [(t, False)]
            while stack:
                x, done = stack.pop()
                if x.cid in memo:
                    continue
                if done:
                    r = frozenset(self.loc.locs(x) & null)
                    for y in children(x):
                        r |= memo.get(y.cid, frozenset())
                    memo[x.cid] = r
                else:
                    stack.append((x, True))
                    stack += [(y, False) for y in children(x) if y.cid not in memo]
            return memo[t.cid]
        memo_test = {}

        def tested(f):
            if f.cid not in memo_test:
                memo_test[f.cid] = self.tests(f) & null
            return memo_test[f.cid]
        found, visited = {}, set()

        def key_of(facts):
            return tuple((f.cid, p) for f, p in facts)

        def visit(t, facts):
            own = touches(t)
            if not own:
                return
            facts = [x for x in facts if tested(x[0]) & own]
            fk = frozenset(key_of(facts))
            if (t.cid, fk) in visited:
                return
            visited.add((t.cid, fk))
            if t.op in ("and", "or"):
                cur = list(facts)
                for x in t.args[0]:
                    visit(x, cur)
                    if tested(x):
                        cur = cur + [(x, t.op == "and")]
                return
            if t.op == "phi":
                c = t.args[0]
                visit(c, facts)
                for x, p in ((t.args[1], True), (t.args[2], False)):
                    new = facts + [(c, p)] if tested(c) else facts
                    visit(x, new)
                return
            if t.op == "bin" or (t.op == "cmp" and t.args[0] in ("<", ">", "<=", ">=")):
                for x in t.args[1:]:
                    for y, extra in self.branches(x):
                        for l in self.loc.locs(y) & null:
                            rel = [z for z in facts if tested(z[0])] + extra
                            ns = self.nodes(l, rel)
                            if ns and any("null" in types_of(n) for n in ns) and self.feasible_null(l, rel):
                                found.setdefault(l, cur_event[0])
            for x in children(t):
                visit(x, facts)
        sunk = {}

        def sink(e, facts):
            """Null values handed to a library."""
            if e.kind == "call":
                n = e.data[0].args[0]
                if n.op == "ext" and (n.args[0] in NULL_FCT or n.args[0].split(".")[0] in ("copy", "scilogger")):
                    return
                if n.op in ("attr", "bmeth") and any(x.op == "ext" and x.args[0].startswith("scilogger") for x in walk(n)):
                    return
                vals = [(i, x) for i, x in enumerate(e.data[1])] + list(e.data[2].items())
            elif e.kind == "setattr":
                n, vals = None, [("attribute " + e.data[1] if isinstance(e.data[1], str) else "attribute", e.data[2])]
            else:
                return
            last = None if n is None else n.args[0].split(".")[-1] if n.op == "ext" else n.args[1] if n.op in ("attr", "bmeth") else None
            for k, x in vals:
                if (last, k) in NULL_ARG:
                    continue
                for y, extra in self.branches(self.freeze(x)):
                    for l in self.loc.locs(y) & null:
                        rel = [z for z in facts if tested(z[0])] + extra
                        ns = self.nodes(l, rel)
                        if ns and any("null" in types_of(n) for n in ns) and self.feasible_null(l, rel):
                            sunk.setdefault(l, (e, k))
        cur_event = [None]
        for e in self.eng.events:
            if e.kind in ("enter", "leave"):
                continue
            cur_event[0] = e
            facts = [x for x in facts_of(e) if tested(x[0])]
            sink(e, facts)
            for i, (f, _) in enumerate(facts):
                visit(f, facts[:i])
            for t in terms(e.data):
                visit(self.freeze(t), facts)
        chk.count("nullable_options", len(null))
        for l in sorted(null, key=str):
            e, k = (found.get(l), None) if l in found else sunk.get(l, (None, None))
            chk.ob(e is None, f"the null value of {l[0]}: {text(l[1])} is handled ({lab})", e.where() if e else f"pypeec/data/{FILES[l[0]]}", "used as a number although the validation accepts null" if k is None else f"handed to a library (argument {k}) although the validation accepts null")

    def branches(self, t):
        """Values of a conditional expression with their conditions."""
        if t.op == "phi":
            return [(x, [(t.args[0], True)] + f) for x, f in self.branches(t.args[1])] + [(x, [(t.args[0], False)] + f) for x, f in self.branches(t.args[2])]
        return [(t, [])]


class _Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNKNOWN, OTHER = _Mark("unknown"), _Mark("value")


# ---------------------------------------------------------------- jobs

def selectors(schema):
    """Options with an enumeration of values (not inside lists or open dictionaries)."""
    out = {}
    for p, ns in sc.every_path(schema).items():
        if p and sc.ANY not in p and all("enum" in n for n in ns):
            d = []
            for n in ns:
                d += [v for v in n["enum"] if v not in d]
            if len(d) > 1:
                out[p] = d
    return out


def cover(doms):
    """Pairwise covering array."""
    keys = list(doms)
    todo = {((a, x), (b, y)) for a, b in itertools.combinations(range(len(keys)), 2) for x in range(len(doms[keys[a]])) for y in range(len(doms[keys[b]]))}
    rows = []
    while todo:
        row = {}
        (a, x), (b, y) = min(todo)
        row[a], row[b] = x, y
        for c in range(len(keys)):
            if c not in row:
                def gain(z):
                    return sum(tuple(sorted(((c, z), q))) in todo for q in row.items())
                row[c] = max(range(len(doms[keys[c]])), key=lambda z: (gain(z), -z))
        todo -= {tuple(sorted(((a, row[a]), (b, row[b])))) for a, b in itertools.combinations(range(len(keys)), 2)}
        rows.append({k: doms[k][row[i]] for i, k in enumerate(keys)})
    return rows


# functions and arguments of the libraries that accept null
NULL_FCT = {"builtins." + k for k in ("print", "str", "repr", "isinstance", "type", "bool", "format", "dict", "any", "all", "id", "hash")}
NULL_ARG = {("unary_union", "grid_size"), ("difference", "grid_size"), ("union", "grid_size"), ("union_all", "grid_size"), ("add_mesh", "clim"), ("add_mesh_clip_plane", "clim"), ("add_text", 0), ("add_text", "text"),
            ("Plotter", "window_size"), ("BackgroundPlotter", "window_size"), ("parallel_config", "inner_max_num_threads"), ("parallel_backend", "inner_max_num_threads"),
            ("byte_align", "n"), ("solve", "accel"), ("fftn", "workers"), ("ifftn", "workers")}

MODES = ("qt", "nb", "save", "debug")


def jobs(thorough):
    out = [("mesher", None, ())]
    out += [(x, m, ()) for x in ("viewer", "plotter") for m in MODES]
    sel = selectors(sc.load(FILES["tolerance"]))
    rows = cover(sel)
    for r in rows:
        out.append(("solver", "typed", tuple((("tolerance", k), v) for k, v in r.items())))
    out.append(("solver", "any", tuple((("tolerance", k), v) for k, v in rows[0].items())))
    if thorough:
        out.append(("solver", "typed", ()))
    return out


# the schemas of the options are shared, the viewer draws no color bar
EXEMPT = {("viewer", (sc.ANY, "data_options", "plot_theme", k)) for k in ("colorbar_font", "colorbar_size", "colorbar_plot")}


def scalar(node):
    """Value or array of values."""
    if "properties" in node or isinstance(node.get("additionalProperties"), dict) or types_of(node) & {"object"}:
        return False
    return scalar(node["items"]) if isinstance(node.get("items"), dict) else True


def types_of(node):
    return sc.types(node) or set()


def options(schema):
    """Entries of a schema that hold values."""
    out = []
    for p, ns in sc.every_path(schema).items():
        if p and all(scalar(n) for n in ns) and not any(p[:i] in out for i in range(1, len(p))):
            out.append(p)
    return out


def support(chk):
    chk.floor("option_reads", 200)
    chk.floor("rejections", 60)
    chk.floor("options", 150)
    js = jobs(chk.thorough)
    used = parallel(chk, _support, js)
    _described(chk)
    for stage, (_, names) in STAGES.items():
        sel = [(j, u) for j, u in zip(js, used) if j[0] == stage]
        got = set().union(*(u for _, u in sel if u is not None))
        for n in names:
            for p in options(sc.load(FILES[n])):
                chk.count("options")
                if (n, p) in EXEMPT:
                    continue
                ok = (n, p) in got or any(m == n and len(q) == len(p) and all(x in (sc.ANY, y) for x, y in zip(p, q)) for m, q in got) or (None if any(u is None for _, u in sel) else False)
                chk.ob(ok, f"the option {n}: {text(p)} is used", f"pypeec/data/{FILES[n]}", "the value never reaches a result, a condition, or a library call")


def _described(chk):
    """Every entry of an object is required and has a type."""
    for n, f in FILES.items():
        seen = set()
        for p, ns in sc.every_path(sc.load(f)).items():
            for x in ns:
                if "properties" not in x and "required" not in x:
                    continue
                for k in x.get("required", []):
                    if (p, k) in seen:
                        continue
                    ok = k in x.get("properties", {})
                    chk.ob(ok, f"the entry {n}: {text(p + (k,))} is validated", f"pypeec/data/{f}", "a required entry has no description: any value is accepted")
                    seen.add((p, k))


TYPED = {"material_def": typed_materials(), "source_def": typed_sources()}


def terms(d):
    if isinstance(d, T):
        yield d
    elif isinstance(d, dict):
        for x in d.values():
            yield from terms(x)
    elif isinstance(d, (tuple, list)):
        for x in d:
            yield from terms(x)


def _support(chk, job):
    stage, kind, fixed = job
    lab = stage + (f" {kind}" if kind in MODES else "") if not fixed else stage + " " + ",".join(str(v) for _, v in fixed)
    chk.count("model_configurations")
    s = Stage(stage, TYPED if kind == "typed" else None, fixed, kind if kind in MODES else None)
    known = {}
    used = set()
    seen = set()

    def facts_of(e):
        out = []
        for f, p in e.facts:
            if f.cid not in known:
                known[f.cid] = s.freeze(f)
            out.append((known[f.cid], p))
        return out
    reads, nulls, miss = {}, {}, {}
    for e in s.eng.events:
        if e.kind == "getitem":
            base, key = s.freeze(e.data[0]), e.data[1]
            ls = s.loc.locs(base)
            for x in ls:
                if is_const(key) and isinstance(cval(key), str):
                    chk.count("option_reads")
                    reads.setdefault((x, cval(key)), []).append(e)
                    if (x[0], x[1] + (cval(key),)) in s.consts:
                        used.add((x[0], x[1] + (cval(key),)))
                elif key.op != "slice":
                    reads.setdefault((x, None), []).append(e)
            if base.op == "dict" and is_const(key):
                top = {cval(k) for k, _ in base.args[0] if is_const(k)}
                used |= {(n, (cval(key),)) for n in s.schemas if (n, (cval(key),)) in s.consts and top >= set(s.schemas[n].get("required", []))}
            if not ls and base.op == "dict" and not is_const(key):
                miss.setdefault((base.cid, key.cid), (base, s.freeze(key), e))
        elif e.kind not in ("enter", "leave"):
            for t in terms(e.data):
                used |= sc.uses(s.loc, s.freeze(t), seen)
        for f, _ in facts_of(e):
            used |= sc.uses(s.loc, f, seen)
    for t in [s.out] + s.returned:
        used |= sc.uses(s.loc, t, seen)
    # entries that are read are guaranteed by the validation
    for (x, k), es in reads.items():
        bad = None
        for e in es:
            facts = facts_of(e)
            ns = s.nodes(x, facts)
            if k is not None:
                open_ = [n for n in ns if "properties" not in n]
                if ns and not open_ and not all(k in n.get("required", []) for n in ns):
                    bad = bad or e
            if any("null" in types_of(n) for n in ns) and s.feasible_null(x, facts):
                nulls.setdefault(x, e)
        if k is not None:
            chk.ob(bad is None, f"the entry {x[0]}: {text(x[1] + (k,))} is present when it is read ({lab})", (bad or es[0]).where(), "the entry is not required by the schema (for this type of object): a valid configuration fails with a missing key")
    for x, e in nulls.items():
        chk.bad(f"the entry {x[0]}: {text(x[1])} can be null ({lab})", e.where(), "an element of the entry is read although the validation accepts null")
    # dispatch through dictionaries
    for base, key, e in miss.values():
        keys = [cval(k) for k, _ in base.args[0] if is_const(k)]
        if len(keys) != len(base.args[0]):
            continue
        for x in s.loc.locs(key):
            d = s.leaf(x)
            if d is None or OTHER in d:
                continue
            good = [a[x] for a in (s.assignments(facts_of(e), [x]) or [])]
            lost = [v for v in d if v in good and v not in keys]
            chk.ob(not lost, f"the values of {x[0]}: {text(x[1])} are supported ({lab})", e.where(), f"accepted by the validation, but unknown: {lost}")
    # errors
    sites = {}
    for e in s.eng.events:
        if e.kind in ("raise", "noreturn"):
            sites.setdefault(e.where(), []).append(e)
    for w, es in sites.items():
        chk.count("rejections", len(es))
        bad, und = None, None
        done = set()
        for e in es:
            facts = facts_of(e)
            key = frozenset((f.cid, p) for f, p in facts)
            if key in done:
                continue
            done.add(key)
            r = s.rejects(facts)
            if r is None:
                und = und or e
            elif r:
                bad = bad or (e, r)
        if bad is not None:
            chk.bad(f"valid options are not rejected ({lab})", w, f"raised for a configuration that the validation accepts: {bad[1]}")
        elif und is not None:
            chk.undecided(f"valid options are not rejected ({lab})", w, "too many options in the path condition")
        else:
            chk.ok(f"valid options are not rejected ({lab})", w)
    s.nullable(chk, lab, facts_of)
    return used
