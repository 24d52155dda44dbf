"""Properties of the control and data flow of the solver (sweeps, workers, inputs)."""

import itertools

from sa.model import dget
from sa.repo import AnalysisBroken
from sa.report import parallel
from sa.scenario import to_term, tolerance, typed_voxel, typed_materials, typed_sources
from sa.engine import Engine
from sa.term import walk, sym, is_const, cval, children
from checks.solver import repo
from checks.converge import site, _n

ITER = (".gmres", ".gcrotmk")
TAGS = ("sw_c", "sw_a", "sw_d", "sw_b")
KINDS = ("freq", "material_val", "source_val")


def run_solver(problem_sweep, vox=None, **kw):
    eng = Engine(repo())
    eng.strip_copy = True
    st = eng.state.copy()
    prob = {"material_def": typed_materials(), "source_def": typed_sources(), "sweep_solver": problem_sweep}
    kw.setdefault("coupling", "direct")
    args = [to_term(eng, st, x) for x in (vox or typed_voxel(), prob, tolerance(**kw))]
    return eng, eng.run("pypeec.run.solver", "run", args, state=st)


# ---------------------------------------------------------------- sweeps

def forests(n):
    """All the dependency forests of n sweeps, in every declaration order."""
    tags = TAGS[:n]
    for par in itertools.product((None,) + tags, repeat=n):
        tree = dict(zip(tags, par))
        if all(anc(tree, t) is not None for t in tags):
            yield tree


def anc(tree, t):
    """Sweeps on the path to the root (None: circular)."""
    out = []
    while tree[t] is not None:
        t = tree[t]
        if t in out or t not in tree:
            return None
        out.append(t)
    return out


def sweep_def(tree):
    return {t: {"init": p, "param": {k: sym(f"{k}_{t}") for k in KINDS}} for t, p in tree.items()}


class Calls:
    """Iterative solver calls of a run: the sweep whose operators they use."""

    def __init__(self, eng, res, out):
        self.eng, self.st = eng, res.state
        self.sig, self.ops = {}, {}
        for x in walk(out):
            if (_n(x) or "").endswith(ITER):
                ops = self.operators(x)
                self.ops[x.cid] = ops
                own = owners(y for o in ops for y in walk(o))
                tags = own["freq"] | own["material_val"]
                self.sig[x.cid] = next(iter(tags)) if len(tags) == 1 else None

    def operators(self, x):
        out = []
        for o in (x.args[1][0], dict(x.args[2]).get("M")):
            f = None
            if o is not None and o.op == "call":
                f = dict(o.args[2]).get("matvec") or (o.args[1][1] if len(o.args[1]) > 1 else None)
            if f is not None and f.op == "func":
                r, st = self.eng.apply(f, [sym("X")], {}, self.st.copy(), None)
                out.append(self.eng.freeze(r, st))
        return out

    def below(self, t):
        """Iterative solver calls in a value."""
        return [x for x in walk(t) if x.cid in self.sig]

    def own(self, t, tag):
        """Nodes of the result of a sweep, without the solutions of other sweeps and the initial guesses."""
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.cid in seen:
                continue
            seen.add(x.cid)
            if x.cid in self.sig:
                if self.sig[x.cid] == tag:
                    stack += self.ops[x.cid] + list(x.args[1][1:])
                continue
            yield x
            stack += list(children(x))


def owners(nodes):
    out = {k: set() for k in KINDS}
    for x in nodes:
        if x.op == "sym":
            for k in KINDS:
                if x.args[0].startswith(k + "_sw_"):
                    out[k].add(x.args[0][len(k) + 1:])
    return out


def label(tree, kw):
    return ",".join(f"{t[3:]}<-{p[3:] if p else 'none'}" for t, p in tree.items()) + "," + ",".join(str(x) for x in kw.values())


def sweeps(chk):
    chk.floor("model_configurations", 2)
    n = 4 if chk.thorough else 3
    jobs = [("good", t, dict(n_jobs=j)) for k in range(1, n + 1) for t in forests(k) for j in (0, 2)]
    jobs += [("good", t, dict(n_jobs=j, coupling="segregated")) for t in ({"sw_a": "sw_b", "sw_b": None}, {"sw_a": None, "sw_b": "sw_a", "sw_c": "sw_b"}) for j in (0, 2)]
    bad = []
    for k in range(1, n):
        for par in itertools.product((None, "sw_x") + TAGS[:k], repeat=k):
            tree = dict(zip(TAGS[:k], par))
            if any(anc2(tree, t) for t in tree):
                bad.append(tree)
    jobs += [("bad", t, dict(n_jobs=j)) for t in bad for j in (0, 2)]
    parallel(chk, _sweep_job, [jobs[i::32] for i in range(32)])


def anc2(tree, t):
    """The sweep cannot be reached (unknown or circular dependency)."""
    seen = set()
    while t is not None:
        if t in seen or t not in tree:
            return True
        seen.add(t)
        t = tree[t]
    return False


def _sweep_job(chk, jobs):
    for kind, tree, kw in jobs:
        (_sweep_good if kind == "good" else _sweep_bad)(chk, tree, kw)
        chk.count("model_configurations")


class Guards:
    """Conditions that hold on the paths on which no error was raised so far."""

    def __init__(self, eng):
        self.sets, self.last, self.ors, self.ands = [], set(), set(), set()
        for e in eng.events:
            if e.kind in ("raise", "noreturn") and e.facts:
                f, p = e.facts[-1]
                self.sets.append(({(f.cid, p) for f, p in e.facts}, (f.cid, p)))
                self.last.add((f.cid, not p))
                if f.op == "or" and p:
                    self.ors |= {x.cid for x in f.args[0]}
                if f.op == "and" and not p:
                    self.ands |= {x.cid for x in f.args[0]}

    def passed(self, f, p):
        if f.op in ("inloop", "inv") or (f.cid, p) in self.last or (not p and f.cid in self.ors) or (p and f.cid in self.ands):
            return True
        return f.op == "and" and not p and any(all((x.cid, True) in s for x in f.args[0]) and any(last == (x.cid, True) for x in f.args[0]) for s, last in self.sets)

    def definite(self, ev):
        """The event is reached whatever the data: only guards that were passed precede it."""
        return all(self.passed(f, p) for f, p in ev.facts)


def _sweep_bad(chk, tree, kw):
    lab = label(tree, kw)
    eng, res = run_solver(sweep_def(tree), **kw)
    g = Guards(eng)
    dead = [e for e in eng.events if e.kind in ("raise", "noreturn") and g.definite(e)]
    calc = [e for e in eng.events if e.kind == "call" and (_n(e.data[0]) or "").endswith(ITER)]
    name = f"dependencies that cannot be satisfied are rejected before the computation ({lab})"
    if not dead:
        chk.bad(name, "pypeec/lib_solver/sweep_joblib.py", f"dependencies {tree} lead to no error on any path")
    else:
        first = min(e.idx for e in dead)
        early = [e for e in calc if e.idx < first]
        chk.ob(not early, name, dead[0].where(), f"a sweep is solved ({early[0].where() if early else ''}) before the dependencies are rejected")


def _sweep_good(chk, tree, kw):
    lab = label(tree, kw)
    eng, res = run_solver(sweep_def(tree), **kw)
    out = res.frozen()
    where = "pypeec/lib_solver/sweep_joblib.py"
    for e in eng.events:
        if e.kind == "call" and _n(e.data[0]) == "joblib.Parallel":
            d = dict(e.data[0].args[2]) if e.data[0].args[2] else {}
            d.update({k: v for k, v in e.data[2].items()})
            r = d.get("return_as")
            chk.ob(r is None or (is_const(r) and cval(r) in ("list", "generator")), f"results are returned in the order of the sweeps ({lab})", e.where(), f"return_as: {r}")
    data = dget(out, "data_sweep")
    if data is None or data.op != "dict" or any(not is_const(k) for k, _ in data.args[0]):
        chk.undecided(f"each sweep has a result ({lab})", where, "results not resolved")
        return
    got = [cval(k) for k, _ in data.args[0]]
    chk.ob(sorted(got, key=str) == sorted(tree), f"each sweep has exactly one result ({lab})", where, f"sweeps {sorted(tree)}, results {sorted(got, key=str)}")
    c = Calls(eng, res, out)
    seg = kw.get("coupling") == "segregated"
    for t in tree:
        o = dget(data, t)
        if o is None:
            continue
        up = {t} | set(anc(tree, t))
        below = {c.sig[x.cid] for x in c.below(o)}
        name = f"sweep {t} is solved with its own parameters, starting from the solution of {tree[t]} ({lab})"
        mixed = None in below
        chk.ob(None if mixed else below == up, name, where,
               f"sweeps whose linear systems are in the result: {sorted(str(x) for x in below)}, expected: {sorted(up)}")
        own = owners(c.own(o, t))
        for k in KINDS:
            chk.ob(t in own[k], f"result of sweep {t} uses its own {k} ({lab})", where, f"{k} used: {sorted(own[k])}")
            if not seg:
                chk.ob(own[k] <= {t}, f"result of sweep {t} uses no {k} of another sweep ({lab})", where, f"{k} used: {sorted(own[k])}")
        f = dget(o, "freq")
        chk.ob(f is not None and f.op == "sym" and f.args[0] == "freq_" + t, f"frequency stored with sweep {t} ({lab})", where, str(f))
        mine = [x for x in c.below(o) if c.sig[x.cid] == t]
        for x in mine:
            x0 = dict(x.args[2]).get("x0")
            got = {c.sig[y.cid] for y in c.below(x0)} - ({t} if seg else set()) if x0 is not None else set()
            chk.ob(None if None in got else got == up - {t}, f"initial guess of sweep {t} is the solution of {tree[t]} ({lab})", site(x),
                   f"solutions in the initial guess: {sorted(got)}, expected: {sorted(up - {t})}")


# ---------------------------------------------------------------- process state

NONDET = ("random.", "numpy.random.", "secrets.", "uuid.", "time.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.urandom",
          "builtins.id", "builtins.hash", "builtins.input", "os.listdir", "os.scandir", "glob.", "tempfile.", "scilogger.get_timestamp",
          "scilogger.get_duration", "cupy.random.", "scipy.stats.", "platform.", "socket.", "psutil.")
STAMP = ("date", "duration", "seconds")


def nondet(t):
    """Calls whose value is not determined by their arguments."""
    for x in walk(t):
        n = _n(x) or (x.args[0] if x.op == "ext" else None)
        if isinstance(n, str) and n.startswith(NONDET):
            yield x, n


def unset(t):
    """Arrays without values (numpy.empty) which are operands: no value was assigned."""
    def raw(x):
        if _n(x) not in ("numpy.empty", "numpy.empty_like") or not x.args[1]:
            return False
        n = x.args[1][0]
        sizes = n.args[0] if n.op in ("tuple", "list") and n.args and isinstance(n.args[0], tuple) else (n,)
        return not any(is_const(k) and cval(k) == 0 for k in sizes)

    for x in walk(t):
        if x.op in ("bin", "un"):
            ops = x.args[1:]
        elif x.op == "call" and _n(x) in ("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.append", "numpy.sum", "numpy.abs", "numpy.real", "numpy.conj", "numpy.dot"):
            ops = [y for a in x.args[1] for y in (a.args[0] if a.op in ("tuple", "list") and a.args and isinstance(a.args[0], tuple) else (a,))]
        else:
            continue
        for y in ops:
            todo = [y]
            while todo:
                z = todo.pop()
                if not hasattr(z, "op"):
                    continue
                if z.op == "phi":
                    todo += z.args[1:]
                elif raw(z):
                    yield z, "an array without assigned values"


def stale_in(t):
    """(certain, possible) uses of a process state which was not set by this run.

    A state that is compared with a current option before it is kept is a cache: not decided here.
    """
    bad, maybe = set(), set()

    def is_stale(x):
        return x.op == "sym" and x.args[0].startswith("stale")

    def cached(c):
        return any(y.op == "cmp" and y.args[0] in ("==", "!=", "is", "is not") and any(
            is_stale(a) and b.op != "const" and not is_stale(b) for a, b in ((y.args[1], y.args[2]), (y.args[2], y.args[1]))) for y in walk(c))

    stack, seen = [(t, False)], set()
    while stack:
        x, inner = stack.pop()
        if (x.cid, inner) in seen:
            continue
        seen.add((x.cid, inner))
        if is_stale(x):
            (maybe if inner else bad).add(x.args[0])
        if x.op == "phi" and x.args[0].op != "trybody" and not inner and cached(x.args[0]):
            stack += [(y, True) for y in children(x)]
        else:
            stack += [(y, inner) for y in children(x)]
    return sorted(bad), sorted(maybe - bad)


STATE_Q = [dict(n_jobs=j, fft=f, fact=m, mult_type=t, split=s) for j in (0, 2) for f, m, t, s in (
    ("SciPy", "SuperLU", "fft", True), ("FFTW", "PyAMG", "fft", False), ("NumPy", "PARDISO", "direct", False), ("CuPy", "SuperLU", "fft", True), ("MKL", "PARDISO", "fft", False))]
STATE_T = [dict(n_jobs=j, fft=f, fact=m, mult_type=t, split=s) for j in (0, 2) for f in ("SciPy", "FFTW", "NumPy", "CuPy", "MKL")
           for m in ("SuperLU", "PyAMG", "PARDISO") for t in ("fft", "direct") for s in (True, False)]


def state(chk):
    chk.floor("model_configurations", 2)
    parallel(chk, _state, STATE_T if chk.thorough else STATE_Q)


def _module_refs(eng, st):
    """Containers that exist since the import of the modules (with the name that holds them)."""
    out = {}
    for mod in eng.repo.modules:
        for k, v in st.envs.get(mod, {}).items():
            if v.op == "ref":
                out[v.args[0]] = f"{mod}.{k}"
            elif v.op == "func":
                fv = v.extra
                for d in list(getattr(fv, "defaults", None) or []) + list((getattr(fv, "kw_defaults", None) or {}).values()):
                    if isinstance(d, type(v)) and d.op == "ref":
                        out[d.args[0]] = f"default argument of {fv.qual}"
    return out


def _state(chk, kw):
    lab = ",".join(f"{k}={v}" for k, v in kw.items())
    chk.count("model_configurations")
    eng = Engine(repo())
    eng.strip_copy = True
    eng.track_state = True
    st = eng.state.copy()
    refs = _module_refs(eng, st)
    before = {i: st.heap[i] for i in refs}
    eng.make_stale("stale", st)
    prob = {"material_def": typed_materials(), "source_def": typed_sources(), "sweep_solver": sweep_def({"sw_c": None, "sw_a": "sw_c"})}
    args = [to_term(eng, st, x) for x in (typed_voxel(), prob, tolerance(coupling="direct", **kw))]
    res = eng.run("pypeec.run.solver", "run", args, state=st)
    out = res.frozen()
    dyn = eng.dynamic_globals()
    chk.count("process_state_variables", len(dyn))
    # values of the process state in the main process and in the workers
    sets, region, worker = {}, 0, []
    final = {}
    for e in eng.events:
        if e.kind == "worker":
            if e.data[0] == "enter":
                region += 1
                worker.append({})
            else:
                region -= 1
        elif e.kind == "global":
            mod, name, v = e.data
            f = eng.freeze(v, res.state)
            if region:
                worker[-1][(mod, name)] = (v, f, e)
            else:
                final[(mod, name)] = (v, f, e)
    jobs = kw["n_jobs"]
    chk.ob(bool(worker) == bool(jobs), f"sweeps are executed by the configured number of jobs ({lab})", "pypeec/lib_solver/sweep_joblib.py",
           f"{len(worker)} calls of workers for n_jobs = {jobs}")
    # linear operators of the sweeps, executed by the process of the sweep
    stx = res.state.copy()
    if worker:
        eng.make_stale("stale-worker", stx)
        for (mod, name), (v, f, e) in worker[-1].items():
            stx.envs[mod][name] = v
    res.state = stx
    c = Calls(eng, res, out)
    vals = [("result", out)] + [("system operator or preconditioner", o) for ops in c.ops.values() for o in ops]
    chk.count("operators", len(vals) - 1)
    for nm, t in vals:
        bad, maybe = stale_in(t)
        name = f"process state is set from the current options before it is used: {nm} ({lab})"
        if bad:
            chk.bad(name, site(t), "state of a previous run or of an unconfigured worker reaches the value: " + ", ".join(bad))
        else:
            chk.ob(None if maybe else True, name, site(t), "kept state: " + ", ".join(maybe))
    for w in worker:
        for k, (v, f, e) in w.items():
            m = final.get(k)
            if m is None or f.op == "func" or m[1].op == "func":
                continue
            chk.ob(True if f.cid == m[1].cid else (False if is_const(f) and is_const(m[1]) else None), f"worker uses the options of the main process: {k[1]} ({lab})", e.where(), f"worker: {f}, main process: {m[1]}")
    # containers of the modules
    for i, nm in refs.items():
        h0, h1 = before[i], res.state.heap.get(i)
        same = h1 is h0 or (h1 is not None and len(h0.items) == len(h1.items) and not h1.unknown and str(h0.items) == str(h1.items) and str(h0.summ) == str(h1.summ))
        if same:
            chk.ok(f"module state is not changed by a run: {nm} ({lab})")
            continue
        ev = [e for e in eng.events if e.kind == "setitem" and e.data[0].op == "ref" and e.data[0].args[0] == i]
        ok = bool(ev) and all(_deps(eng.freeze(e.data[2], res.state)) <= _deps(eng.freeze(e.data[1], res.state)) for e in ev)
        chk.ob(None if ok else False, f"state kept between runs covers all its inputs: {nm} ({lab})", ev[0].where() if ev else None,
               "stored value depends on inputs that are not in the key: " + (", ".join(sorted(_deps(eng.freeze(ev[0].data[2], res.state)) - _deps(eng.freeze(ev[0].data[1], res.state))))[:300] if ev else "no key"))
    # nothing but the inputs
    for k in ("status", "data_init", "data_sweep"):
        t = dget(out, k)
        nd = list(nondet(t)) + list(unset(t)) if t is not None else []
        chk.ob(not nd, f"{k} is determined by the inputs ({lab})", site(nd[0][0]) if nd else None, "depends on " + ", ".join(n for _, n in nd))
    for t in [o for ops in c.ops.values() for o in ops]:
        nd = list(nondet(t)) + list(unset(t))
        chk.ob(not nd, f"linear operators are determined by the inputs ({lab})", site(nd[0][0]) if nd else None, "depends on " + ", ".join(n for _, n in nd))


def _deps(t):
    return {x.args[0] for x in walk(t) if x.op == "sym"}


# ---------------------------------------------------------------- inputs are not modified

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "fill", "resize", "put", "itemset",
            "partition", "byteswap", "discard", "add", "setflags", "eliminate_zeros", "sum_duplicates", "sort_indices", "setdiag", "translate", "scale", "rotate"}
VIEWS = ("numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.swapaxes", "numpy.moveaxis", "numpy.asanyarray")
VIEWM = {"reshape", "ravel", "transpose", "view", "squeeze", "swapaxes"}
INTO = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "random.shuffle": 0, "numpy.random.shuffle": 0}
ARRAY_LEAF = {"n", "d", "c", "s", "pts_cloud", "domain_def", "graph_def", "var", "res", "reference"}


def alias_roots(t, path=(), depth=0, seen=None, trail=None):
    """Root objects of which t is a part or a view: [(root, keys from the part to the root)]."""
    seen = set() if seen is None else seen
    path = list(path)
    while depth < 80:
        depth += 1
        if trail is not None:
            trail.append((t, list(path)))
        if t.op == "phi":
            if t.cid in seen:
                return []
            seen.add(t.cid)
            return [r for x in t.args[1:] for r in alias_roots(x, path, depth, seen, trail)]
        if t.op == "lv" and len(t.args) > 1 and hasattr(t.args[1], "op"):
            # first iteration of the loop
            t = t.args[1]
            continue
        if t.op == "item" and t.args[0].op == "call" and t.args[0].args[0].op == "ext" and t.args[0].args[0].args[0] == "copy.copy":
            # member of a shallow copy
            path.append(cval(t.args[1]) if is_const(t.args[1]) else t.args[1].op)
            t = t.args[0].args[1][0]
        elif t.op == "item" and (is_const(t.args[1]) or t.args[1].op in ("slice", "elem", "key") or
                                 (t.args[1].op == "tuple" and all(x.op in ("const", "slice") for x in t.args[1].args[0]))):
            path.append(cval(t.args[1]) if is_const(t.args[1]) else t.args[1].op)
            t = t.args[0]
        elif t.op == "attr" and t.args[1] in ("T", "real", "imag", "flat", "data"):
            t = t.args[0]
        elif t.op in ("setitem", "setattr") or (t.sub is not None and t.op == "bin"):
            t = t.sub if t.sub is not None else t.args[0]
        elif t.op == "call" and _n(t) in VIEWS and t.args[1]:
            t = t.args[1][0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in VIEWM:
            t = t.args[0].args[0]
        elif t.op == "elem":
            path.append("elem")
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("values", "items", "keys"):
            path.append(t.args[0].args[1])
            t = t.args[0].args[0]
        else:
            break
    return [(t, path)]


def mutations(eng):
    """(event, modified object, description, sure) of all the in-place operations."""
    for e in eng.events:
        if e.kind == "setitem":
            yield e, e.data[0], "item assignment", True
        elif e.kind == "delitem":
            yield e, e.data[0], "item deletion", True
        elif e.kind == "setattr" and e.data[0].op not in ("ref", "mod"):
            yield e, e.data[0], "attribute assignment", True
        elif e.kind == "augassign":
            yield e, e.data[0], "augmented assignment", None
        elif e.kind == "call":
            t, args, kw = e.data
            n = _n(t)
            if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in MUTATORS:
                yield e, t.args[0].args[0], f"call of {t.args[0].args[1]}()", True
            if "out" in kw and kw["out"].op != "const":
                for o in (kw["out"].args[0] if kw["out"].op == "tuple" else (kw["out"],)):
                    yield e, o, "output argument", True
            if n in INTO and len(args) > INTO[n]:
                yield e, args[INTO[n]], f"call of {n}", True
            for k in ("overwrite_x", "overwrite_input", "overwrite_a", "overwrite_b"):
                if k in kw and not (is_const(kw[k]) and not cval(kw[k])) and args:
                    yield e, args[0], f"call of {n} with {k}", True if is_const(kw[k]) else None


def _entry_args(mod, qual):
    import ast
    m = repo().module(mod)
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == qual:
            return [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
    raise AnalysisBroken(f"entry point not found: {mod}.{qual}")


def public_functions(prefix):
    """Public functions of the modules with a prefix."""
    import ast
    for name, m in sorted(repo().modules.items()):
        if name.startswith(prefix):
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
                    yield name, n.name


def purity(chk):
    chk.floor("entry_points", 4)
    chk.floor("in_place_operations", 20)
    jobs = [("entry", m, f) for m, f in (("pypeec.run.mesher", "run"), ("pypeec.run.viewer", "run"), ("pypeec.run.plotter", "run"))]
    jobs += [("entry", "pypeec.run.solver", "run")] if chk.thorough else []
    jobs += [("entry", m, f) for m, f in public_functions("pypeec.utils.") if not m.endswith(".gerber")]
    jobs += [("typed", dict(coupling="direct", mult_type=t, split=s), None) for t, s in (("fft", True), ("direct", False))]
    jobs += [("typed", dict(coupling="segregated", fft="SciPy"), None)]
    jobs += [("sweep", dict(coupling=c), None) for c in ("direct", "segregated")]
    parallel(chk, _purity, jobs)


def _purity(chk, job):
    kind, a, b = job
    {"entry": _pure_entry, "typed": _pure_typed, "sweep": _pure_sweep}[kind](chk, a, b)


def _pure_entry(chk, mod, fct):
    """All inputs are unknown objects: no in-place operation may reach them."""
    names = _entry_args(mod, fct)
    eng = Engine(repo())
    eng.run(mod, fct, [sym(x) for x in names])
    chk.count("entry_points")
    nm = f"{mod}.{fct}"
    hits = 0
    for e, obj, what, sure in mutations(eng):
        chk.count("in_place_operations")
        roots = [(r, p) for r, p in alias_roots(obj) if r.op == "sym" and r.args[0] in names]
        if not roots:
            continue
        root, path = roots[0]
        if sure is None:
            # augmented assignment: only arrays and lists are modified in place
            known = (not path and "utils" in mod and _array_like(eng, obj)) or (path and path[0] in ARRAY_LEAF) or "slice" in path
            sure = True if known else None
            if sure is None:
                continue
        hits += 1
        chk.ob(False if sure else None, f"inputs of {nm} are not modified", e.where(), f"{what} on the argument {root.args[0]} ({'.'.join(str(x) for x in reversed(path))})")
    if not hits:
        chk.ok(f"inputs of {nm} are not modified")


def _array_like(eng, obj):
    """The object is used as an array (item access or array method)."""
    for e in eng.events:
        if e.kind == "getitem" and e.data[0].cid == obj.cid:
            return True
    return False


def _heap_changes(h0, h1):
    for i, a in h0.items():
        b = h1.get(i)
        if b is None or a is b:
            continue
        ka = [tuple(_ident(y) for y in x) if isinstance(x, (list, tuple)) else _ident(x) for x in a.items]
        kb = [tuple(_ident(y) for y in x) if isinstance(x, (list, tuple)) else _ident(x) for x in b.items]
        if ka != kb or len(a.summ) != len(b.summ) or {k: v.cid for k, v in a.attrs.items()} != {k: v.cid for k, v in b.attrs.items()} or a.unknown != b.unknown:
            yield i, a, b


def _ident(x):
    return x.cid if hasattr(x, "cid") else str(x)


def _diff(a, b):
    if a.kind == "dict":
        ka = {_ident(k): (k, v) for k, v, _ in a.items}
        kb = {_ident(k): (k, v) for k, v, _ in b.items}
        ch = [str(kb[k][0]) for k in kb if k not in ka or ka[k][1].cid != kb[k][1].cid] + [f"{ka[k][0]} (removed)" for k in ka if k not in kb]
        return ", ".join(ch)[:300]
    return f"{len(a.items)} -> {len(b.items)} items"


def _pure_typed(chk, kw, _):
    """Known input containers: unchanged at the end, and no in-place operation on their arrays."""
    eng = Engine(repo())
    st = eng.state.copy()
    prob = {"material_def": typed_materials(), "source_def": typed_sources(), "sweep_solver": sweep_def({"sw_c": None, "sw_a": "sw_c"})}
    args = [to_term(eng, st, x) for x in (typed_voxel(), prob, tolerance(**kw))]
    h0 = dict(st.heap)
    arrays = {id(y) for h in h0.values() for x in h.items for y in (x if isinstance(x, (list, tuple)) else (x,)) if getattr(y, "op", None) == "sym"}
    res = eng.run("pypeec.run.solver", "run", args, state=st)
    lab = ",".join(str(x) for x in kw.values())
    chk.count("entry_points")
    own = _reach(args, h0)
    bad = [(i, a, b) for i, a, b in _heap_changes(h0, res.state.heap) if i in own]
    chk.ob(not bad, f"containers given to the solver are unchanged ({lab})", "pypeec/run/solver.py", "modified: " + "; ".join(_diff(a, b) for i, a, b in bad))
    for e, obj, what, sure in mutations(eng):
        for root, path in alias_roots(obj):
            if id(root) in arrays and root.op == "sym" and (root.args[0].startswith("idx_") or root.args[0] == "pts_cloud"):
                chk.bad(f"arrays given to the solver are not modified ({lab})", e.where(), f"{what} on {root.args[0]}")


def _reach(args, heap):
    seen, stack = set(), list(args)
    while stack:
        t = stack.pop()
        if not hasattr(t, "op"):
            continue
        if t.op == "ref" and t.args[0] not in seen:
            seen.add(t.args[0])
            h = heap[t.args[0]]
            for x in h.items:
                stack += list(x) if isinstance(x, (list, tuple)) else [x]
        elif t.op == "tuple":
            stack += list(t.args[0])
    return seen


def _pure_sweep(chk, kw, _):
    """A sweep may not modify what it shares with the other sweeps."""
    lab = ",".join(str(x) for x in kw.values())
    eng = Engine(repo())
    eng.track_state = True
    st = eng.state.copy()
    prob = {"material_def": typed_materials(), "source_def": typed_sources(), "sweep_solver": sweep_def({"sw_c": None, "sw_a": "sw_c"})}
    eng.run("pypeec.run.solver", "run", [to_term(eng, st, x) for x in (typed_voxel(), prob, tolerance(n_jobs=2, **kw))], state=st)
    chk.count("entry_points")
    cur, shared = None, set()
    n = 0
    where = "pypeec/run/solver.py"
    muts = {id(e): (e, obj, what, sure) for e, obj, what, sure in mutations(eng)}
    for e in eng.events:
        if e.kind == "worker" and e.data[0] == "enter":
            cur = e.data[1]
            n += 1
            shared = {}
            stack = [y for h in cur.values() for x in h.items for y in (x if isinstance(x, (list, tuple)) else (x,))]
            stack += list(e.data[2][1]) + [v for env in e_envs(eng, e.data[2][0], st) for v in env.values()]
            while stack:
                y = stack.pop()
                if hasattr(y, "op") and y.op not in ("const", "ref", "ext", "func", "mod") and id(y) not in shared:
                    shared[id(y)] = y
                    # every possible value of the object
                    stack += list(y.args[1:]) if y.op == "phi" else []
        elif e.kind == "worker":
            bad = list(_heap_changes(cur, e.data[1]))
            bad = [(i, a, b) for i, a, b in bad if a.kind != "obj"]
            chk.ob(not bad, f"containers shared by the sweeps are unchanged ({lab})", where, "modified by a sweep: " + "; ".join(_diff(a, b) for i, a, b in bad))
            cur = None
        elif cur is not None and id(e) in muts:
            _, obj, what, sure = muts[id(e)]
            chk.count("in_place_operations")
            trail, hit = [], set()
            alias_roots(obj, trail=trail)
            for root, path in trail:
                if id(root) not in shared or _scalar(root) or id(root) in hit:
                    continue
                hit.add(id(root))
                chk.ob(False if sure or _is_array(root) or "slice" in path else None, f"arrays shared by the sweeps are not modified ({lab})", e.where(),
                       f"{what} on {str(root)[:120]}")
    chk.ob(n > 0, f"sweeps are found ({lab})", where, "no worker call")


def e_envs(eng, fn, st):
    fv = getattr(fn, "extra", None)
    return [st.envs[x] for x in getattr(fv, "envs", []) if not isinstance(x, str) and x in st.envs]


def _scalar(t):
    return t.op == "sym" and not t.args[0].startswith(("idx_", "pts_", "domain", "graph"))


def _is_array(t):
    return t.op == "call" and (_n(t) or "").startswith(("numpy.", "scipy.", "cupy.")) or t.op in ("setitem", "bin")
