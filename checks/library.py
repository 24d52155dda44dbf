"""The numerical libraries are called with the options which are configured for them."""

import itertools

from sa.report import parallel
from sa.scenario import Solver
from sa.term import walk, is_const, cval, sym
from checks.solver import repo, model, BASE
from checks.entry import name_of, method_of

# positions of the arguments
SIGNATURE = {
    "scipy.fft.fftn": ("x", "s", "axes", "norm", "overwrite_x", "workers"),
    "scipy.fft.ifftn": ("x", "s", "axes", "norm", "overwrite_x", "workers"),
    "pyfftw.interfaces.numpy_fft.fftn": ("a", "s", "axes", "norm", "overwrite_input", "planner_effort", "threads"),
    "pyfftw.interfaces.numpy_fft.ifftn": ("a", "s", "axes", "norm", "overwrite_input", "planner_effort", "threads"),
    "pyfftw.byte_align": ("array", "n", "dtype"),
    "pyfftw.interfaces.cache.set_keepalive_time": ("keepalive_time",),
    "scipy.sparse.linalg.onenormest": ("A", "t", "itmax"),
    "scipy.sparse.linalg.LinearOperator": ("shape", "matvec", "rmatvec"),
    "pydiso.mkl_solver.set_mkl_threads": ("n",),
    "pydiso.mkl_solver.set_mkl_pardiso_threads": ("n",),
    "solve": ("b", "x0", "tol", "maxiter", "cycle", "accel"),
    "lu.solve": ("rhs", "trans"),
}
FFT = {"NumPy": "numpy.fft.", "SciPy": "scipy.fft.", "MKL": "mkl_fft.", "FFTW": "pyfftw.", "CuPy": "cupy.fft."}
FACT = {("SuperLU", "root"): "scipy.sparse.linalg.splu", ("PARDISO", "root"): "pydiso.mkl_solver.MKLPardisoSolver",
        ("PyAMG", "root"): "pyamg.aggregation.rootnode_solver", ("PyAMG", "adapt"): "pyamg.aggregation.adaptive_sa_solver"}
CONSTRUCTORS = set(FACT.values())
CORES = (4, 12)
SAMPLES = (-3, -2, -1, 0, 1, 2, 5)


class Bad(Exception):
    pass


def value(t, env):
    """Value of an expression of one option for a sample of the option and of the number of cores."""
    if is_const(t):
        return cval(t)
    if t.op == "sym" and t.args[0] in env:
        return env[t.args[0]]
    n = name_of(t)
    if n in ("os.cpu_count", "multiprocessing.cpu_count", "joblib.cpu_count", "psutil.cpu_count"):
        return env["cores"]
    if t.op == "phi":
        return value(t.args[1] if value(t.args[0], env) else t.args[2], env)
    if t.op == "not" or t.op == "un" and t.args[0] == "not":
        return not value(t.args[-1], env)
    if t.op == "un" and t.args[0] in ("-", "+"):
        v = value(t.args[1], env)
        return -v if t.args[0] == "-" else v
    if t.op in ("and", "or"):
        r = None
        for x in t.args[0]:
            r = value(x, env)
            if bool(r) != (t.op == "and"):
                return r
        return r
    if t.op == "cmp" and len(t.args) == 3:
        a, b = value(t.args[1], env), value(t.args[2], env)
        o = t.args[0]
        try:
            return {"is": lambda: a is b or a == b, "is not": lambda: not (a is b or a == b), "==": lambda: a == b, "!=": lambda: a != b,
                    "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[o]()
        except (KeyError, TypeError) as ex:
            raise Bad(str(t)[:100]) from ex
    if t.op == "bin" and len(t.args) == 3:
        a, b = value(t.args[1], env), value(t.args[2], env)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b}[t.args[0]]()
        except (KeyError, TypeError, ZeroDivisionError) as ex:
            raise Bad(str(t)[:100]) from ex
    if n in ("builtins.max", "builtins.min") and len(t.args[1]) > 1 and not t.args[2]:
        vs = [value(x, env) for x in t.args[1]]
        return max(vs) if n.endswith("max") else min(vs)
    if n in ("builtins.int", "builtins.abs") and len(t.args[1]) == 1:
        v = value(t.args[1][0], env)
        return int(v) if n.endswith("int") else abs(v)
    raise Bad(str(t)[:100])


def args(t, key=None):
    n = key or name_of(t)
    names = SIGNATURE.get(n, ())
    out = dict(t.args[2])
    out.update(zip(names, t.args[1]))
    return out


class Run:
    """Events of a run, with the linear operators applied to a vector."""

    def __init__(self, model=None, **kw):
        self.s = Solver(repo(), coupling=kw.pop("coupling", "direct"), **kw) if model is None else model.s
        self.eng = self.s.eng
        self.out = self.s.res.frozen()
        done, k = set(), 0
        while k < len(self.eng.events):
            e = self.eng.events[k]
            k += 1
            if e.kind != "call":
                continue
            t = e.data[0]
            if t.op != "call" or not (name_of(t) or "").endswith("LinearOperator"):
                continue
            for key in ("matvec", "rmatvec"):
                f = args(t, "scipy.sparse.linalg.LinearOperator").get(key)
                if f is not None and f.op == "func" and f.cid not in done:
                    done.add(f.cid)
                    self.apply(f)
        self.calls = [e for e in self.eng.events if e.kind == "call" and e.data[0].op == "call"]

    def apply(self, f):
        r, st = self.eng.apply(f, [sym("X")], {}, self.s.res.state.copy(), None)
        return self.eng.freeze(r, st)

    def named(self, *names):
        return [e for e in self.calls if (name_of(e.data[0]) or "") in names]

    def active(self, e, env):
        """The conditions on the options hold for the sample (other conditions are not considered)."""
        for f, p in e.facts:
            if not any(x.op == "sym" and x.args[0] in env for x in walk(f)):
                continue
            try:
                if bool(value(f, env)) != bool(p):
                    return False
            except Bad:
                if _only(f, env):
                    raise
        return True


def _only(f, env):
    return all(x.args[0] in env for x in walk(f) if x.op == "sym")


def library(chk):
    jobs = [("fft", (l, s)) for l in FFT for s in (False, True)]
    jobs += [("fact", k) for k in FACT]
    jobs += [("condition", c) for c in ("direct", "segregated")]
    jobs += [("jobs", n) for n in (3, -1)]
    parallel(chk, _job, jobs)
    chk.floor("library_calls", 20)


def _job(chk, job):
    kind, arg = job
    chk.count("model_configurations")
    {"fft": _fft, "fact": _fact, "condition": _condition, "jobs": _jobs}[kind](chk, arg)


def _threads(chk, run, name, events, key, opt, none=False):
    """Number of threads: n for n > 0, disabled for 0, all the cores but n for n < 0 (-1 for all the cores)."""
    if not events:
        chk.undecided(f"{name}: {opt}", "(no call)", "no such call")
        return
    for e in events:
        chk.count("library_calls")
        v = args(e.data[0]).get(key)
        if v is None:
            chk.bad(f"{name}: {opt} is given", e.where(), f"no argument {key}")
            continue
        names = {x.args[0] for x in walk(v) if x.op == "sym"}
        if names and opt not in names:
            chk.bad(f"{name}: number of threads from {opt}", e.where(), f"the number depends on {sorted(names)[:5]}")
            continue
        bad = None
        try:
            for w, c in itertools.product(SAMPLES, CORES):
                env = {opt: w, "cores": c}
                if not run.active(e, env):
                    bad = bad or (f"no call for {w}" if none else None)
                    continue
                got = value(v, env)
                want = (None, 1) if w == 0 else (w,) if w > 0 else (c + w + 1,)
                if none and w == 0:
                    want = (1,)
                if got not in want:
                    bad = bad or f"{got} for the option {w} and {c} cores, expected {want[0]}"
            if none:
                env = {opt: None, "cores": 4}
                if run.active(e, env):
                    bad = bad or "called for the option null"
        except Bad as ex:
            chk.undecided(f"{name}: {opt}", e.where(), f"expression not understood: {ex}")
            continue
        chk.ob(bad is None, f"{name}: number of threads from {opt}", e.where(), bad or "")


def _fft(chk, arg):
    lib, split = arg
    lab = f"{lib}, split={split}"
    run = Run(**dict(BASE, fft=lib, split=split, mult_type="fft", check=False))
    ffts = [e for e in run.calls if (name_of(e.data[0]) or "").split(".")[-1] in ("fftn", "ifftn", "fft", "ifft", "fft2", "ifft2", "rfftn", "irfftn")
            and not name_of(e.data[0]).startswith("pypeec.")]
    where = "pypeec/lib_matrix/fourier_transform.py"
    if not chk.ob(bool(ffts), f"FFT: the library is used ({lab})", where, "no transform found"):
        return
    for e in ffts:
        chk.count("library_calls")
        chk.ob(name_of(e.data[0]).startswith(FFT[lib]), f"FFT: the configured library is used ({lab})", e.where(), name_of(e.data[0]))
    if lib == "SciPy":
        _threads(chk, run, f"FFT ({lab})", ffts, "workers", "scipy_worker")
    if lib == "FFTW":
        _threads(chk, run, f"FFT ({lab})", ffts, "threads", "fftw_thread")
        for e in ffts:
            al = [x for x in walk(e.data[0].args[1][0]) if name_of(x) == "pyfftw.byte_align"] if e.data[0].args[1] else []
            top = e.data[0].args[1][0] if e.data[0].args[1] else args(e.data[0]).get("a")
            if name_of(top) == "pyfftw.byte_align":
                n = args(top).get("n")
                chk.ob(n is not None and n.cid == sym("fftw_byte_align").cid, f"FFT: alignment of the arrays ({lab})", e.where(), str(n)[:100])
            else:
                chk.ob(None if al else False, f"FFT: alignment of the arrays ({lab})", e.where(), "the array is not aligned")
        name = f"FFT: cache of the plans ({lab})"
        dis, ena = run.named("pyfftw.interfaces.cache.disable"), run.named("pyfftw.interfaces.cache.enable")
        keep = run.named("pyfftw.interfaces.cache.set_keepalive_time")
        try:
            on, off = {"fftw_timeout": 10.0}, {"fftw_timeout": None}
            chk.ob(any(run.active(e, on) for e in ena) and not any(run.active(e, on) for e in dis), f"{name}: enabled with a timeout", where, "not enabled")
            chk.ob(not any(run.active(e, off) for e in ena), f"{name}: disabled without timeout", where, "enabled")
            val = [args(e.data[0]).get("keepalive_time") for e in keep if run.active(e, on)]
            chk.ob(bool(val) and all(v is not None and v.cid == sym("fftw_timeout").cid for v in val), f"{name}: timeout", where, str(val)[:100])
        except Bad as ex:
            chk.undecided(name, where, str(ex))


def _fact(chk, arg):
    lib, amg = arg
    lab = f"{lib}, {amg}" if lib == "PyAMG" else lib
    run = Run(**dict(BASE, fact=lib, amg=amg, check=False, coupling="direct"))
    where = "pypeec/lib_matrix/matrix_factorization.py"
    got = [e for e in run.calls if (name_of(e.data[0]) or "") in CONSTRUCTORS or (name_of(e.data[0]) or "").startswith(("pydiso.mkl_solver.MKL", "pyamg.aggregation."))]
    if not chk.ob(bool(got), f"factorization: the library is used ({lab})", where, "no factorization found"):
        return
    for e in got:
        chk.count("library_calls")
        chk.ob(name_of(e.data[0]) == FACT[arg], f"factorization: the configured library and solver are used ({lab})", e.where(), name_of(e.data[0]))
    if lib == "PyAMG":
        sol = [e for e in run.calls if method_of(e.data[0]) == "solve" and any(name_of(x) in CONSTRUCTORS for x in walk(e.data[0].args[0]))]
        if not sol:
            chk.undecided(f"factorization: options of the solver ({lab})", where, "no solution found")
        for e in sol:
            a = args(e.data[0], "solve")
            for k, s in (("tol", "pyamg.tol"), ("accel", "pyamg.krylov")):
                v = a.get(k)
                chk.ob(v is not None and v.cid == sym(s).cid, f"factorization: {k} of the solver ({lab})", e.where(), str(v)[:100])
    if lib == "PARDISO":
        first = min(e.idx for e in got)
        for fct, opt in (("set_mkl_pardiso_threads", "thread_pardiso"), ("set_mkl_threads", "thread_mkl")):
            ev = run.named("pydiso.mkl_solver." + fct)
            if not chk.ob(bool(ev), f"factorization: {opt} is set ({lab})", where, f"{fct} is not called"):
                continue
            _threads(chk, run, f"factorization ({lab})", ev, "n", opt, none=True)
            chk.ob(min(e.idx for e in ev) < first, f"factorization: {opt} is set before the factorization ({lab})", ev[0].where(), "set afterwards")


def _condition(chk, coupling):
    m = model(**dict(BASE, check=True, coupling=coupling))
    run = Run(m)
    where = "pypeec/lib_matrix/matrix_condition.py"
    ests = run.named("scipy.sparse.linalg.onenormest")
    if not ests:
        chk.undecided("condition number", where, "no estimate of the norm")
        return
    for e in ests:
        chk.count("library_calls")
        a = args(e.data[0])
        for k, s in (("t", "t_accuracy"), ("itmax", "n_iter_max")):
            v = a.get(k)
            chk.ob(v is not None and v.cid == sym(s).cid, f"condition number: option {k} of the estimate of the norm", e.where(), str(v)[:100])
    # product of the norm of a matrix and of its inverse
    seen = set()
    for key, need, never in (("electric", "rho_re_me", "chi_re_mm"), ("magnetic", "chi_re_mm", "rho_re_me")):
        out = m.output("condition_status", "cond_" + key)
        prods = [t for t in walk(out) if t.op == "bin" and any(_norm(x) for x in t.args[1:])]
        if len(prods) != 1:
            chk.undecided(f"condition number ({key}): norm of the matrix times norm of its inverse", where, f"{len(prods)} products of norms")
            continue
        seen |= {x.cid for x in prods[0].args[1:] if _norm(x)}
        mat = _product(chk, run, prods[0], where, key)
        if mat is not None:
            names = {x.args[0] for x in walk(mat) if x.op == "sym"}
            chk.ob(need in names and never not in names, f"condition number ({key}): computed for the {key} matrix", where, f"the matrix depends on {sorted(names)}")
    left = {e.data[0].cid for e in ests} - seen
    if left:
        chk.undecided("condition number: norms", where, f"{len(left)} other norms")


def _norm(x):
    return name_of(x) == "scipy.sparse.linalg.onenormest"


def _product(chk, run, t, where, key):
    """Matrix whose condition number is estimated."""
    name = f"condition number ({key}): norm of the matrix times norm of its inverse"
    o, a, b = t.args
    if not (_norm(a) and _norm(b)):
        chk.undecided(name, where, str(t)[:100])
        return None
    w = next((f"{x.site[0]}:{x.site[1]} in {x.site[2]}()" for x in (t, a, b) if x.site is not None), where)
    if not chk.ob(o == "*", name, w, f"combined with {o}"):
        return None
    ops = [args(x)["A"] for x in (a, b)]
    inv = [x for x in ops if (name_of(x) or "").endswith("LinearOperator")]
    mat = [x for x in ops if x not in inv]
    if not chk.ob(len(inv) == 1, name, w, f"{len(inv)} inverse operators"):
        return None
    kw = args(inv[0], "scipy.sparse.linalg.LinearOperator")
    for key, modes in (("matvec", ("N",)), ("rmatvec", ("H",))):
        f = kw.get(key)
        if f is None or f.op != "func":
            chk.undecided(f"{name}: {key}", w, str(f)[:100])
            continue
        r = run.apply(f)
        if method_of(r) != "solve" or name_of(r.args[0].args[0]) != "scipy.sparse.linalg.splu":
            chk.undecided(f"{name}: {key}", w, str(r)[:100])
            continue
        m = r.args[0].args[0].args[1][0]
        chk.ob(m.cid == mat[0].cid, f"{name}: the inverse is the one of the same matrix", w, str(m)[:100])
        tr = args(r, "lu.solve").get("trans")
        tr = "N" if tr is None else cval(tr) if is_const(tr) else None
        chk.ob(None if tr is None else tr in modes, f"{name}: {'adjoint of the inverse' if key == 'rmatvec' else 'inverse'}", w, f"trans={tr}")
        x = args(r, "lu.solve").get("rhs")
        chk.ob(x is not None and x.cid == sym("X").cid, f"{name}: {key} is applied to the vector", w, str(x)[:100])
    return mat[0]


def _jobs(chk, n):
    run = Run(**dict(BASE, check=False, n_jobs=n))
    where = "pypeec/lib_solver/sweep_joblib.py"
    ev = run.named("joblib.parallel_config", "joblib.Parallel", "joblib.parallel_backend")
    if not chk.ob(bool(ev), f"sweeps: executed in parallel (n_jobs={n})", where, "joblib is not used"):
        return
    jobs = [(e, dict(e.data[0].args[2]).get("n_jobs")) for e in ev]
    jobs += [(e, e.data[0].args[1][0]) for e in ev if name_of(e.data[0]) == "joblib.Parallel" and e.data[0].args[1]]
    jobs = [(e, v) for e, v in jobs if v is not None]
    chk.ob(bool(jobs) and all(is_const(v) and cval(v) == n for _, v in jobs), f"sweeps: number of processes (n_jobs={n})", ev[0].where(), str([str(v)[:60] for _, v in jobs]))
    thr = [dict(e.data[0].args[2]).get("inner_max_num_threads") for e in ev]
    thr = [v for v in thr if v is not None]
    chk.ob(bool(thr) and all(v.cid == sym("n_threads").cid for v in thr), f"sweeps: number of threads of each process (n_jobs={n})", ev[0].where(), str([str(v)[:60] for v in thr]))
