"""Utility functions: impedance matrix, Fourier series, indices of the voxels."""

import itertools

from sa import nf
from sa.engine import Engine
from sa.plots import Unknown, Mismatch, NAN, fkey, real, cplx, num, vadd, vmul, vdiv, vre, vim, vsqrt, vabs, vconj, _is
from sa.report import parallel
from sa.scenario import to_term
from sa.term import is_const, cval, sym, const, walk, mk
from checks.entry import name_of, method_of
from checks.solver import repo


class ND:
    """Array of known shape with symbolic values."""

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def at(self, *k):
        i = 0
        for n, x in zip(self.shape, k):
            i = i * n + x
        return self.data[i]

    def key(self):
        return (self.shape, tuple(fkey(x) for x in self.data))


def index(shape, key):
    """Positions selected by a key: (shape, list of flat positions)."""
    key = list(key) if isinstance(key, tuple) else [key]
    if len(key) > len(shape):
        raise Mismatch("too many indices")
    axes, out = [], []
    lists = [k for k in key if isinstance(k, list)]
    if len(lists) > 1:
        raise Unknown("several lists of indices")
    for n, k in itertools.zip_longest(shape, key):
        if k is None or isinstance(k, slice):
            r = list(range(n))[k if isinstance(k, slice) else slice(None)]
            out.append(len(r))
        elif isinstance(k, list):
            r = [x + n if x < 0 else x for x in k]
            out.append(len(r))
        else:
            r = [k + n if k < 0 else k]
        if any(not 0 <= x < n for x in r):
            raise Mismatch("index out of range")
        axes.append(r)
    pos = []
    for c in itertools.product(*axes):
        i = 0
        for n, x in zip(shape, c):
            i = i * n + x
        pos.append(i)
    return tuple(out), pos


class Eval:
    def __init__(self, leaves):
        self.leaves, self.memo, self.systems = leaves, {}, []

    def ev(self, t):
        r = self.memo.get(t.cid)
        if r is None:
            try:
                if t.op == "sym":
                    r = self.leaves[t.args[0]] if t.args[0] in self.leaves else real(t.args[0])
                else:
                    m = getattr(self, "_t_" + t.op, None)
                    if m is None:
                        raise Unknown(str(t)[:80])
                    r = m(t)
            except (Unknown, Mismatch) as ex:
                r = ex
            self.memo[t.cid] = r
        if isinstance(r, Exception):
            raise r
        return r

    def _t_const(self, t):
        v = cval(t)
        if isinstance(v, float) and v != v:
            return NAN
        return v if v is None or isinstance(v, (str, bool)) else num(v)

    def _t_ext(self, t):
        n = t.args[0].split(".")[-1]
        if n == "nan":
            return NAN
        if n == "pi":
            return real("pi")
        return "ext:" + t.args[0]

    def _t_tuple(self, t):
        return [self.ev(x) for x in (t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args)]

    _t_list = _t_tuple

    def _t_phi(self, t):
        return self.ev(t.args[1] if self.cond(t.args[0]) else t.args[2])

    def cond(self, t):
        v = self.ev(t)
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        if isinstance(v, bool):
            return v
        raise Unknown("condition " + str(t)[:60])

    def _t_cmp(self, t):
        op, a, b = t.args[0], self.ev(t.args[1]), self.ev(t.args[2])
        if op in ("is", "is not", "==", "!=") and (a is None or b is None):
            return (a is b) == (op in ("is", "=="))
        if _is(a) and _is(b) and op in ("==", "!="):
            d = vadd(a, b, -1)
            return (d[0].is_zero() and d[1].is_zero()) == (op == "==")      # generic values
        if isinstance(a, list) and isinstance(b, list) and op in ("==", "!="):
            return ([fkey(x) for x in a] == [fkey(x) for x in b]) == (op == "==")
        if _is(a) and _is(b) and a[0].is_const() and b[0].is_const():
            x, y = a[0].cval()[0], b[0].cval()[0]
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        raise Unknown(str(t)[:80])

    def _t_un(self, t):
        a = self.ev(t.args[1])
        if t.args[0] == "-":
            return self.lift(lambda x: vmul(num(-1), x), a)
        if t.args[0] == "not" and isinstance(a, bool):
            return not a
        raise Unknown(t.args[0])

    def _t_not(self, t):
        return not self.cond(t.args[-1])

    def lift(self, f, *vs):
        vs = [self.nd(v) if isinstance(v, list) else v for v in vs]
        if any(not (isinstance(v, ND) or _is(v) or v is NAN) for v in vs):
            raise Unknown("operand")
        nds = [v for v in vs if isinstance(v, ND)]
        if not nds:
            return f(*vs)
        n = max(len(v.shape) for v in nds)
        shapes = [(1,) * (n - len(v.shape)) + v.shape for v in nds]
        shape = tuple(max(s) for s in zip(*shapes))
        if any(x not in (1, m) for s in shapes for x, m in zip(s, shape)):
            raise Mismatch("shapes of the operands")
        out = []
        for c in itertools.product(*[range(k) for k in shape]):
            arg = []
            for v in vs:
                if isinstance(v, ND):
                    s = (1,) * (n - len(v.shape)) + v.shape
                    k = [0 if m == 1 else x for x, m in zip(c, s)]
                    arg.append(v.at(*k[n - len(v.shape):]))
                else:
                    arg.append(v)
            out.append(f(*arg))
        return ND(shape, out)

    def _t_bin(self, t):
        op, a, b = t.args[0], self.ev(t.args[1]), self.ev(t.args[2])
        f = {"+": vadd, "-": lambda x, y: vadd(x, y, -1), "*": vmul, "/": vdiv}.get(op)
        if op == "**" and _is(b) and b[0].is_const():
            c = b[0].cval()[0]
            if c == 2:
                return self.lift(lambda x: vmul(x, x), a)
            if c * 2 == 1:
                return self.lift(vsqrt, a)
        if op == "@":
            return self.matmul(a, b)
        if f is None:
            raise Unknown(op)
        return self.lift(f, a, b)

    def matmul(self, a, b):
        if not isinstance(a, ND) or not isinstance(b, ND) or len(a.shape) != 2:
            raise Unknown("@")
        m = b.shape[1] if len(b.shape) == 2 else None
        out = []
        for i in range(a.shape[0]):
            for j in range(m or 1):
                s = num(0)
                for k in range(a.shape[1]):
                    s = vadd(s, vmul(a.at(i, k), b.at(k, j) if m else b.at(k)))
                out.append(s)
        return ND((a.shape[0], m) if m else (a.shape[0],), out)

    def key(self, t):
        if t.op in ("tuple", "list"):
            items = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
            ks = [self.key(x) for x in items]
            return tuple(ks) if t.op == "tuple" else [k for k in ks]
        if t.op == "slice":
            p = [None if x is None or is_const(x) and cval(x) is None else self.key(x) for x in t.args]
            return slice(*p)
        v = self.ev(t)
        if _is(v) and v[0].is_const():
            return int(v[0].cval()[0])
        if isinstance(v, list) and all(_is(x) and x[0].is_const() for x in v):
            return [int(x[0].cval()[0]) for x in v]
        if isinstance(v, ND) and len(v.shape) == 1 and all(x[0].is_const() for x in v.data):
            return [int(x[0].cval()[0]) for x in v.data]
        raise Unknown("index " + str(t)[:60])

    def _t_item(self, t):
        a = self.ev(t.args[0])
        k = self.key(t.args[1])
        if isinstance(a, list) and isinstance(k, (int, slice)):
            return a[k]
        if isinstance(a, list):
            a = self.nd(a)
        if isinstance(a, ND):
            s, p = index(a.shape, k)
            return ND(s, [a.data[i] for i in p]) if s else a.data[p[0]]
        raise Unknown("item")

    def _t_setitem(self, t):
        a, k, v = self.ev(t.args[0]), self.key(t.args[1]), self.ev(t.args[2])
        if isinstance(a, list):
            a = self.nd(a)
        if not isinstance(a, ND):
            raise Unknown("assignment")
        s, p = index(a.shape, k)
        data = list(a.data)
        if isinstance(v, ND):
            if v.shape != s:
                raise Mismatch("shape of the assigned values")
            for i, x in zip(p, v.data):
                data[i] = x
        elif _is(v) or v is NAN:
            for i in p:
                data[i] = v
        else:
            raise Unknown("assignment")
        return ND(a.shape, data)

    def _t_attr(self, t):
        a, k = self.ev(t.args[0]), t.args[1]
        if isinstance(a, list):
            a = self.nd(a)
        if isinstance(a, ND):
            if k == "shape":
                return [num(n) for n in a.shape]
            if k == "T":
                return self.transpose(a)
            if k in ("real", "imag"):
                return self.lift(vre if k == "real" else vim, a)
            if k == "size":
                return num(len(a.data))
        raise Unknown("." + str(k))

    def transpose(self, a):
        if len(a.shape) != 2:
            return a
        return ND(a.shape[::-1], [a.at(i, j) for j in range(a.shape[1]) for i in range(a.shape[0])])

    def _t_call(self, t):
        f, pos, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "ext":
            m = getattr(self, "_f_" + f.args[0].split(".")[-1], None)
            if m is not None:
                return m(pos, kw)
        if f.op == "attr" and f.args[1] in ("copy", "astype"):
            return self.ev(f.args[0])
        if f.op == "attr" and f.args[1] == "mean":
            return self._f_mean([f.args[0]], {})
        raise Unknown(str(t)[:80])

    def shape(self, t):
        v = self.ev(t)
        v = v if isinstance(v, list) else [v]
        if not all(_is(x) and x[0].is_const() for x in v):
            raise Unknown("shape")
        return tuple(int(x[0].cval()[0]) for x in v)

    def filled(self, s, v):
        n = 1
        for k in s:
            n *= k
        return ND(s, [v] * n)

    def _f_zeros(self, pos, kw):
        return self.filled(self.shape(pos[0] if pos else kw["shape"]), num(0))

    def _f_empty(self, pos, kw):
        return self.filled(self.shape(pos[0] if pos else kw["shape"]), real("(not set)"))

    def _f_ones(self, pos, kw):
        return self.filled(self.shape(pos[0]), num(1))

    def _f_full(self, pos, kw):
        return self.filled(self.shape(pos[0]), self.ev(pos[1]))

    def _f_zeros_like(self, pos, kw):
        return self.filled(self.ev(pos[0]).shape, num(0))

    def _f_full_like(self, pos, kw):
        return self.filled(self.ev(pos[0]).shape, self.ev(pos[1]))

    def _f_array(self, pos, kw):
        v = self.ev(pos[0])
        return self.nd(v)

    _f_asarray = _f_copy = _f_array

    def nd(self, v):
        if isinstance(v, ND) or _is(v):
            return v
        if isinstance(v, list):
            r = [self.nd(x) for x in v]
            if all(_is(x) for x in r):
                return ND((len(r),), r)
            if all(isinstance(x, ND) and x.shape == r[0].shape for x in r):
                return ND((len(r),) + r[0].shape, [y for x in r for y in x.data])
        raise Unknown("array")

    def _f_len(self, pos, kw):
        v = self.ev(pos[0])
        return num(v.shape[0] if isinstance(v, ND) else len(v))

    def _f_isinstance(self, pos, kw):
        if pos[0].op == "dict" and pos[1].op == "ext" and pos[1].args[0] == "builtins.dict":
            return True
        raise Unknown("isinstance")

    def _f_real(self, pos, kw):
        return self.lift(vre, self.ev(pos[0]))

    def _f_imag(self, pos, kw):
        return self.lift(vim, self.ev(pos[0]))

    def _f_abs(self, pos, kw):
        return self.lift(vabs, self.ev(pos[0]))

    def _f_conj(self, pos, kw):
        return self.lift(vconj, self.ev(pos[0]))

    def _f_sqrt(self, pos, kw):
        return self.lift(vsqrt, self.ev(pos[0]))

    def _f_mean(self, pos, kw):
        v = self.nd(self.ev(pos[0]))
        s = num(0)
        for x in v.data:
            s = vadd(s, x)
        return vdiv(s, num(len(v.data)))

    def _f_diag(self, pos, kw):
        v = self.ev(pos[0])
        if isinstance(v, ND) and len(v.shape) == 2:
            return ND((min(v.shape),), [v.at(i, i) for i in range(min(v.shape))])
        raise Unknown("diag")

    def _f_outer(self, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        return ND((len(a.data), len(b.data)), [vmul(x, y) for x in a.data for y in b.data])

    def _join(self, vs, axis):
        vs = [self.nd(v) for v in vs]
        if len(vs[0].shape) == 1:
            axis = 0
        if axis == 0:
            if any(v.shape[1:] != vs[0].shape[1:] for v in vs):
                raise Mismatch("shapes of the joined arrays")
            return ND((sum(v.shape[0] for v in vs),) + vs[0].shape[1:], [x for v in vs for x in v.data])
        return self.transpose(self._join([self.transpose(v) for v in vs], 0))

    def _f_concatenate(self, pos, kw):
        ax = kw.get("axis") or (pos[1] if len(pos) > 1 else const(0))
        return self._join(self.ev(pos[0]), 1 if cval(ax) in (1, -1) else 0)

    def _f_hstack(self, pos, kw):
        return self._join(self.ev(pos[0]), 1)

    def _f_vstack(self, pos, kw):
        vs = [self.nd(v) for v in self.ev(pos[0])]
        return self._join([v if len(v.shape) > 1 else ND((1,) + v.shape, v.data) for v in vs], 0)

    def _f_append(self, pos, kw):
        return self._join([self.ev(pos[0]), self.ev(pos[1])], 0)

    def _f_argsort(self, pos, kw):
        v = self.nd(self.ev(pos[0]))
        if len(v.shape) != 1 or kw or not all(x[0].is_const() for x in v.data):
            raise Unknown("argsort")
        k = [x[0].cval()[0] for x in v.data]
        return ND(v.shape, [num(i) for i in sorted(range(len(k)), key=k.__getitem__)])

    def real_values(self, t):
        v = self.ev(t)
        v = v.data if isinstance(v, ND) else v if isinstance(v, list) else [v]
        if not all(_is(x) and x[0].is_const() and x[1].is_zero() for x in v):
            raise Unknown("values")
        return [x[0].cval()[0] for x in v]

    def _f_allclose(self, pos, kw):
        a, b = self.real_values(pos[0]), self.real_values(pos[1])
        n = max(len(a), len(b))
        return all(x == y for x, y in zip(a * (n if len(a) == 1 else 1), b * (n if len(b) == 1 else 1)))

    def _f_isclose(self, pos, kw):
        a, b = self.nd(self.ev(pos[0])), self.nd(self.ev(pos[1]))
        return [x == y for x, y in zip(*(self.real_values(p) * (1 if isinstance(q, ND) else max(len(getattr(a, "data", [1])), len(getattr(b, "data", [1])))) for p, q in ((pos[0], a), (pos[1], b))))]

    def _f_all(self, pos, kw):
        v = self.ev(pos[0])
        if isinstance(v, bool):
            return v
        if isinstance(v, list) and all(isinstance(x, bool) for x in v):
            return all(v)
        raise Unknown("all")

    def _f_isfinite(self, pos, kw):
        return [True for _ in self.real_values(pos[0])]

    def _f_unique(self, pos, kw):
        v = sorted(set(self.real_values(pos[0])))
        if kw or len(pos) > 1:
            raise Unknown("unique")
        return ND((len(v),), [num(x) for x in v])

    def _f_max(self, pos, kw):
        return num(max(self.real_values(pos[0])))

    def _f_min(self, pos, kw):
        return num(min(self.real_values(pos[0])))

    _f_amax, _f_amin = _f_max, _f_min

    def _f_ptp(self, pos, kw):
        v = self.real_values(pos[0])
        return num(max(v) - min(v))

    def _t_and(self, t):
        return all(self.cond(x) for x in t.args[0])

    def _t_or(self, t):
        return any(self.cond(x) for x in t.args[0])

    full = True

    def _rank(self, a):
        n = min(a.shape)
        return num(n if self.full else n - 1)

    def _f_matrix_rank(self, pos, kw):
        return self._rank(self.ev(pos[0]))

    def _f_lstsq(self, pos, kw):
        a = self.ev(pos[0] if pos else kw["a"])
        b = self.ev(pos[1] if len(pos) > 1 else kw["b"])
        if not isinstance(a, ND) or not isinstance(b, ND) or len(a.shape) != 2 or b.shape != a.shape[:1]:
            raise Mismatch("shapes of the equation system")
        self.systems.append((a, b))
        z = ND((a.shape[1],), [cplx(f"z{k}") for k in range(a.shape[1])])
        return [z, real("residuals"), self._rank(a), real("singular values")]


# ------------------------------------------------------------------ runs

def _list_array(eng, args, kwargs, st, node):
    """Arrays made from lists of known values stay lists."""
    v = eng.freeze(args[0], st) if args else None
    if v is not None and v.op in ("list", "tuple") and v.args and (v.args[0] if isinstance(v.args[0], tuple) else v.args):
        return args[0], st
    return None


def run(mod, fct, *args):
    eng = Engine(repo())
    eng.strip_copy = True
    eng.call_models["numpy.array"] = eng.call_models["numpy.asarray"] = _list_array
    st = eng.state.copy()
    r = eng.run("pypeec.utils." + mod, fct, [to_term(eng, st, x) for x in args], state=st)
    return eng, r.frozen()


def entries(t):
    """Entries of a dictionary (by name)."""
    if t.op != "dict":
        raise Unknown(str(t)[:60])
    out = {}
    for k, v in (t.args[0] if len(t.args) == 1 else t.args):
        out[cval(k) if hasattr(k, "op") else k] = v
    return out


def utilities(chk):
    jobs = [("extract", 0), ("extract", 1), ("symmetry", 1), ("symmetry", 2), ("matrix", (2, 2)), ("matrix", (1, 1)), ("matrix", (3, 2)), ("matrix", (3, 4)), ("direct", 0), ("fourier", 0), ("index", 0)]
    parallel(chk, _job, jobs)
    chk.floor("values", 100)


def _job(chk, job):
    kind, arg = job
    chk.count("model_configurations")
    try:
        {"extract": _extract, "symmetry": _symmetry, "matrix": _matrix, "direct": _direct, "fourier": _fourier, "index": _index}[kind](chk, arg)
    except Unknown as ex:
        chk.undecided(f"{kind} {arg}", "pypeec/utils", str(ex)[:120])
    except Mismatch as ex:
        chk.bad(f"{kind}: consistent arrays", "pypeec/utils", str(ex)[:120])


def _same(chk, name, where, got, want):
    chk.count("values")
    chk.ob(fkey(got) == fkey(want), name, where, f"{_fmt(got)} instead of {_fmt(want)}"[:300])


def _fmt(v):
    if v is NAN:
        return "nan"
    if _is(v):
        return (nf.fmt(v[0]) + (" + j " + nf.fmt(v[1]) if not v[1].is_zero() else ""))[:140]
    return str(v)[:100]


def rejected(eng, ev):
    """An error is raised for the given values (None: undecided)."""
    res = False
    for e in eng.events:
        if e.kind == "raise":
            r = []
            for f, p in e.facts:
                try:
                    r.append(ev.cond(f) == bool(p))
                except (Unknown, Mismatch):
                    r.append(None)
            if all(r):
                return True
            if False not in r:
                res = None
    return res


def _get(chk, name, ev, d, key, where, shape):
    try:
        if key not in d:
            chk.bad(f"{name}: {key}", where, "no such entry")
            return None
        v = ev.ev(d[key])
        if shape is not None and (not isinstance(v, ND) or v.shape != shape):
            chk.bad(f"{name}: shape of {key}", where, str(getattr(v, "shape", v))[:60])
            return None
        return v
    except Unknown as ex:
        chk.undecided(f"{name}: {key}", where, str(ex)[:100])
    except Mismatch as ex:
        chk.bad(f"{name}: {key}", where, str(ex)[:100])
    return None


MAT = "pypeec/utils/matrix.py"


def _extract(chk, k):
    tags = ("p1", "n1", "p2", "n2")
    sweeps = ("a", "b", "c")
    sel = (["b", "a"], ["a", "c", "b"])[k]
    tl = [{"src": "p1", "sink": "n1"}, {"src": "n2", "sink": "p2"}, {"src": "p1", "sink": "p2"}][:3 - k]
    source = lambda s: {t: {"freq": sym("x"), "V": sym(f"{s}.{t}.V"), "I": sym(f"{s}.{t}.I"), "S": sym(f"{s}.{t}.S")} for t in tags}
    sol = {"data_init": {"freq": sym("y")}, "data_sweep": {s: {"freq": sym(f"{s}.freq"), "source": source(s)} for s in sweeps}}
    eng, out = run("matrix", "get_extract", sol, list(sel), tl)
    ev = Eval({f"{s}.{t}.{q}": cplx(f"{s}.{t}.{q}") for s in sweeps for t in tags for q in "VIS"})
    d = entries(out)
    name = f"extraction ({len(tl)} windings, {len(sel)} solutions)"
    shape = (len(tl), len(sel))
    for key, f in (("V_mat", 1), ("I_mat", 2)):
        v = _get(chk, name, ev, d, key, MAT, shape)
        if v is None:
            continue
        for (i, x), (j, s) in itertools.product(enumerate(tl), enumerate(sel)):
            q = key[0]
            want = vdiv(vadd(cplx(f"{s}.{x['src']}.{q}"), cplx(f"{s}.{x['sink']}.{q}"), -1), num(f))
            _same(chk, f"{name}: {key}[{i}, {j}]", MAT, v.at(i, j), want)
    for key, n in (("n_winding", len(tl)), ("n_solution", len(sel))):
        v = _get(chk, name, ev, d, key, MAT, None)
        if v is not None:
            _same(chk, f"{name}: {key}", MAT, v, num(n))
    v = _get(chk, name, ev, d, "freq", MAT, None)
    if v is not None:
        # for equal frequencies
        ok = {fkey(real(f"{s}.freq")) for s in sel}
        m = num(0)
        for s in sel:
            m = vadd(m, real(f"{s}.freq"))
        ok.add(fkey(vdiv(m, num(len(sel)))))
        chk.ob(fkey(v) in ok, f"{name}: frequency", MAT, _fmt(v))
    for odd in (None,) + tuple(sel):
        ev = Eval({f"{s}.freq": num(200 if s == odd else 100) for s in sweeps})
        r = rejected(eng, ev)
        chk.count("values")
        want = odd is not None
        chk.ob(None if r is None else r == want, f"{name}: frequencies of the solutions ({'equal' if odd is None else 'other one for ' + odd})", MAT, "rejected" if r else "accepted")


def _terminal(nw, ns, freq="f"):
    return {"n_winding": nw, "n_solution": ns, "freq": sym(freq) if isinstance(freq, str) else freq, "V_mat": sym("V"), "I_mat": sym("I")}


def _leaves(nw, ns):
    return {q: ND((nw, ns), [cplx(f"{q}{i}{j}") for i in range(nw) for j in range(ns)]) for q in "VI"}


def _symmetry(chk, k):
    nw, ns = 3, 2
    syms = [[[0, 1, 2], [1, 2, 0]], [[0, 1, 2], [2, 1, 0], [0, 2, 1]]][:k]
    lab = f"symmetry ({k} group{'s'[:k - 1]})"
    eng, out = run("matrix", "get_symmetry", _terminal(nw, ns), syms)
    ev = Eval(_leaves(nw, ns))
    d = entries(out)
    cols = [(tuple(range(nw)), s) for s in range(ns)]
    for group in syms:
        cols = [(tuple(c[0][p] for p in perm), c[1]) for perm in group for c in cols]
    n = len(cols)
    got = {}
    for key in ("V_mat", "I_mat"):
        v = _get(chk, lab, ev, d, key, MAT, None)
        if v is not None and isinstance(v, ND) and len(v.shape) == 2:
            got[key] = v
    if len(got) == 2:
        V, I = got["V_mat"], got["I_mat"]
        if chk.ob(V.shape[0] == nw and V.shape == I.shape, f"{lab}: shape", MAT, f"{V.shape} {I.shape}"):
            c = lambda m, q: tuple(fkey(m.at(i, q)) for i in range(nw))
            have = {c(V, q) + c(I, q) for q in range(V.shape[1])}
            want = {tuple(fkey(cplx(f"{x}{i}{s}")) for x in "VI" for i in p) for p, s in cols}
            chk.count("values", 2 * n * nw)
            chk.ob(want <= have, f"{lab}: all the permutations of the solutions are obtained", MAT, f"{len(want - have)} permuted solutions are missing")
            chk.ob(have <= want, f"{lab}: currents and voltages are permuted together", MAT, f"{len(have - want)} solutions are no permutations")
            v = _get(chk, lab, ev, d, "n_solution", MAT, None)
            if v is not None:
                _same(chk, f"{lab}: number of solutions", MAT, v, num(V.shape[1]))
    for key, want in (("n_winding", num(nw)), ("freq", real("f"))):
        v = _get(chk, lab, ev, d, key, MAT, None)
        if v is not None:
            _same(chk, f"{lab}: {key}", MAT, v, want)


def _matrix(chk, arg):
    nw, ns = arg
    for freq in ("f", 0.0):
        name = f"matrix ({nw} windings, {ns} solutions, {'AC' if freq else 'DC'})"
        eng, out = run("matrix", "get_matrix", _terminal(nw, ns, freq))
        ev = Eval(_leaves(nw, ns))
        d = entries(out)
        Z = _get(chk, name, ev, d, "Z_mat", MAT, (nw, nw))
        if Z is None:
            continue
        if not chk.ob(len(ev.systems) >= 1, f"{name}: equation system", MAT, "not found"):
            continue
        A, b = ev.systems[0]
        unknowns = {fkey(cplx(f"z{k}")) for k in range(A.shape[1])}
        chk.ob(A.shape[1] == nw * (nw + 1) // 2, f"{name}: number of the unknowns", MAT, str(A.shape))
        for i in range(nw):
            for j in range(nw):
                chk.count("values")
                chk.ob(fkey(Z.at(i, j)) in unknowns, f"{name}: Z[{i}, {j}] is a solution", MAT, _fmt(Z.at(i, j)))
                chk.ob(fkey(Z.at(i, j)) == fkey(Z.at(j, i)), f"{name}: symmetric matrix ({i}, {j})", MAT, _fmt(Z.at(i, j)))
        chk.ob({fkey(x) for x in Z.data} == unknowns, f"{name}: all the unknowns are used", MAT, "")
        # equations: Z*I = V for each winding and solution
        z = [cplx(f"z{k}") for k in range(A.shape[1])]
        have = []
        for r in range(A.shape[0]):
            s = vmul(num(-1), b.at(r))
            for k in range(A.shape[1]):
                s = vadd(s, vmul(A.at(r, k), z[k]))
            have.append(fkey(s))
        for i in range(nw):
            for s in range(ns):
                q = vmul(num(-1), cplx(f"V{i}{s}"))
                for j in range(nw):
                    q = vadd(q, vmul(Z.at(i, j), cplx(f"I{j}{s}")))
                chk.count("values")
                chk.ob(fkey(q) in have, f"{name}: equation of the winding {i} for the solution {s}", MAT, f"{_fmt(q)} = 0 is not in the system")
        chk.ob(len(have) == nw * ns, f"{name}: number of the equations", MAT, f"{len(have)} instead of {nw * ns}")
        for full in (True, False):
            one = Eval(_leaves(nw, ns))
            one.full = full
            r = rejected(eng, one)
            chk.count("values")
            chk.ob(None if r is None else r != full, f"{name}: system with a {'full' if full else 'insufficient'} rank", MAT, "rejected" if r else "accepted")
        # equivalent circuit
        w = vmul(vmul(num(2), real("pi")), real("f"))
        R = [[vre(Z.at(i, j)) for j in range(nw)] for i in range(nw)]
        L = [[vdiv(vim(Z.at(i, j)), w) if freq else NAN for j in range(nw)] for i in range(nw)]
        k = lambda M, i, j: NAN if M[0][0] is NAN else vdiv(M[i][j], vsqrt(vmul(M[i][i], M[j][j])))
        want = {
            "R_mat": lambda i, j: R[i][j], "L_mat": lambda i, j: L[i][j],
            "Q_mat": lambda i, j: NAN if not freq else vdiv(vmul(w, L[i][j]), R[i][j]),
            "k_R_mat": lambda i, j: k(R, i, j), "k_L_mat": lambda i, j: k(L, i, j),
        }
        for key, f in want.items():
            v = _get(chk, name, ev, d, key, MAT, (nw, nw))
            if v is None:
                continue
            for i in range(nw):
                for j in range(nw):
                    g, x = v.at(i, j), f(i, j)
                    if key.startswith("k_") and i == j and x is not NAN and fkey(g) == fkey(num(1)):
                        x = num(1)
                    _same(chk, f"{name}: {key}[{i}, {j}]", MAT, g, x)
        for key, x in (("n_winding", num(nw)), ("n_solution", num(ns)), ("freq", real("f") if freq else num(0))):
            v = _get(chk, name, ev, d, key, MAT, None)
            if v is not None:
                _same(chk, f"{name}: {key}", MAT, v, x)


def _direct(chk, k):
    """Arrays with a wrong shape are rejected by both functions."""
    for fct, args in (("get_matrix", (_terminal(2, 2),)), ("get_symmetry", (_terminal(2, 2), [[[0, 1]]]))):
        eng, out = run("matrix", fct, *args)
        for q, shape in itertools.product("VI", ((2, 2), (2, 1), (2, 3), (3, 2))):
            leaves = _leaves(2, 2)
            leaves[q] = ND(shape, [cplx(f"{q}{k}") for k in range(shape[0] * shape[1])])
            r = rejected(eng, Eval(leaves))
            chk.count("values")
            chk.ob(None if r is None else r == (shape != (2, 2)), f"{fct}: {q}_mat with the shape {shape[0]}x{shape[1]}", MAT, "rejected" if r else "accepted")
    # more unknowns than equations
    eng, out = run("matrix", "get_matrix", _terminal(3, 1))
    r = rejected(eng, Eval(_leaves(3, 1)))
    chk.ob(r, "get_matrix: not enough solutions", MAT, "accepted")


# ------------------------------------------------------------------ Fourier series

FFT = "pypeec/utils/fourier.py"
N = "(number of samples)"


class Spectrum(Eval):
    """Values of a spectrum or a signal at the first (or at another) position."""

    def __init__(self, first, none):
        super().__init__({})
        self.first, self.none, self.inverse, self.cut = first, none, [], []

    def ev(self, t):
        if t.op == "sym":
            n = t.args[0]
            if n in ("n_freq", "n_time"):
                return None if self.none else real(n)
            if n == "v_freq":
                return cplx("v0") if self.first else cplx("vk")
            if n == "v_time":
                return real("v")
        return super().ev(t)

    def _t_item(self, t):
        k = t.args[1]
        if is_const(k) and cval(k) == 0:
            return Spectrum(True, self.none).ev(t.args[0])
        if k.op == "slice":
            p = [None if is_const(x) and cval(x) is None else x for x in k.args]
            if p[0] is None and p[2] is None and p[1] is not None and p[1].op == "sym":
                self.cut.append(p[1].args[0])
                return self.ev(t.args[0])
            if p == [None, None, None]:
                return self.ev(t.args[0])
            if p[0] is None and p[2] is None and name_of(p[1]) == "builtins.len" and p[1].args[1][0].cid == t.args[0].cid:
                return self.ev(t.args[0])
            if p[1:] == [None, None] and is_const(p[0]) and cval(p[0]) == 1:
                return self.ev(t.args[0])
        raise Unknown("item")

    def _t_setitem(self, t):
        k = t.args[1]
        if is_const(k) and cval(k) == 0:
            return self.ev(t.args[2] if self.first else t.args[0])
        if k.op == "slice" and all(is_const(x) for x in k.args) and [cval(x) for x in k.args] == [1, None, None]:
            return self.ev(t.args[0] if self.first else t.args[2])
        raise Unknown("assignment")

    def _f_copy(self, pos, kw):
        return self.ev(pos[0])

    _f_array = _f_asarray = _f_copy

    def _f_len(self, pos, kw):
        if pos[0].op == "sym" and pos[0].args[0] == "v_time":
            return real(N)
        if any((name_of(x) or "").endswith("irfft") for x in walk(pos[0])):
            return real("(output samples)")
        return real("(number of frequencies)")

    def _f_size(self, pos, kw):
        return self._f_len(pos, kw)

    def _t_attr(self, t):
        if t.args[1] == "size":
            return self._f_len([t.args[0]], {})
        return super()._t_attr(t)

    def _f_rfft(self, pos, kw):
        if len(pos) > 1 or kw or pos[0].cid != sym("v_time").cid:
            raise Unknown("rfft")
        return cplx("F0" if self.first else "Fk")

    def _f_irfft(self, pos, kw):
        n = pos[1] if len(pos) > 1 else kw.get("n")
        n = self.ev(n) if n is not None else None
        if n is not None and fkey(n) != fkey(real("n_time")):
            raise Mismatch("number of samples of the inverse transform")
        if not self.none and n is None:
            raise Mismatch("number of samples of the inverse transform")
        self.inverse.append(tuple(fkey(Spectrum(f, self.none).ev(pos[0])) for f in (True, False)))
        return real("irfft")

    def _f_concatenate(self, pos, kw):
        items = pos[0].args[0] if len(pos[0].args) == 1 and isinstance(pos[0].args[0], tuple) else pos[0].args
        pad = items[1:]
        if not all(any((name_of(x) or "").endswith("zeros") for x in walk(p)) for p in pad):
            raise Unknown("concatenate")
        return self.ev(items[0])


def _fourier(chk, k):
    eng, out = run("fourier", "get_fft", sym("v_time"), sym("n_freq"))
    for none in (True, False):
        for first in (True, False):
            ev = Spectrum(first, none)
            v = ev.ev(out)
            want = vdiv(cplx("F0"), real(N)) if first else vdiv(vmul(num(2), cplx("Fk")), real(N))
            lab = f"spectrum ({'average' if first else 'harmonics'}, {'all' if none else 'given number of'} frequencies)"
            _same(chk, lab, FFT, v, want)
        if not none:
            chk.ob("n_freq" in ev.cut, "spectrum: number of the frequencies", FFT, str(ev.cut))
    eng, out = run("fourier", "get_ifft", sym("v_freq"), sym("n_time"))
    for none in (True, False):
        ev = Spectrum(False, none)
        v = ev.ev(out)
        lab = f"signal ({'default' if none else 'given'} number of samples)"
        if not chk.ob(len(ev.inverse) >= 1, f"{lab}: inverse transform", FFT, "not found"):
            continue
        # value = c*N*irfft(a*v0, b*vk): c*a = 1, c*b = 1/2 (linear)
        lens = [fkey(vmul(vmul(num(c), real("irfft")), real(n))) for c in (1,) for n in ("(output samples)",)]
        a, b = ev.inverse[0]
        c = None
        for x in (1, 2):
            for n in ("(output samples)",) + (() if none else ("n_time",)):
                if fkey(v) == fkey(vdiv(vmul(real("irfft"), real(n)), num(x))):
                    c = x
        if c is None:
            chk.bad(f"{lab}: scale", FFT, _fmt(v))
            continue
        chk.ob(a == fkey(vmul(num(c), cplx("v0"))), f"{lab}: average", FFT, f"factor {c}")
        chk.ob(b == fkey(vmul(vdiv(num(c), num(2)), cplx("vk"))), f"{lab}: harmonics", FFT, f"factor {c}")
    for fct, args, want in (("get_time", ("f", "n"), vdiv(real("k"), vmul(real("f"), real("n")))), ("get_freq", ("f", "n"), vmul(real("k"), real("f")))):
        eng, out = run("fourier", fct, sym("f"), sym("n"))
        ev = Eval({})
        bad = []

        def arange(pos, kw, bad=bad):
            if len(pos) != 1 or pos[0].cid != sym("n").cid:
                bad.append(1)
            return real("k")
        ev._f_arange = arange
        _same(chk, f"{fct}: values", FFT, ev.ev(out), want)
        chk.ob(not bad, f"{fct}: number of the values", FFT, "another number")


# ------------------------------------------------------------------ indices of the voxels

VOX = "pypeec/utils/voxel.py"


class Index(Eval):
    """One generic row of the index array."""

    def _t_item(self, t):
        k = t.args[1]
        if k.op == "tuple":
            items = k.args[0] if len(k.args) == 1 and isinstance(k.args[0], tuple) else k.args
            if len(items) == 2 and items[0].op == "slice" and is_const(items[1]) and any(x.op == "sym" and x.args[0] == "idx" for x in walk(t.args[0])):
                return real("xyz"[cval(items[1])])
        a = self.ev(t.args[0])
        if isinstance(a, list) and is_const(k):
            return a[cval(k)]
        raise Unknown("item")

    def _f_array(self, pos, kw):
        return self.ev(pos[0])

    _f_asarray = _f_array

    def _f_all(self, pos, kw):
        return self.ev(pos[0])

    def _f_unravel_index(self, pos, kw):
        o = cval(kw["order"]) if "order" in kw else cval(pos[2]) if len(pos) > 2 else "C"
        i, n = self.ev(pos[0]), self.ev(pos[1])
        return [("unravel", fkey(i), tuple(fkey(x) for x in n), o, k) for k in range(3)]

    def _f_ravel_multi_index(self, pos, kw):
        o = cval(kw["order"]) if "order" in kw else cval(pos[3]) if len(pos) > 3 else "C"
        i, n = self.ev(pos[0]), self.ev(pos[1])
        if o == "C":
            i, n = i[::-1], n[::-1]
        return vadd(i[0], vadd(vmul(n[0], i[1]), vmul(vmul(n[0], n[1]), i[2])))

    def _f_stack(self, pos, kw):
        v = self.ev(pos[0])
        if "axis" not in kw and len(pos) < 2 or cval(kw["axis"] if "axis" in kw else pos[1]) not in (1, -1):
            raise Mismatch("the coordinates are not the columns")
        return ["stack"] + v

    def _t_attr(self, t):
        if t.args[1] == "T":
            return self._f_transpose([t.args[0]], {})
        return super()._t_attr(t)

    def _f_transpose(self, pos, kw):
        t = pos[0]
        if (name_of(t) or "").endswith(".stack") and len(t.args[1]) == 1 and not dict(t.args[2]):
            return ["stack"] + self.ev(t.args[1][0])
        if not any((name_of(x) or "").endswith(("stack", "unravel_index")) for x in walk(t)):
            return [real(x) for x in "xyz"]
        raise Unknown("transpose")

    def _f_column_stack(self, pos, kw):
        return ["stack"] + self.ev(pos[0])


def _holds(f, rows):
    """Truth of a condition for the values of the symbols (one or several rows)."""
    if f.op in ("and", "or"):
        r = [_holds(x, rows) for x in f.args[0]]
        return all(r) if f.op == "and" else any(r)
    if f.op == "not" or f.op == "un" and f.args[0] == "not":
        return not _holds(f.args[-1], rows)
    n, a = (name_of(f) or "").split(".")[-1], list(f.args[1]) if f.op == "call" else None
    if f.op == "call" and f.args[0].op == "attr":
        n, a = f.args[0].args[1], [f.args[0].args[0]] + a
    if n in ("all", "any"):
        r = [_holds(a[0], [x]) for x in rows]
        return all(r) if n == "all" else any(r)
    if n in ("bool", "bool_"):
        return _holds(a[0], rows)
    if n in ("logical_and", "logical_or"):
        a, b = (_holds(x, rows) for x in a)
        return a and b if n == "logical_and" else a or b
    if n == "logical_not" or f.op == "un" and f.args[0] == "~":
        if len(rows) > 1:
            raise Unknown("rows")
        return not _holds(a[0] if a else f.args[1], rows)
    if f.op == "bin" and f.args[0] in "&|" and len(rows) == 1:
        a, b = _holds(f.args[1], rows), _holds(f.args[2], rows)
        return a and b if f.args[0] == "&" else a or b
    if f.op == "cmp":
        a, b = (_row_value(x, rows) for x in f.args[1:3])
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[f.args[0]]
    raise Unknown(str(f)[:80])


def _row_value(t, rows):
    n, a = (name_of(t) or "").split(".")[-1], list(t.args[1]) if t.op == "call" else None
    if t.op == "call" and t.args[0].op == "attr":
        n, a = t.args[0].args[1], [t.args[0].args[0]] + a
    if n in ("min", "max", "amin", "amax"):
        v = [_value(Index({}).ev(a[0]), x) for x in rows]
        return min(v) if "min" in n else max(v)
    v = {_value(Index({}).ev(t), x) for x in rows}
    if len(v) > 1:
        raise Unknown("rows")
    return v.pop()


def _value(v, vals):
    if not _is(v):
        raise Unknown("value")
    s = 0
    for m, c in v[0].t.items():
        x = c[0]
        for i, e in m:
            key = nf._ATOMS[i].key
            if key[0] != "plot.s" or key[1] not in vals:
                raise Unknown("symbol")
            x = x * vals[key[1]] ** e
        s = s + x
    return s


def _index(chk, k):
    n = tuple(sym(x) for x in ("nx", "ny", "nz"))
    S = {x: real(x) for x in ("x", "y", "z", "nx", "ny", "nz", "idx")}
    # coordinates -> index
    eng, out = run("voxel", "get_idx_linear", n, sym("idx"))
    want = vadd(S["x"], vadd(vmul(S["nx"], S["y"]), vmul(vmul(S["nx"], S["ny"]), S["z"])))
    _same(chk, "linear index", VOX, Index({}).ev(out), want)
    rs = [e for e in eng.events if e.kind == "raise"]
    size = {"nx": 3, "ny": 4, "nz": 5}
    for a, v in itertools.product("xyz", (-1, 0, "mid", "last", "end", "over")):
        x = {"mid": 1, "last": size["n" + a] - 1, "end": size["n" + a], "over": size["n" + a] + 3}.get(v, v)
        vals = dict(size, x=0, y=0, z=0)
        vals[a] = x
        rows = [dict(size, x=1, y=1, z=1), vals, dict(size, x=2, y=2, z=2)]
        bad = any(all(_holds(f, rows) == bool(p) for f, p in e.facts) for e in rs)
        chk.count("values")
        chk.ob(bad == (x < 0 or x >= size["n" + a]), f"linear index: range of {a} ({v})", rs[0].where() if rs else VOX, "rejected" if bad else "accepted")
    # index -> coordinates
    eng, out = run("voxel", "get_idx_tensor", n, sym("idx"))
    v = Index({}).ev(out)
    if not isinstance(v, list) or v[:1] != ["stack"] or len(v) != 4:
        raise Unknown("coordinates")
    dims = tuple(fkey(S[x]) for x in ("nx", "ny", "nz"))
    for a, x, kk in zip("xyz", v[1:], range(3)):
        if isinstance(x, tuple) and x and x[0] == "unravel":
            ok = x == ("unravel", fkey(S["idx"]), dims, "F", kk) or x == ("unravel", fkey(S["idx"]), dims[::-1], "C", 2 - kk)
            chk.count("values")
            chk.ob(ok, f"coordinates: {a}", VOX, str(x[3:])[:60])
        else:
            chk.undecided(f"coordinates: {a}", VOX, str(x)[:60])
    rs = [e for e in eng.events if e.kind == "raise"]
    for x in (-1, 0, 1, 59, 60, 61):
        bad = any(all(_holds(f, [dict(size, idx=7), dict(size, idx=x), dict(size, idx=8)]) == bool(p) for f, p in e.facts) for e in rs)
        chk.count("values")
        chk.ob(bad == (x < 0 or x >= 60), f"coordinates: range of the index ({x})", rs[0].where() if rs else VOX, "rejected" if bad else "accepted")
