"""
Arrays of values attached to the voxels of a plot.

An array is given by its order (which voxel each position belongs to) and by the
value of a generic voxel. The order is the one of an index array, of the sorted
indices, or of a concatenation. The value is a function of the membership of the
voxel in the index arrays, with complex values as pairs of polynomials, such that
two expressions of the same value are equal. Reordering an array with the order
of another one, or assigning values of other voxels, is a definite error.
"""

from fractions import Fraction

from sa import nf
from sa.term import is_const, cval


class Unknown(Exception):
    pass


class Mismatch(Exception):
    pass


NAN = ("nan",)
INF = nf.poly(nf.atom(("plot.inf",)))


def real(name):
    return (nf.poly(nf.atom(("plot.s", name))), nf.ZERO)


def cplx(name):
    return (nf.poly(nf.atom(("plot.re", name))), nf.poly(nf.atom(("plot.im", name))))


def num(v):
    if isinstance(v, complex):
        return (nf.const(Fraction(v.real)), nf.const(Fraction(v.imag)))
    return (nf.const(Fraction(v)), nf.ZERO)


def fkey(v):
    return ("nan",) if v is NAN else v if isinstance(v, (bool, str)) else (v[0].key(), v[1].key()) if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], nf.Poly) else v


def fn(name, *vs):
    """Function atom of real result."""
    return (nf.poly(nf.atom(("plot.f", name) + tuple(fkey(v) for v in vs))), nf.ZERO)


# ------------------------------------------------------------------ values

def _is(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], nf.Poly)


def _lift(v):
    if isinstance(v, bool):
        return num(int(v))
    if v is NAN or _is(v):
        return v
    raise Unknown(str(v)[:60])


def vadd(a, b, s=1):
    a, b = _lift(a), _lift(b)
    if a is NAN or b is NAN:
        return NAN
    f = nf.add if s > 0 else nf.sub
    return (f(a[0], b[0]), f(a[1], b[1]))


def vmul(a, b):
    a, b = _lift(a), _lift(b)
    if a is NAN or b is NAN:
        return NAN
    return (nf.sub(nf.mul(a[0], b[0]), nf.mul(a[1], b[1])), nf.add(nf.mul(a[0], b[1]), nf.mul(a[1], b[0])))


def vdiv(a, b):
    a, b = _lift(a), _lift(b)
    if a is NAN or b is NAN:
        return NAN
    if not b[1].is_zero():
        c = (b[0], nf.neg(b[1]))
        return vdiv(vmul(a, c), vmul(b, c))
    i = nf.inv(b[0])
    return (nf.mul(a[0], i), nf.mul(a[1], i))


def vre(a):
    a = _lift(a)
    return NAN if a is NAN else (a[0], nf.ZERO)


def vim(a):
    a = _lift(a)
    return NAN if a is NAN else (a[1], nf.ZERO)


def vconj(a):
    a = _lift(a)
    return NAN if a is NAN else (a[0], nf.neg(a[1]))


def vabs2(a):
    a = _lift(a)
    return NAN if a is NAN else (nf.add(nf.mul(a[0], a[0]), nf.mul(a[1], a[1])), nf.ZERO)


def vsqrt(a):
    a = _lift(a)
    if a is NAN:
        return NAN
    if a[0].is_const() and a[0].cval()[0] in (0, 1):
        return a
    return fn("sqrt", a)


def vabs(a):
    a = _lift(a)
    if a is not NAN and a[1].is_zero() and a[0].is_const():
        return num(abs(a[0].cval()[0]))
    return vsqrt(vabs2(a))


def vnorm(a):
    """Length of a vector (the value is the one of a generic component)."""
    q = vabs2(a)
    return NAN if q is NAN else fn("norm", q)


def vexp(a):
    a = _lift(a)
    if a is NAN:
        return NAN
    if a[0].is_zero():
        return vadd(vcos((a[1], nf.ZERO)), vmul(num(1j), vsin((a[1], nf.ZERO))))
    return fn("exp", a)


def vcos(a):
    a = _lift(a)
    if a[0].is_zero():
        return num(1)
    n = (nf.neg(a[0]), nf.ZERO)
    return fn("cos", min((a, n), key=lambda x: repr(fkey(x))))


def vsin(a):
    a = _lift(a)
    if a[0].is_zero():
        return num(0)
    n = (nf.neg(a[0]), nf.ZERO)
    m = min((a, n), key=lambda x: repr(fkey(x)))
    return fn("sin", m) if m is a else vmul(num(-1), fn("sin", m))


def _inf(v):
    """1 / -1 for an infinite value."""
    if _is(v) and v[1].is_zero():
        m = v[0].mono()
        if m and m[0] == INF.mono()[0]:
            return 1 if m[1][0] > 0 else -1
    return 0


def vext(a, b, kind):
    a, b = _lift(a), _lift(b)
    if a is NAN or b is NAN:
        return NAN
    for x, y in ((a, b), (b, a)):
        s = _inf(x)
        if s:
            return x if (s > 0) == (kind == "max") else y
    if fkey(a) == fkey(b):
        return a
    return fn(kind, *sorted((a, b), key=lambda x: repr(fkey(x))))


def vcmp(op, a, b):
    """Formula: True, False, or a frozenset of conditions (all must hold)."""
    a, b = _lift(a), _lift(b)
    if a is NAN or b is NAN:
        return op == "!="
    if op in ("<", "<="):
        return vcmp({"<": ">", "<=": ">="}[op], b, a)
    d = vadd(a, b, -1)
    if op in (">", ">="):
        s, q = _inf(a), _inf(b)
        if s or q:
            return (s or -q) > 0
        if d[0].is_const():
            v = d[0].cval()[0]
            return v > 0 if op == ">" else v >= 0
        return frozenset([(op, d[0].key())])
    if op in ("==", "!=") and d[0].is_const() and d[1].is_const():
        return (d[0].is_zero() and d[1].is_zero()) == (op == "==")
    raise Unknown(f"comparison {op}")


def vand(a, b):
    for x, y in ((a, b), (b, a)):
        if x is True:
            return y
        if x is False:
            return False
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return a | b
    raise Unknown("condition")


def vor(a, b):
    for x, y in ((a, b), (b, a)):
        if x is False:
            return y
        if x is True:
            return True
    if a == b:
        return a
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return frozenset([("or",) + tuple(sorted((repr(sorted(map(repr, x))) for x in (a, b))))])
    raise Unknown("condition")


def vnot(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, frozenset) and len(a) == 1:
        raise Unknown("negation of a comparison (undefined values)")
    raise Unknown("negation")


# ------------------------------------------------------------------ arrays

class Ids:
    """Index array."""

    def __init__(self, base):
        self.base = base


class Perm:
    """Positions which sort the index array."""

    def __init__(self, base):
        self.base = base


class Pos:
    """Positions in the index array a of the indices of the array b."""

    def __init__(self, a, b):
        self.a, self.b = a, b


class Arr:
    def __init__(self, base, fn, size=None, vec=False):
        self.base, self.fn, self.vec = base, fn, vec
        self.size = size if size is not None else names(base) if base is not None else None


class Len:
    def __init__(self, base):
        self.base = base


class Mesh:
    """Cells or points with their data."""

    def __init__(self, kind, base=None, data=None, keep=(), cells=True, props=None):
        self.kind, self.base, self.data, self.keep, self.cells, self.props = kind, base, dict(data or {}), tuple(keep), cells, dict(props or {})

    def clone(self, **kw):
        d = dict(kind=self.kind, base=self.base, data=self.data, keep=self.keep, cells=self.cells, props=self.props)
        d.update(kw)
        return Mesh(**d)


def names(base):
    """Multiset of the index arrays (sorted names)."""
    if base[0] == "seq":
        return (base[1],)
    if base[0] == "sorted":
        return base[1]
    if base[0] in ("sel", "value"):
        return base
    return tuple(sorted(n for b in base[1] for n in names(b)))


def srt(base):
    return base if base[0] in ("sorted", "sel", "value") else ("sorted", names(base))


class Eval:
    def __init__(self, leaves, envs, disjoint, cells=3):
        self.leaves, self.envs, self.disjoint, self.cells = leaves, envs, disjoint, cells
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t.cid)
        if r is None:
            r = self._ev(t)
            self.memo[t.cid] = r
        if isinstance(r, Exception):
            raise r
        return r

    # -------------------------------------------------------------- terms

    def _ev(self, t):
        try:
            return self._eval(t)
        except (Unknown, Mismatch) as ex:
            return ex

    def _eval(self, t):
        if t.op == "sym" and t.args[0] in self.leaves:
            return self.leaves[t.args[0]]
        m = getattr(self, "_t_" + t.op, None)
        if m is None:
            raise Unknown(str(t)[:80])
        return m(t)

    def _t_const(self, t):
        v = cval(t)
        if isinstance(v, float) and v != v:
            return NAN
        if v in (float("inf"), -float("inf")) and not isinstance(v, (str, complex)):
            return (INF if v > 0 else nf.neg(INF), nf.ZERO)
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        return num(v)

    def _t_sym(self, t):
        return real(t.args[0])

    def _t_ext(self, t):
        n = t.args[0].split(".")
        if n[-1] == "nan":
            return NAN
        if n[-1] in ("inf", "Inf"):
            return (INF, nf.ZERO)
        if n[-1] == "pi":
            return real("pi")
        return ("ext", t.args[0])

    def _t_tuple(self, t):
        return [self.ev(x) for x in (t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args)]

    _t_list = _t_tuple

    def _t_phi(self, t):
        return self.ev(t.args[1] if self.cond(t.args[0]) else t.args[2])

    def _t_not(self, t):
        return self.unary("not", self.ev(t.args[-1]))

    def _t_un(self, t):
        return self.unary(t.args[0], self.ev(t.args[1]))

    def unary(self, op, a):
        if op in ("not", "~"):
            return self.lift(vnot, a)
        if op == "-":
            return self.lift(lambda x: vmul(num(-1), x), a)
        if op == "+":
            return a
        raise Unknown(op)

    def _t_and(self, t):
        return all(self.cond(x) for x in t.args[0])

    def _t_or(self, t):
        return any(self.cond(x) for x in t.args[0])

    BIN = {"+": vadd, "-": lambda a, b: vadd(a, b, -1), "*": vmul, "/": vdiv, "&": vand, "|": vor}

    def _t_bin(self, t):
        op, a, b = t.args[0], self.ev(t.args[1]), self.ev(t.args[2])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op == "**":
            if _is(b) and b[0].is_const() and b[0].cval()[0] == 2:
                return self.lift(lambda x: vmul(x, x), a)
            if _is(b) and b[0].is_const() and b[0].cval()[0] == Fraction(1, 2):
                return self.lift(vsqrt, a)
            raise Unknown("power")
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op not in self.BIN:
            raise Unknown(op)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ids) and op in "+-" and _is(y) and y[0].is_const() and not y[0].is_zero():
                raise Mismatch(f"the indices {show(x.base)} are shifted")
        return self.lift(self.BIN[op], a, b)

    def _t_cmp(self, t):
        op, a, b = t.args[0], self.ev(t.args[1]), self.ev(t.args[2])
        if op in ("in", "not in") and isinstance(a, str) and isinstance(b, list):
            return (a in b) == (op == "in")
        if op in ("is", "is not", "==", "!=") and (a is None or b is None or isinstance(a, (str, bool)) and isinstance(b, (str, bool))):
            return (a is b or isinstance(a, (str, bool)) and a == b) == (op in ("is", "=="))
        return self.lift(lambda x, y: vcmp(op, x, y), a, b)

    def cond(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if _is(v) and v[0].is_const():
            return not v[0].is_zero()
        if isinstance(v, Arr):
            vs = {x for x in (v.fn(e) for e in self.envs)}
            if len(vs) == 1 and isinstance(next(iter(vs)), bool) and v.base is None:
                return vs.pop()
        raise Unknown("condition " + str(t)[:80])

    # -------------------------------------------------------------- element-wise functions

    def lift(self, f, *vs):
        arrs = [v for v in vs if isinstance(v, Arr)]
        if any(isinstance(v, (Ids, Perm, Pos, Mesh, Len, list)) for v in vs):
            raise Unknown("operand")
        if not arrs:
            return f(*vs)
        base, size = None, None
        for a in arrs:
            if a.base is not None:
                if base is not None and a.base != base:
                    raise Mismatch(f"values in different orders are combined ({show(a.base)}, {show(base)})")
                base = a.base
            elif a.size is not None:
                size = a.size
        return Arr(base, lambda e: f(*[v.fn(e) if isinstance(v, Arr) else v for v in vs]), size, any(a.vec for a in arrs))

    # -------------------------------------------------------------- items

    def _t_item(self, t):
        a, k = self.ev(t.args[0]), self.ev(t.args[1])
        return self.item(a, k, t)

    _t_getitem = _t_item

    def item(self, a, k, t=None):
        if isinstance(a, Mesh):
            if isinstance(k, str):
                if k in a.data:
                    return a.data[k]
                raise Mismatch(f"the data '{k}' is not in the dataset")
            raise Unknown("item of a dataset")
        if isinstance(k, Perm):
            if isinstance(a, Ids):
                if a.base != k.base:
                    raise Mismatch(f"sorted with the order of {show(k.base)}")
                return Ids(srt(a.base))
            if isinstance(a, Arr):
                if a.base is None:
                    return a
                if a.base != k.base:
                    raise Mismatch(f"values in the order of {show(a.base)} are sorted with the order of {show(k.base)}")
                return Arr(srt(a.base), a.fn, vec=a.vec)
        if isinstance(a, Perm) and isinstance(k, Pos):
            if k.a != srt(a.base):
                raise Mismatch(f"positions in {show(k.a)} are used for the sorted order of {show(a.base)}")
            return Pos(a.base, k.b)
        if isinstance(a, list) and _is(k) and k[0].is_const():
            return a[int(k[0].cval()[0])]
        if isinstance(a, list) and len(a) == 1 and isinstance(k, list):
            return a[0]
        if isinstance(a, Arr) and isinstance(k, Arr) and a.base is not None and a.base == k.base:
            return Arr(("sel", a.base, self.table(k)), a.fn, vec=a.vec)
        if _is(a) and _is(k) and k[0].is_const() and t is not None and t.args[0].op == "sym":
            return real(f"{t.args[0].args[0]}[{int(k[0].cval()[0])}]")
        raise Unknown(str(t)[:80])

    def table(self, a):
        """Conditions of a mask for each kind of voxel."""
        out = []
        for e in self.envs:
            v = a.fn(e)
            out.append("no" if v is False else () if v is True else tuple(sorted(repr(x) for x in v)) if isinstance(v, frozenset) else repr(fkey(v)))
        return tuple(out)

    def _t_setitem(self, t):
        a, k, v = (self.ev(x) for x in t.args[:3])
        if isinstance(a, Mesh):
            if not isinstance(k, str):
                raise Unknown("item of a dataset")
            if isinstance(v, Arr):
                if v.base is None and v.size is not None and a.base is not None and v.size != names(a.base):
                    raise Mismatch(f"{k}: number of values")
                if v.base is not None and v.base != a.base:
                    raise Mismatch(f"'{k}': values in the order of {show(v.base)} are set to the voxels in the order of {show(a.base)}")
            elif not _is(v) and v is not NAN:
                raise Unknown(f"data {k}")
            d = dict(a.data)
            d[k] = v if isinstance(v, Arr) else Arr(None, lambda e: v)
            return a.clone(data=d)
        if not isinstance(a, Arr):
            raise Unknown("assignment")
        if isinstance(k, Arr):
            if a.base is not None and k.base != a.base or k.base is None or a.base is None and a.size not in (None, names(k.base)):
                raise Mismatch(f"a mask in the order of {show(k.base)} is used for values in the order of {show(a.base)}")
            if isinstance(v, Arr) and v.base is not None:
                if v.base == ("sel", k.base, self.table(k)):
                    pass
                else:
                    raise Unknown("assignment of an array to a mask")
            return Arr(k.base, lambda e: self.pick(k.fn(e), v.fn(e) if isinstance(v, Arr) else v, a.fn(e)), vec=a.vec)
        if isinstance(k, Pos):
            if a.base is not None and k.a != a.base or a.base is None and a.size not in (None, names(k.a)):
                raise Mismatch(f"positions in {show(k.a)} are used for values in the order of {show(a.base)}")
            if isinstance(v, Arr) and v.base is not None and v.base != k.b:
                raise Mismatch(f"values in the order of {show(v.base)} are assigned to the positions of {show(k.b)}")
            ns = set(names(k.b))
            return Arr(k.a, lambda e: (v.fn(e) if isinstance(v, Arr) else v) if any(e[n] for n in ns) else a.fn(e), vec=a.vec)
        if isinstance(k, list) or k == "slice":
            raise Unknown("slice")
        raise Unknown("assignment")

    @staticmethod
    def pick(c, x, y):
        if isinstance(c, bool):
            return x if c else y
        raise Unknown("selection by values")

    def _t_setattr(self, t):
        a, k = self.ev(t.args[0]), t.args[1]
        k = cval(k) if hasattr(k, "op") else k
        if isinstance(a, Mesh):
            return a.clone(props=dict(a.props, **{k: self.ev(t.args[2])}))
        raise Unknown("attribute")

    def _t_attr(self, t):
        a, k = self.ev(t.args[0]), t.args[1]
        if isinstance(a, Mesh):
            if k in a.props:
                return a.props[k]
            if k in ("n_cells", "n_points"):
                return num(self.cells) if a.cells else num(0)
            if k == "array_names":
                return list(a.data)
            if k in ("point_data", "cell_data"):
                return a
        if k == "real":
            return self.lift(vre, a)
        if k == "imag":
            return self.lift(vim, a)
        if isinstance(a, (Ids, Arr, Pos)) and k == "size":
            return Len(a.base)
        if isinstance(a, (Ids, Arr, Pos)) and k == "shape":
            return [Len(a.base)]
        if k == "dtype":
            return "dtype"
        if a == "finfo":
            return real("finfo." + k)
        if isinstance(a, tuple) and a and a[0] == "ext":
            return ("ext", f"{a[1]}.{k}")
        raise Unknown(str(t)[:80])

    # -------------------------------------------------------------- calls

    def _t_call(self, t):
        f, pos, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "ext":
            n = f.args[0]
            m = getattr(self, "_f_" + n.split(".")[-1], None)
            if m is None:
                raise Unknown(n)
            return m(t, [x for x in pos], kw)
        if f.op == "attr":
            obj = self.ev(f.args[0])
            m = getattr(self, "_m_" + f.args[1], None)
            if m is None:
                raise Unknown("." + f.args[1])
            return m(obj, [x for x in pos], kw)
        raise Unknown(str(t)[:80])

    def _flag(self, kw, k, default):
        return cval(kw[k]) if k in kw and is_const(kw[k]) else default if k not in kw else None

    def _m_copy(self, o, pos, kw):
        return o

    def _m_astype(self, o, pos, kw):
        return o

    _m_flatten = _m_ravel = _m_copy

    def _m_extract_cells(self, o, pos, kw):
        if not isinstance(o, Mesh):
            raise Unknown("extract_cells")
        k = self.ev(pos[0] if pos else kw["ind"])
        inv = self._flag(kw, "invert", False)
        if isinstance(k, Ids):
            if o.kind != "grid":
                raise Mismatch(f"the cells {show(k.base)} are taken from the selected voxels")
            if not inv:
                return Mesh("voxel", self.distinct(k.base, "extract"), props=o.props)
        if isinstance(k, Arr) and not inv:
            if k.base is not None and k.base != o.base:
                raise Mismatch(f"a selection in the order of {show(k.base)} is used for {show(o.base)}")
            keep = self.table(k)
            base = None if o.base is None else ("sel", o.base, keep)
            data = {n: Arr(base if v.base is not None else None, v.fn, vec=v.vec) for n, v in o.data.items()}
            return o.clone(base=base, data=data, keep=o.keep + (k,))
        raise Unknown("extract_cells")

    def distinct(self, base, what):
        """Sorted order without duplicates."""
        if base[0] == "seq" or base[0] == "sorted":
            return srt(base)
        return ("sorted", tuple(sorted(set(names(base)))))

    def _f_ImageData(self, t, pos, kw):
        return Mesh("grid", props={k: self.ev(v) for k, v in kw.items()})

    _f_UniformGrid = _f_ImageData

    def _f_PolyData(self, t, pos, kw):
        if len(pos) == 2 and not kw:
            return Mesh("reference", props={"points": pos[0], "faces": pos[1]})
        if len(pos) + len(kw) == 1:
            a = self.ev(pos[0] if pos else next(iter(kw.values())))
            if isinstance(a, Ids):
                return Mesh("point", a.base)
        raise Unknown("PolyData")

    def _f_sort(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, Ids):
            self.no_dup(a.base)
            return Ids(srt(a.base))
        if isinstance(a, Arr):
            return Arr(("value", a.base, self.table(a)), a.fn, vec=a.vec)
        raise Unknown("sort")

    def no_dup(self, base):
        if base[0] == "cat" and not self.disjoint:
            raise Mismatch(f"voxels of several index arrays appear several times in {show(base)}")

    def _f_unique(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, Ids) and not kw and len(pos) == 1:
            return Ids(self.distinct(a.base, "unique"))
        raise Unknown("unique")

    def _f_union1d(self, t, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        if isinstance(a, Ids) and isinstance(b, Ids):
            return Ids(("sorted", tuple(sorted(set(names(a.base)) | set(names(b.base))))))
        raise Unknown("union1d")

    def _f_argsort(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, Ids):
            return Perm(a.base)
        if isinstance(a, Arr):
            return Perm(("value", a.base, self.table(a)))
        raise Unknown("argsort")

    def _f_searchsorted(self, t, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        if isinstance(a, Ids) and isinstance(b, Ids) and self._flag(kw, "side", "left") == "left":
            s = kw.get("sorter") or (pos[3] if len(pos) > 3 else None)
            self.no_dup(a.base)
            if not set(names(b.base)) <= set(names(a.base)):
                raise Mismatch(f"positions of {show(b.base)} in {show(a.base)}")
            if s is not None:
                p = self.ev(s)
                if not isinstance(p, Perm):
                    raise Unknown("sorter")
                if p.base != a.base:
                    raise Mismatch(f"positions in {show(a.base)} with the order of {show(p.base)}")
                return Pos(srt(a.base), b.base)
            if a.base[0] != "sorted":
                raise Mismatch(f"positions in the unsorted array {show(a.base)}")
            return Pos(a.base, b.base)
        raise Unknown("searchsorted")

    def _f_in1d(self, t, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        if isinstance(a, Ids) and isinstance(b, Ids):
            inv = self._flag(kw, "invert", False)
            ns = set(names(b.base))
            return Arr(a.base, lambda e: any(e[n] for n in ns) != bool(inv))
        raise Unknown("in1d")

    _f_isin = _f_in1d

    def _f_len(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, (Ids, Arr, Pos)):
            return Len(a.base if not isinstance(a, Pos) else a.b)
        if isinstance(a, list):
            return num(len(a))
        raise Unknown("len")

    def _f_size(self, t, pos, kw):
        return self._f_len(t, pos, kw)

    def _filled(self, shape, v):
        s = self.ev(shape)
        vec = isinstance(s, list) and len(s) == 2
        s = s[0] if isinstance(s, list) and s else s
        if isinstance(s, Len):
            return Arr(None, lambda e: v, names(s.base), vec)
        if _is(s) and s[0].is_zero():
            return Arr(("cat", ()), lambda e: v)
        raise Unknown("shape")

    def _f_zeros(self, t, pos, kw):
        return self._filled(pos[0] if pos else kw["shape"], num(0))

    def _f_ones(self, t, pos, kw):
        return self._filled(pos[0] if pos else kw["shape"], num(1))

    def _f_empty(self, t, pos, kw):
        return self._filled(pos[0] if pos else kw["shape"], fn("empty"))

    def _f_full(self, t, pos, kw):
        return self._filled(pos[0] if pos else kw["shape"], self.ev(pos[1] if len(pos) > 1 else kw["fill_value"]))

    def _like(self, t, v):
        a = self.ev(t)
        if isinstance(a, (Ids, Arr)):
            return Arr(a.base, lambda e: v, None if a.base is not None else a.size)
        raise Unknown("like")

    def _f_zeros_like(self, t, pos, kw):
        return self._like(pos[0], num(0))

    def _f_ones_like(self, t, pos, kw):
        return self._like(pos[0], num(1))

    def _f_full_like(self, t, pos, kw):
        return self._like(pos[0], self.ev(pos[1]))

    def _f_concatenate(self, t, pos, kw):
        vs = self.ev(pos[0])
        if not isinstance(vs, list):
            raise Unknown("concatenate")
        return self.cat(vs)

    _f_hstack = _f_concatenate

    def _f_append(self, t, pos, kw):
        return self.cat([self.ev(pos[0]), self.ev(pos[1])])

    def cat(self, vs):
        vs = [v for v in vs if not (isinstance(v, Arr) and v.base == ("cat", ())) and v != []]
        if len(vs) == 1:
            return vs[0]
        bases = []
        for k, v in enumerate(vs):
            if isinstance(v, list) and len(v) == 1 and not isinstance(v[0], Arr):
                vs[k] = v = Arr(("seq", "first"), lambda e, x=v[0]: x)
            if isinstance(v, (Ids, Arr)):
                b = v.base if v.base is not None else ("seq", v.size[0]) if v.size is not None and len(v.size) == 1 else None
                if b is None:
                    raise Unknown("concatenation")
                bases += list(b[1]) if b[0] == "cat" else [b]
            else:
                raise Unknown("concatenation")
        base = ("cat", tuple(bases))
        if all(isinstance(v, Ids) for v in vs):
            return Ids(base)
        if not all(isinstance(v, Arr) for v in vs) or not self.disjoint:
            raise Unknown("concatenation")
        parts = [(set(v.size), v) for v in vs]

        def f(e):
            for ns, v in parts:
                if any(e[n] for n in ns):
                    return v.fn(e)
            raise Unknown("concatenation")
        return Arr(base, f)

    def _f_where(self, t, pos, kw):
        if len(pos) == 3:
            c, x, y = (self.ev(p) for p in pos)
            return self.lift(self.pick, c, x, y)
        raise Unknown("where")

    def _f_select(self, t, pos, kw):
        cs, vs = self.ev(pos[0]), self.ev(pos[1])
        d = self.ev(pos[2]) if len(pos) > 2 else self.ev(kw["default"]) if "default" in kw else num(0)
        for c, v in reversed(list(zip(cs, vs))):
            d = self.lift(self.pick, c, v, d)
        return d

    def _f_real(self, t, pos, kw):
        return self.lift(vre, self.ev(pos[0]))

    def _f_imag(self, t, pos, kw):
        return self.lift(vim, self.ev(pos[0]))

    def _f_conj(self, t, pos, kw):
        return self.lift(vconj, self.ev(pos[0]))

    _f_conjugate = _f_conj

    def _f_abs(self, t, pos, kw):
        return self.lift(vabs, self.ev(pos[0]))

    _f_absolute = _f_abs

    def _f_sqrt(self, t, pos, kw):
        return self.lift(vsqrt, self.ev(pos[0]))

    def _f_exp(self, t, pos, kw):
        return self.lift(vexp, self.ev(pos[0]))

    def _f_cos(self, t, pos, kw):
        return self.lift(vcos, self.ev(pos[0]))

    def _f_sin(self, t, pos, kw):
        return self.lift(vsin, self.ev(pos[0]))

    def _f_square(self, t, pos, kw):
        return self.lift(lambda x: vmul(x, x), self.ev(pos[0]))

    def _f_norm(self, t, pos, kw):
        a = self.ev(pos[0])
        ax = kw.get("axis") or (pos[2] if len(pos) > 2 else None)
        if not isinstance(a, Arr) or not a.vec:
            raise Unknown("norm")
        if ax is None or not is_const(ax) or cval(ax) not in (1, -1):
            raise Mismatch("the length of the vectors is not computed for each voxel (axis)")
        if "ord" in kw and cval(kw["ord"]) not in (None, 2):
            raise Mismatch("norm of the vectors")
        r = self.lift(vnorm, a)
        r.vec = False
        return r

    def _f_minimum(self, t, pos, kw):
        return self.lift(lambda x, y: vext(x, y, "min"), self.ev(pos[0]), self.ev(pos[1]))

    def _f_maximum(self, t, pos, kw):
        return self.lift(lambda x, y: vext(x, y, "max"), self.ev(pos[0]), self.ev(pos[1]))

    def _f_clip(self, t, pos, kw):
        a = self.ev(pos[0])
        lo = self.ev(pos[1] if len(pos) > 1 else kw["a_min"] if "a_min" in kw else kw["min"])
        hi = self.ev(pos[2] if len(pos) > 2 else kw["a_max"] if "a_max" in kw else kw["max"])
        if lo is not None:
            a = self.lift(lambda x, y: vext(x, y, "max"), a, lo)
        if hi is not None:
            a = self.lift(lambda x, y: vext(x, y, "min"), a, hi)
        return a

    def _m_clip(self, o, pos, kw):
        raise Unknown("clip")

    def _f_logical_and(self, t, pos, kw):
        return self.lift(vand, self.ev(pos[0]), self.ev(pos[1]))

    def _f_logical_or(self, t, pos, kw):
        return self.lift(vor, self.ev(pos[0]), self.ev(pos[1]))

    def _f_logical_not(self, t, pos, kw):
        return self.lift(vnot, self.ev(pos[0]))

    def _f_isfinite(self, t, pos, kw):
        return self.lift(lambda x: _lift(x) is not NAN, self.ev(pos[0]))

    def _f_isnan(self, t, pos, kw):
        return self.lift(lambda x: _lift(x) is NAN, self.ev(pos[0]))

    def _f_any(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, Arr):
            vs = [a.fn(e) for e in self.envs]
            if all(isinstance(v, bool) for v in vs):
                return any(vs)
        raise Unknown("any")

    def _f_all(self, t, pos, kw):
        a = self.ev(pos[0])
        if isinstance(a, Arr):
            vs = [a.fn(e) for e in self.envs]
            if all(isinstance(v, bool) for v in vs):
                return all(vs)
        raise Unknown("all")

    def reduce(self, name, a):
        if isinstance(a, Arr):
            return fn(name, *self.defined(a))
        if isinstance(a, list):
            return fn(name, *sorted((fkey(_lift(x)) for x in a), key=repr))
        raise Unknown(name)

    def undefined(self, a):
        """Some of the selected values are undefined."""
        for k, e in enumerate(self.envs):
            b, ok = a.base, a.fn(e) is NAN
            while b is not None and b[0] == "sel":
                ok = ok and b[2][k] != "no"
                b = b[1]
            if ok:
                return True
        return False

    def defined(self, a):
        """Values of the array with their conditions (the undefined values are not considered)."""
        out = set()
        for k, e in enumerate(self.envs):
            v, b, cs, ok = a.fn(e), a.base, set(), True
            if v is NAN:
                continue
            while b is not None and b[0] == "sel":
                ok = ok and b[2][k] != "no"
                if isinstance(b[2][k], tuple):
                    cs |= set(b[2][k])
                b = b[1]
            if ok:
                out.add((repr(fkey(v)), tuple(sorted(cs))))
        return sorted(out)

    def _f_nanmax(self, t, pos, kw):
        return self.reduce("max of", self.ev(pos[0]))

    def _f_nanmin(self, t, pos, kw):
        return self.reduce("min of", self.ev(pos[0]))

    def _f_max(self, t, pos, kw):
        a = self.ev(pos[0]) if len(pos) == 1 else [self.ev(p) for p in pos]
        if isinstance(a, Arr) and self.undefined(a):
            return NAN
        return self.reduce("max of", a)

    def _f_min(self, t, pos, kw):
        a = self.ev(pos[0]) if len(pos) == 1 else [self.ev(p) for p in pos]
        if isinstance(a, Arr) and self.undefined(a):
            return NAN
        return self.reduce("min of", a)

    _f_amax, _f_amin = _f_max, _f_min

    def _m_max(self, o, pos, kw):
        return self.reduce("max of", o)

    def _m_min(self, o, pos, kw):
        return self.reduce("min of", o)

    def _f_finfo(self, t, pos, kw):
        return "finfo"

    def _f_log10(self, t, pos, kw):
        return self.lift(lambda x: fn("log10", x), self.ev(pos[0]))

    def _f_logspace(self, t, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        n = self.ev(pos[2] if len(pos) > 2 else kw["num"])
        return fn("logspace", a, b, n)

    def _f_geomspace(self, t, pos, kw):
        a, b = self.ev(pos[0]), self.ev(pos[1])
        n = self.ev(pos[2] if len(pos) > 2 else kw["num"])
        return fn("logspace", fn("log10", a), fn("log10", b), n)

    def _m_glyph(self, o, pos, kw):
        if not isinstance(o, Mesh) or pos:
            raise Unknown("glyph")
        return Mesh("glyph", o.base, o.data, o.keep, o.cells, {"glyph": {k: self.ev(v) for k, v in kw.items()}, "of": o.kind})

    def _f_float(self, t, pos, kw):
        v = self.ev(pos[0])
        if isinstance(v, str):
            s = v.strip().lstrip("+")
            if s in ("inf", "-inf"):
                return (INF if s == "inf" else nf.neg(INF), nf.ZERO)
            if s == "nan":
                return NAN
        return v

    def _f_asarray(self, t, pos, kw):
        return self.ev(pos[0])

    _f_array = _f_asarray

    def _f_tuple(self, t, pos, kw):
        return self.ev(pos[0])

    _f_list = _f_tuple


def show(base):
    if base is None:
        return "(all equal)"
    if base[0] == "seq":
        return base[1]
    if base[0] == "sorted":
        return "sorted(" + " + ".join(base[1]) + ")"
    if base[0] == "value":
        return f"the values of {show(base[1])}"
    if base[0] == "cat":
        return "[" + ", ".join(show(b) for b in base[1]) + "]"
    return f"selection of {show(base[1])}"
