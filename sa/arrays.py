"""Index algebra of array terms: every array is a shape with a function from indices to values.

The terms of the value graph that build index arrays and grids (ranges, unravelled indices, stacks, slices, masks,
concatenations, sparse connection matrices) are evaluated for a generic element: an array is a tuple of dimensions
and a function that gives the element (a polynomial, or a formula) for symbolic indices. One-dimensional collections
whose elements come from several sources (domains, appended arrays, filtered arrays) have an axis made of parts; a
part is a generic element (bound variables) with a condition.
"""

from fractions import Fraction

from sa import nf
from sa.nf import Poly, add, sub, mul, neg, inv, const, poly, atom
from sa.term import T, is_const, cval, mk

CASTS = {"numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "builtins.list", "builtins.tuple",
         "copy.copy", "copy.deepcopy", "numpy.copy", "numpy.int64", "numpy.float64", "builtins.float", "builtins.int", "numpy.asfortranarray"}
CAST_METH = {"tolist", "astype", "copy", "tocsc", "tocsr", "tocoo", "item"}
SPARSE = {"csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array", "coo_array"}


class Unknown(Exception):
    pass


class Mismatch(Exception):
    """Positions of the elements in one order are used for the elements in another order."""


def S(name):
    return poly(atom(("sym", name)))


def key(v):
    """Hashable identity of a value."""
    if isinstance(v, Poly):
        return v.key()
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(key(x) for x in v)
    if isinstance(v, Seq):
        return ("seq", tuple(key(x) for x in v.items))
    if isinstance(v, (Part, Ax)):
        return v.key
    if isinstance(v, Arr):
        return v.key()
    return v


# ---------------------------------------------------------------- formulas

def f_not(f):
    if isinstance(f, bool):
        return not f
    k = f[0]
    if k == "not":
        return f[1]
    if k == "pos":
        return ("nneg", neg(f[1]))
    if k == "nneg":
        return ("pos", neg(f[1]))
    if k == "and":
        return f_or(*[f_not(x) for x in f[1]])
    if k == "or":
        return f_and(*[f_not(x) for x in f[1]])
    if k == "all":
        return ("any", f[1], f_not(f[2]))
    if k == "any":
        return ("all", f[1], f_not(f[2]))
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        out += list(f[1]) if f[0] == "and" else [f]
    d = {}
    for f in out:
        d.setdefault(key(f), f)
    if not d:
        return True
    if len(d) == 1:
        return next(iter(d.values()))
    return ("and", tuple(d[k] for k in sorted(d, key=repr)))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        out += list(f[1]) if f[0] == "or" else [f]
    d = {}
    for f in out:
        d.setdefault(key(f), f)
    if not d:
        return False
    if len(d) == 1:
        return next(iter(d.values()))
    return ("or", tuple(d[k] for k in sorted(d, key=repr)))


def compare(op, a, b):
    """Formula of a comparison of scalars."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, bool) and not isinstance(y, Poly):
            if op in ("==", "is"):
                return y if x else f_not(y)
            if op in ("!=", "is not"):
                return f_not(y) if x else y
    a, b = scalar(a), scalar(b)
    d = sub(a, b)
    if d.is_const():
        c = d.cval()[0]
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    if op == "<":
        return ("pos", neg(d))
    if op == ">":
        return ("pos", d)
    if op == "<=":
        return ("nneg", neg(d))
    if op == ">=":
        return ("nneg", d)
    n = neg(d)
    e = ("zero", min((d, n), key=lambda p: repr(p.key())))
    return e if op == "==" else ("not", e)


def scalar(v):
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, float)):
        return const(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Arr) and not v.shape:
        return scalar(v.fn(()))
    raise Unknown(f"not a scalar: {type(v).__name__}")


IND = {}


def indicator(f):
    """One if the condition is true, zero otherwise."""
    if isinstance(f, bool):
        return const(int(f))
    k = key(f)
    IND[k] = f
    return poly(atom(("ind", k)))


def is_f(v):
    return isinstance(v, bool) or isinstance(v, tuple) and v and v[0] in ("pos", "nneg", "zero", "not", "and", "or", "all", "any", "atom")


# ---------------------------------------------------------------- arrays

class Seq:
    """Python sequence."""

    def __init__(self, items):
        self.items = list(items)


class Part:
    """Generic element of a collection: source (identity), bound variables, condition."""

    def __init__(self, src, cond=True, data=None):
        self.src = src
        self.cond = cond
        self.data = data

    @property
    def key(self):
        return ("part", key(self.src), key(self.cond))


class Ax:
    """Axis of a collection; tag: order of the elements."""

    def __init__(self, parts, tag=()):
        self.parts = list(parts)
        self.tag = tag

    @property
    def key(self):
        return ("ax", tuple((i, p.key) for i, p in enumerate(self.parts)), self.tag)

    def length(self):
        return poly(atom(("length", self.key)))


class Arr:
    def __init__(self, shape, fn):
        self.shape = tuple(shape)
        self.fn = fn

    def gen(self):
        """Generic elements: [(indices, value, condition)]."""
        out = [((), True)]
        for i, d in enumerate(self.shape):
            if isinstance(d, Ax):
                out = [(ix + ((k, p),), f_and(c, p.cond)) for ix, c in out for k, p in enumerate(d.parts)]
            elif d.is_const():
                out = [(ix + (const(k),), c) for ix, c in out for k in range(int(d.cval()[0]))]
            else:
                out = [(ix + (var(i, d),), c) for ix, c in out]
        return [(ix, self.fn(ix), c) for ix, c in out]

    def key(self):
        return ("arr", tuple(key(d) for d in self.shape), tuple((key(v), key(c)) for _, v, c in self.gen()))


def var(i, d):
    """Generic index along an axis."""
    return poly(atom(("ix", i, d.key())))


class Set:
    """Sparse matrix: entries (row, column, value, condition)."""

    def __init__(self, entries, shape):
        self.entries = list(entries)
        self.shape = shape


class Sub:
    """Selected rows and columns of a matrix."""

    def __init__(self, matrix, rows, cols):
        self.matrix, self.rows, self.cols = matrix, rows, cols


LINKS = {}


def coll(parts_values, tag=()):
    """One-dimensional collection: [(part, value)]."""
    vals = [v for _, v in parts_values]
    return Arr((Ax([p for p, _ in parts_values], tag),), lambda ix: vals[ix[0][0]])


def dim_eq(a, b):
    return key(a) == key(b)


def one(d):
    return isinstance(d, Poly) and d.is_const() and d.cval()[0] == 1


class Eval:
    """coords: {key of a linear index: (dimensions, coordinates)}; leaves: {symbol: value}."""

    def __init__(self, leaves=None, coords=None, images=None):
        self.leaves = {} if leaves is None else leaves
        self.coords = {key(k): v for k, v in (coords or [])}
        self.memo = {}
        self.calls = images or {}
        self.bind = []
        self.elems = []
        self.formulas = None
        self.methods = {}
        self.attrs = {}
        self.extents = {}
        self.axes = {}
        self.keep = []

    # ------------------------------------------------------------ helpers

    def arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Seq):
            its = [self.arr(x) for x in v.items]
            if not its:
                return coll([])
            sub_ = its[0].shape
            if any(len(x.shape) != len(sub_) for x in its):
                raise Unknown("ragged sequence")

            def fn(ix):
                k = ix[0]
                if k.is_const():
                    return its[int(k.cval()[0])].fn(ix[1:])
                raise Unknown("symbolic index of a sequence")
            return Arr((const(len(its)),) + sub_, fn)
        if isinstance(v, Poly) or is_f(v):
            return Arr((), lambda ix: v)
        raise Unknown(f"not an array: {type(v).__name__}")

    def out(self, a):
        return a.fn(()) if isinstance(a, Arr) and not a.shape else a

    def zipw(self, fct, *vs):
        if all(isinstance(v, Poly) or is_f(v) for v in vs):
            return fct(*vs)
        vs = [self.arr(v) for v in vs]
        n = max(len(v.shape) for v in vs)
        shape = []
        for i in range(n):
            ds = [v.shape[i - (n - len(v.shape))] for v in vs if i - (n - len(v.shape)) >= 0]
            big = [d for d in ds if not one(d)]
            if any(not dim_eq(d, big[0]) for d in big):
                raise Unknown("shapes are not compatible")
            shape.append(big[0] if big else const(1))

        def fn(ix):
            xs = []
            for v in vs:
                o = n - len(v.shape)
                xs.append(v.fn(tuple(const(0) if one(d) and not one(shape[o + k]) else ix[o + k] for k, d in enumerate(v.shape))))
            return fct(*xs)
        r = Arr(shape, fn)
        flats = [v.flat for v in vs if hasattr(v, "flat")]
        if flats and len(shape) == 1 and all(hasattr(v, "flat") or not v.shape for v in vs) and all(key(f[0]) == key(flats[0][0]) and f[1] == flats[0][1] for f in flats):
            r.flat = flats[0]
        return self.out(r)

    def unravel(self, v, dims, order):
        dims = [scalar(x) for x in dims]
        c = self.coords.get(key(v))
        if c and [key(x) for x in c[0]] == [key(x) for x in dims] and order == "F":
            return list(c[1])
        if c and order == "C":
            if [key(x) for x in c[0]] == [key(x) for x in dims[::-1]]:
                return list(c[1])[::-1]
            if [key(x) for x in c[0]] == [key(x) for x in dims]:
                raise Mismatch("linear indices (x first) are decoded in the other order")
        return [poly(atom(("unravel", v.key(), tuple(d.key() for d in dims), order, k))) for k in range(len(dims))]

    def items(self, v):
        if isinstance(v, Seq):
            return v.items
        v = self.arr(v)
        d = v.shape[0]
        if isinstance(d, Ax) or not d.is_const():
            raise Unknown("length of a sequence")
        return [self.out(Arr(v.shape[1:], lambda ix, k=k: v.fn((const(k),) + ix))) for k in range(int(d.cval()[0]))]

    def length(self, d):
        if isinstance(d, Ax):
            n = d.length()
            self.axes[n.key()] = d
            return n
        return d

    # ------------------------------------------------------------ terms

    def ev(self, t):
        k = (t.cid, tuple((b.cid, id(v)) for b, v in self.bind), tuple((c, id(v)) for c, v in self.elems))
        if k not in self.memo:
            self.memo[k] = self._ev(t)
        return self.memo[k]

    def _ev(self, t):
        for b, v in self.bind:
            if b.cid == t.cid:
                return v
        if self.formulas is not None and t.op in ("cmp", "un", "call"):
            f = self.formulas(t)
            if f is not None:
                return f
        f = getattr(self, "_ev_" + t.op, None)
        if f is None:
            return self.opaque(t)
        return f(t)

    def opaque(self, t):
        return poly(atom(("term", t.cid, t.op)))

    def _ev_const(self, t):
        v = cval(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
            return const(Fraction(v))
        return ("value", v)

    def _ev_sym(self, t):
        return self.leaves.get(t.args[0], S(t.args[0]))

    def _ev_ext(self, t):
        return poly(atom(("ext", t.args[0])))

    def _ev_tuple(self, t):
        return Seq([self.ev(x) for x in t.args[0]])

    _ev_list = _ev_tuple

    def _ev_un(self, t):
        v = self.ev(t.args[1])
        if t.args[0] == "-":
            return self.zipw(lambda x: neg(scalar(x)), v)
        if t.args[0] in ("not", "~"):
            return self.zipw(f_not, v)
        return v

    def _ev_bin(self, t):
        op, a, b = t.args
        x, y = self.ev(a), self.ev(b)
        if op == "+" and isinstance(x, Seq) and isinstance(y, Seq):
            return Seq(x.items + y.items)
        if isinstance(x, Set) or isinstance(y, Set):
            if op == "+" and isinstance(x, Set) and isinstance(y, Set):
                return Set(x.entries + y.entries, x.shape)
            raise Unknown("operation on a matrix")
        return self.binop(op, x, y)

    def binop(self, op, x, y):
        def fct(p, q):
            if op in ("&", "|") and is_f(p) and is_f(q):
                return f_and(p, q) if op == "&" else f_or(p, q)
            p, q = scalar(p), scalar(q)
            if op == "+":
                return add(p, q)
            if op == "-":
                return sub(p, q)
            if op == "*":
                return mul(p, q)
            if op == "/":
                return mul(p, inv(q))
            if op == "**" and q.is_const() and q.cval()[0].denominator == 1:
                return nf.power(p, int(q.cval()[0]))
            return poly(atom(("op", op, p.key(), q.key())))
        return self.zipw(fct, x, y)

    def _ev_cmp(self, t):
        op, a, b = t.args
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, Seq) and isinstance(y, Seq) and op in ("==", "!=") and len(x.items) == len(y.items):
            f = f_and(*[compare("==", p, q) for p, q in zip(x.items, y.items)])
            return f if op == "==" else f_not(f)
        if op not in ("<", "<=", ">", ">=", "==", "!="):
            return ("atom", ("cmp", op, key(x), key(y)))
        return self.zipw(lambda p, q: compare(op, p, q), x, y)

    def _ev_and(self, t):
        return f_and(*[self.formula(x) for x in t.args[0]])

    def _ev_or(self, t):
        return f_or(*[self.formula(x) for x in t.args[0]])

    def formula(self, t):
        v = self.ev(t) if isinstance(t, T) else t
        v = self.out(v)
        return v if is_f(v) else f_not(compare("==", v, const(0))) if isinstance(v, Poly) and not any(nf._ATOMS[n].key[0] in ("term", "ext") for m in v.t for n, _ in m) else ("atom", ("truth", key(v)))

    def _ev_phi(self, t):
        c = self.formula(t.args[0])
        if isinstance(c, bool):
            return self.ev(t.args[1 if c else 2])
        x, y = self.ev(t.args[1]), self.ev(t.args[2])
        if key(x) == key(y):
            return x
        if all(isinstance(v, Arr) and len(v.shape) == 1 and isinstance(v.shape[0], Ax) for v in (x, y)):
            return coll([(Part(p.src, f_and(p.cond, f), p.data), v.fn(((k, p),))) for v, f in ((x, c), (y, f_not(c))) for k, p in enumerate(v.shape[0].parts)])
        return self.zipw(lambda p, q: poly(atom(("phi", key(c), key(p), key(q)))), x, y)

    def _ev_attr(self, t):
        if t.args[1] in self.attrs:
            r = self.attrs[t.args[1]](self, t.args[0], t)
            if r is not None:
                return r
        v = self.ev(t.args[0])
        if t.args[1] == "shape" and isinstance(v, Arr):
            return Seq([self.length(d) for d in v.shape])
        if t.args[1] == "T" and isinstance(v, Arr):
            return Arr(v.shape[::-1], lambda ix: v.fn(ix[::-1]))
        if t.args[1] == "size" and isinstance(v, Arr) and len(v.shape) == 1:
            return self.length(v.shape[0])
        if t.args[1] == "nnz" and isinstance(v, Sub) and v.rows is not None and v.cols is not None:
            k = ("links", id(v.matrix), v.rows.key(), v.cols.key())
            LINKS[k] = v
            return poly(atom(k))
        if isinstance(v, (Arr, Seq, Set, Sub)):
            raise Unknown(f"attribute {t.args[1]}")
        return poly(atom(("attr", key(v), t.args[1])))

    def _ev_elem(self, t):
        it = t.args[0]
        for c, v in reversed(self.elems):
            if c == it.cid:
                return v
        v = self.ev(it)
        if isinstance(v, (Arr, Seq)):
            v = self.arr(v)
            d = v.shape[0]
            if isinstance(d, Poly):
                self.extents[it.cid] = d
                return self.out(Arr(v.shape[1:], lambda ix: v.fn((poly(atom(("el", it.cid))),) + ix)))
        return poly(atom(("elem", it.cid)))

    def _ev_map(self, t):
        box = t.args[0]
        r = self.along(box, t.args[1])
        if r is not None:
            return r
        its = self.items(self.ev(box))
        # the variables of a zip are elements of the containers
        comps = []
        if box.op == "call" and box.args[0].op == "ext" and box.args[0].args[0] in ("builtins.zip", "builtins.enumerate"):
            sh = 1 if box.args[0].args[0] == "builtins.enumerate" else 0
            comps = [(k + sh, x) for k, x in enumerate(box.args[1])]
        # containers iterated in parallel
        from sa.term import walk
        inner = {x.args[0].cid for x in walk(t.args[1]) if x.op == "map"} | {c.cid for x in walk(t.args[1]) if x.op == "loop" for c in x.args[0]}
        side = {}
        for x in walk(t.args[1]):
            if x.op == "elem" and x.args[0].cid not in side and x.args[0].cid not in inner | {box.cid} | {c.cid for _, c in comps} | {c for c, _ in self.elems}:
                try:
                    ys = self.items(self.ev(x.args[0]))
                except Unknown:
                    continue
                if len(ys) == len(its):
                    side[x.args[0].cid] = ys
        out = []
        for j, x in enumerate(its):
            b = [(box.cid, x)] + [(c, ys[j]) for c, ys in side.items()]
            if comps:
                xs = x.items if isinstance(x, Seq) else self.items(x)
                b += [(c.cid, xs[k]) for k, c in comps]
                if sh:
                    b.append((("pos", comps[0][1].cid), xs[0]))
            self.elems = self.elems + b
            self.keep.append(x)
            try:
                out.append(self.ev(t.args[1]))
            finally:
                self.elems = self.elems[:-len(b)]
        return Seq(out)

    def _ev_pos(self, t):
        for c, v in reversed(self.elems):
            if c == ("pos", t.args[0].cid):
                return v
        v = self.ev(t.args[0])
        if isinstance(v, Arr) and v.shape and isinstance(v.shape[0], Poly):
            self.extents[t.args[0].cid] = v.shape[0]
            return poly(atom(("el", t.args[0].cid)))
        return self.opaque(t)

    def _ev_item(self, t):
        b, k = self.ev(t.args[0]), t.args[1]
        if isinstance(b, Seq):
            kk = self.ev(k)
            if isinstance(kk, Poly) and kk.is_const() and kk.cval()[0].denominator == 1:
                return b.items[int(kk.cval()[0])]
            if isinstance(kk, tuple) and kk[0] == "slice":
                lo, hi, st = [None if x is None else int(scalar(x).cval()[0]) for x in kk[1:]]
                return Seq(b.items[lo:hi:st])
            b = self.arr(b)
        if isinstance(b, Arr):
            return self.index(b, k)
        if isinstance(b, (Set, Sub)):
            return self.submatrix(b, k)
        kk = self.ev(k)
        return poly(atom(("item", key(b), key(kk))))

    def submatrix(self, b, k):
        rows, cols = (b.rows, b.cols) if isinstance(b, Sub) else (None, None)
        m = b.matrix if isinstance(b, Sub) else b
        if k.op == "call" and k.args[0].op == "ext" and k.args[0].args[0] == "numpy.ix_" and len(k.args[1]) == 2:
            ks = [self.ev(x) for x in k.args[1]]
        else:
            ks = [self.ev(x) for x in (k.args[0] if k.op == "tuple" else [k])]
            if len(ks) == 2 and all(isinstance(x, (Arr, Seq)) for x in ks):
                raise Unknown("pairs of indices")
        full = ("slice", None, None, None)
        for i, x in enumerate(ks):
            if x == full or isinstance(x, tuple) and x[:2] == ("value", Ellipsis):
                continue
            if not isinstance(x, Arr) or len(x.shape) != 1 or (rows, cols)[i] is not None:
                raise Unknown("selection of a matrix")
            if i == 0:
                rows = x
            else:
                cols = x
        return Sub(m, rows, cols)

    def _ev_slice(self, t):
        return ("slice",) + tuple(None if x is None or is_const(x) and cval(x) is None else self.ev(x) for x in t.args)

    def index(self, a, k):
        keys = [self.ev(x) for x in k.args[0]] if k.op == "tuple" else [self.ev(k)]
        n = len([x for x in keys if not (isinstance(x, tuple) and x[:2] == ("value", None))])
        out = [i for i, x in enumerate(keys) if isinstance(x, tuple) and x[:2] == ("value", Ellipsis)]
        if out:
            keys[out[0]:out[0] + 1] = [("slice", None, None, None)] * (len(a.shape) - n + 1)
        pos, shape, plan = 0, [], []
        adv = 0
        for x in keys:
            if isinstance(x, tuple) and x[:2] == ("value", None):
                shape.append(const(1))
                continue
            if pos >= len(a.shape):
                raise Unknown("too many indices")
            d = a.shape[pos]
            if isinstance(x, tuple) and x[0] == "slice":
                lo, hi, st = x[1:]
                plan.append(self.sliced(d, lo, hi, st, len(shape), shape))
            elif isinstance(x, Poly):
                plan.append(lambda ix, x=self.wrap(x, d): x)
            elif isinstance(x, (Arr, Seq)):
                x = self.arr(x)
                adv += 1
                if adv > 1 or len(x.shape) != 1:
                    raise Unknown("several index arrays")
                vals = x.gen()
                if vals and all(is_f(v) for _, v, _ in vals):
                    plan.append(self.masked(d, x, len(shape), shape))
                else:
                    j = len(shape)
                    shape.append(x.shape[0])
                    if vals and all(isinstance(v, tuple) and v[0] == "at" for _, v, _ in vals):
                        if not isinstance(d, Ax) or any(v[2] != d.key for _, v, _ in vals):
                            if isinstance(d, Ax) and all(v[2][1] == d.key[1] for _, v, _ in vals):
                                raise Mismatch("positions of the elements in another order")
                            raise Unknown("positions of another collection")
                        plan.append(lambda ix, x=x, j=j: x.fn((ix[j],))[1])
                    else:
                        plan.append(lambda ix, x=x, j=j, d=d: self.wrap(scalar(x.fn((ix[j],))), d))
            else:
                raise Unknown("index")
            pos += 1
        for d in a.shape[pos:]:
            j = len(shape)
            shape.append(d)
            plan.append(lambda ix, j=j: ix[j])
        return self.out(Arr(shape, lambda ix: a.fn(tuple(p(ix) for p in plan))))

    def wrap(self, x, d):
        """Negative constant indices."""
        if isinstance(x, Poly) and x.is_const() and x.cval()[0] < 0 and isinstance(d, Poly):
            return add(x, d)
        if isinstance(d, Ax):
            raise Unknown("position in a collection")
        return x

    def sliced(self, d, lo, hi, st, j, shape):
        full = (lo is None or key(lo) == key(const(0))) and hi is None
        if st is not None and not (isinstance(st, Poly) and one(st)):
            if isinstance(d, Poly) and lo is None and hi is None and key(st) == key(const(-1)):
                shape.append(d)
                return lambda ix: sub(sub(d, const(1)), ix[j])
            raise Unknown("step of a slice")
        if full:
            shape.append(d)
            return lambda ix: ix[j]
        if isinstance(d, Ax):
            raise Unknown("slice of a collection")
        lo = const(0) if lo is None else self.wrap(scalar(lo), d)
        hi = d if hi is None else self.wrap(scalar(hi), d)
        shape.append(sub(hi, lo))
        return lambda ix: add(ix[j], lo)

    def masked(self, d, x, j, shape):
        if not dim_eq(d, x.shape[0]):
            raise Unknown("mask of another length")
        if isinstance(d, Ax):
            ps = []
            for i, p in enumerate(d.parts):
                ps.append(Part(p.src, f_and(p.cond, x.fn(((i, p),))), p.data))
            shape.append(Ax(ps, d.tag))
            return lambda ix: (ix[j][0], d.parts[ix[j][0]])
        v = var(0, d)
        shape.append(Ax([Part(("range", d), x.fn((v,)))]))
        return lambda ix: v

    def _ev_loop(self, t):
        """Array filled by appending the elements of each iteration."""
        conts, init, body, lv = t.args[0], t.args[1], t.args[2], None
        x = self.ev(init)
        lv = [y for y in _lvs(body) if y.args and y.args[0] == conts and _same(y.args[1], init)] if isinstance(body, T) else []
        lv = [y for y in lv if len(y.args) < 3 or True]
        if not lv:
            return self.opaque(t)
        r = self.filled(conts, x, body, {z.cid for z in lv})
        if r is not None:
            return r
        r = self.listed(conts, x, body, {z.cid for z in lv})
        if r is not None:
            return r
        empty = coll([])
        self.keep.append(empty)
        self.bind = self.bind + [(y, empty) for y in {z.cid: z for z in lv}.values()]
        try:
            v = self.ev(body)
        finally:
            self.bind = self.bind[:-len({z.cid for z in lv})]
        x, v = self.arr(x), self.arr(v)
        if len(x.shape) != 1 or len(v.shape) not in (0, 1):
            raise Unknown("loop")
        # the accumulated array must only be extended
        for y in {z.cid: z for z in lv}.values():
            if not _appends(body, y):
                raise Unknown("loop that is not an accumulation")
        return self.concat([x, Arr(v.shape, v.fn)], "loop")

    def filled(self, conts, x, body, lvs):
        """Array whose rows are set by the iterations."""
        if len(conts) != 1 or not isinstance(x, Arr):
            return None
        sets_, cur = [], body
        while cur.op == "setitem" and len(cur.args) == 3:
            sets_.append((cur.args[1], cur.args[2]))
            cur = cur.args[0]
        if not sets_ or cur.cid not in lvs:
            return None
        box = conts[0]
        n = self.len(self.ev(box), box)
        if not dim_eq(n, x.shape[0]):
            raise Unknown("the rows are not all set")
        rows = []
        for k, v in sets_:
            ks = list(k.args[0]) if k.op == "tuple" else [k]
            if not self.position(ks[0], box):
                raise Unknown("rows")
            rows.append((ks[1:], v))

        def fn(ix):
            b = [(("pos", box.cid), ix[0])]
            if _range(box):
                b.append((box.cid, ix[0]))
            self.elems = self.elems + b
            self.keep.append(ix[0])
            try:
                for ks, v in rows:
                    kk = [scalar(self.ev(y)) for y in ks]
                    if [key(y) for y in kk] == [key(y) for y in ix[1:1 + len(kk)]]:
                        w = self.arr(self.ev(v))
                        return w.fn(tuple(ix[1 + len(kk):]) if w.shape else ())
                    if not all(y.is_const() for y in kk) or not all(isinstance(y, Poly) and y.is_const() for y in ix[1:1 + len(kk)]):
                        raise Unknown("columns")
                return x.fn(ix)
            finally:
                self.elems = self.elems[:-len(b)]
        return Arr(x.shape, fn)

    def listed(self, conts, x, body, lvs):
        """One value appended by each iteration: array along the container."""
        if len(conts) != 1 or not (isinstance(x, Arr) and len(x.shape) == 1 and isinstance(x.shape[0], Ax) and not x.shape[0].parts or isinstance(x, Seq) and not x.items):
            return None
        if body.op != "call" or body.args[0].op != "ext" or body.args[0].args[0] != "numpy.append" or len(body.args[1]) != 2 or body.args[1][0].cid not in lvs:
            return None
        return self.along(conts[0], body.args[1][1])

    def along(self, box, t):
        """Value for each element of a container with a symbolic length."""
        v = self.ev(box)
        if not isinstance(v, Arr) or not isinstance(v.shape[0], Poly) or v.shape[0].is_const():
            return None
        w = self.out(self.ev(t))
        if not isinstance(w, Poly) and not is_f(w):
            return None

        def fn(ix):
            row = self.out(Arr(v.shape[1:], lambda j: v.fn((ix[0],) + j)))
            self.keep += [row, ix[0]]
            self.elems = self.elems + [(box.cid, row), (("pos", box.cid), ix[0])]
            try:
                return self.out(self.ev(t))
            finally:
                self.elems = self.elems[:-2]
        return Arr((v.shape[0],), fn)

    def position(self, k, box):
        return k.op == "pos" and k.args[0].cid == box.cid or k.op == "elem" and k.args[0].cid == box.cid and _range(box)

    def len(self, v, t):
        if isinstance(v, Arr):
            return self.length(v.shape[0])
        if isinstance(v, Seq):
            return const(len(v.items))
        raise Unknown("length")

    def _ev_setitem(self, t):
        x = self.arr(self.ev(t.args[0]))
        k = t.args[1]
        ks = [self.ev(y) for y in (k.args[0] if k.op == "tuple" else [k])]
        if not all(isinstance(y, Poly) and y.is_const() for y in ks) or any(isinstance(d, Ax) for d in x.shape[:len(ks)]):
            raise Unknown("item assignment")
        ks = [self.wrap(y, d) for y, d in zip(ks, x.shape)]
        v = self.arr(self.ev(t.args[2]))

        def fn(ix):
            if all(isinstance(y, Poly) and y.is_const() for y in ix[:len(ks)]):
                if [key(y) for y in ix[:len(ks)]] == [key(y) for y in ks]:
                    return v.fn(tuple(ix[len(ks):]) if v.shape else ())
                return x.fn(ix)
            raise Unknown("generic element of an array with assigned items")
        return Arr(x.shape, fn)

    # ------------------------------------------------------------ calls

    def _ev_call(self, t):
        f, pos, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        if f.op == "ext":
            n = f.args[0]
            short = n.split(".")[-1]
            if n in self.calls:
                r = self.calls[n](self, t, pos, kw)
                if r is not None:
                    return r
            if n.split(".")[0] == "numpy" or n.startswith("builtins.") or n in CASTS:
                r = self.fn(n, short, pos, kw, t)
                if r is not None:
                    return r
            if n.startswith("scipy.sparse") and short in SPARSE:
                return self.sparse(pos, kw)
            if n.startswith("scipy.sparse") and short in ("eye", "identity", "eye_array", "speye"):
                d = scalar(self.ev(pos[0]))
                v = var(0, d)
                return Set([(v, v, const(1), True)], (d, d))
            return self.opaque(t)
        if f.op in ("attr", "bmeth"):
            return self.method(f.args[0], f.args[1], pos, kw, t)
        return self.opaque(t)

    def method(self, base, name, pos, kw, t):
        if name in self.methods:
            r = self.methods[name](self, base, pos, kw, t)
            if r is not None:
                return r
        if name in CAST_METH:
            return self.ev(base)
        b = self.ev(base)
        if isinstance(b, (Arr, Seq)):
            if name in ("flatten", "ravel"):
                return self.flatten(self.arr(b), self.order(pos, kw, 0))
            if name in ("min", "max", "sum", "prod", "any", "all", "swapaxes", "transpose", "reshape"):
                if name == "transpose" and not pos:
                    return Arr(b.shape[::-1], lambda ix: b.fn(ix[::-1]))
                return self.fn("numpy." + name, name, [base] + pos, kw, t)
            if name == "index" and isinstance(b, Seq) and len(pos) == 1:
                x = self.ev(pos[0])
                hit = [i for i, y in enumerate(b.items) if key(x) == key(y)]
                if hit:
                    return const(hit[0])
        if isinstance(b, Sub) and b.rows is not None and b.cols is not None and name in ("count_nonzero", "getnnz", "sum") and not pos and not kw:
            k = ("links", id(b.matrix), b.rows.key(), b.cols.key())
            LINKS[k] = b
            return poly(atom(k))
        if isinstance(b, Sub):
            raise Unknown(f"method {name} of a matrix")
        if isinstance(b, Set):
            if name in ("transpose",):
                return Set([(c, r, v, f) for r, c, v, f in b.entries], b.shape[::-1])
        return poly(atom(("method", key(b) if not isinstance(b, Set) else id(b), name, tuple(key(self.ev(x)) for x in pos), tuple((k, key(self.ev(x))) for k, x in sorted(kw.items())))))

    def order(self, pos, kw, i):
        o = kw.get("order") or (pos[i] if len(pos) > i else None)
        return "C" if o is None else cval(o) if is_const(o) else "?"

    def axis(self, pos, kw, i):
        a = kw.get("axis") if "axis" in kw else pos[i] if len(pos) > i else None
        if a is None or is_const(a) and cval(a) is None:
            return None
        v = self.ev(a)
        if isinstance(v, Seq):
            return [int(scalar(x).cval()[0]) for x in v.items]
        return int(scalar(v).cval()[0])

    def fn(self, n, short, pos, kw, t):
        f = getattr(self, "np_" + short, None)
        if n in CASTS:
            v = self.ev(pos[0]) if pos else Seq([])
            if isinstance(v, Seq) and n.startswith("numpy."):
                # an array is not a list: the operators act on the elements
                try:
                    return self.arr(v)
                except Unknown:
                    return v
            return v
        return f(pos, kw, t) if f else None

    def np_len(self, pos, kw, t):
        if pos[0].op == "map" and _range(pos[0].args[0]):
            return self.np_len([pos[0].args[0]], {}, t)
        v = self.ev(pos[0])
        if isinstance(v, Seq):
            return const(len(v.items))
        if isinstance(v, Arr):
            return self.length(v.shape[0])
        return poly(atom(("len", key(v))))

    def np_range(self, pos, kw, t):
        return self.np_arange(pos, {}, t)

    def np_arange(self, pos, kw, t):
        xs = [scalar(self.ev(x)) for x in pos[:2]]
        lo, hi = (const(0), xs[0]) if len(xs) == 1 else xs
        if len(pos) > 2 and not one(scalar(self.ev(pos[2]))):
            raise Unknown("step of a range")
        return Arr((sub(hi, lo),), lambda ix: add(lo, ix[0]))

    def np_unravel_index(self, pos, kw, t):
        x = self.ev(pos[0])
        dims = self.items(self.ev(pos[1] if len(pos) > 1 else kw["shape"]))
        order = self.order(pos, kw, 2)
        return Seq([self.zipw(lambda p, k=k: self.unravel(scalar(p), dims, order)[k], x) for k in range(len(dims))])

    def np_ravel_multi_index(self, pos, kw, t):
        xs = self.items(self.ev(pos[0]))
        dims = [scalar(x) for x in self.items(self.ev(pos[1]))]
        return self.zipw(lambda *p: linear([scalar(x) for x in p], dims, self.order(pos, kw, 3)), *xs)

    def np_stack(self, pos, kw, t):
        xs = [self.arr(x) for x in self.items(self.ev(pos[0] if pos else kw["arrays"]))]
        ax = self.axis(pos, kw, 1) or 0
        if ax < 0:
            ax += len(xs[0].shape) + 1
        return self.stack(xs, ax)

    def stack(self, xs, ax):
        if any(len(x.shape) != len(xs[0].shape) or any(not dim_eq(p, q) for p, q in zip(x.shape, xs[0].shape)) for x in xs):
            raise Unknown("stack of different shapes")
        shape = list(xs[0].shape)
        shape.insert(ax, const(len(xs)))

        def fn(ix):
            k = ix[ax]
            if not k.is_const():
                raise Unknown("symbolic index of a stack")
            return xs[int(k.cval()[0])].fn(ix[:ax] + ix[ax + 1:])
        return Arr(shape, fn)

    def np_column_stack(self, pos, kw, t):
        return self.stack([self.arr(x) for x in self.items(self.ev(pos[0]))], 1)

    def np_vstack(self, pos, kw, t):
        xs = [self.arr(x) for x in self.items(self.ev(pos[0]))]
        if all(len(x.shape) == 1 for x in xs):
            return self.stack(xs, 0)
        raise Unknown("vstack")

    def np_hstack(self, pos, kw, t):
        return self.np_concatenate(pos, kw, t)

    def np_transpose(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        if len(pos) == 1 and not kw:
            return Arr(b.shape[::-1], lambda ix: b.fn(ix[::-1]))
        p = [int(scalar(x).cval()[0]) for x in self.items(self.ev(pos[1] if len(pos) > 1 else kw["axes"]))]
        return Arr([b.shape[k] for k in p], lambda ix: b.fn(tuple(ix[p.index(k)] for k in range(len(p)))))

    def np_swapaxes(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        i, j = [int(scalar(self.ev(x)).cval()[0]) % len(b.shape) for x in pos[1:3]]
        p = list(range(len(b.shape)))
        p[i], p[j] = p[j], p[i]
        return Arr([b.shape[k] for k in p], lambda ix: b.fn(tuple(ix[p[k]] for k in range(len(p)))))

    def np_flip(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        ax = self.axis(pos, kw, 1)
        ax = list(range(len(b.shape))) if ax is None else [x % len(b.shape) for x in (ax if isinstance(ax, list) else [ax])]
        if any(isinstance(b.shape[k], Ax) for k in ax):
            raise Unknown("flip of a collection")
        return Arr(b.shape, lambda ix: b.fn(tuple(sub(sub(b.shape[k], const(1)), ix[k]) if k in ax else ix[k] for k in range(len(ix)))))

    def np_flipud(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        return Arr(b.shape, lambda ix: b.fn((sub(sub(b.shape[0], const(1)), ix[0]),) + ix[1:]))

    def np_fliplr(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        return Arr(b.shape, lambda ix: b.fn((ix[0], sub(sub(b.shape[1], const(1)), ix[1])) + ix[2:]))

    def np_expand_dims(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        ax = self.axis(pos, kw, 1)
        ax = ax if isinstance(ax, list) else [ax]
        n = len(b.shape) + len(ax)
        ax = [x % n for x in ax]
        shape, keep, it = [], [], iter(b.shape)
        for k in range(n):
            if k in ax:
                shape.append(const(1))
            else:
                shape.append(next(it))
                keep.append(k)
        return Arr(shape, lambda ix: b.fn(tuple(ix[k] for k in keep)))

    def np_meshgrid(self, pos, kw, t):
        xs = [self.arr(self.ev(x)) for x in pos]
        o = kw.get("indexing")
        ij = o is not None and is_const(o) and cval(o) == "ij"
        n = len(xs)
        axs = list(range(n))
        if not ij and n > 1:
            axs[0], axs[1] = 1, 0
        shape = [None] * n
        for k, x in enumerate(xs):
            shape[axs[k]] = x.shape[0]
        return Seq([Arr(shape, lambda ix, k=k, x=x: x.fn((ix[axs[k]],))) for k, x in enumerate(xs)])

    def np_empty(self, pos, kw, t):
        d = self.ev(pos[0])
        if isinstance(d, Poly) and d.is_zero():
            return coll([])
        return self._filled(d, poly(atom(("uninit",))))

    def np_zeros(self, pos, kw, t):
        return self._filled(self.ev(pos[0]), const(0))

    def np_ones(self, pos, kw, t):
        return self._filled(self.ev(pos[0]), const(1))

    def np_full(self, pos, kw, t):
        return self._filled(self.ev(pos[0]), self.ev(pos[1] if len(pos) > 1 else kw["fill_value"]))

    def _filled(self, d, v):
        dims = [scalar(x) for x in self.items(d)] if isinstance(d, (Seq, Arr)) else [scalar(d)]
        return Arr(dims, lambda ix: v)

    def np_append(self, pos, kw, t):
        if len(pos) > 2 or kw.get("axis") is not None:
            raise Unknown("append along an axis")
        return self.concat([self.arr(self.ev(x)) for x in pos[:2]])

    def np_concatenate(self, pos, kw, t):
        return self.concat([self.arr(x) for x in self.items(self.ev(pos[0]))])

    def concat(self, xs, tag=None):
        pv = []
        seq = []
        for x in xs:
            if len(x.shape) == 0:
                v = x.fn(())
                pv.append((Part(("item", key(v))), v))
                seq.append(v)
                continue
            if len(x.shape) != 1:
                raise Unknown("concatenation of matrices")
            d = x.shape[0]
            if isinstance(d, Ax):
                if d.parts:
                    seq = None
                for k, p in enumerate(d.parts):
                    pv.append((p, x.fn(((k, p),))))
            elif d.is_const():
                for k in range(int(d.cval()[0])):
                    v = x.fn((const(k),))
                    pv.append((Part(("item", key(v))), v))
                    if seq is not None:
                        seq.append(v)
            else:
                seq = None
                v = var(0, d)
                pv.append((Part(("range", d)), x.fn((v,))))
            if seq is not None and isinstance(d, Ax):
                pass
        if seq is not None and tag is None and seq:
            return Seq(seq)
        return coll(pv, (tag,) if tag else ())

    def np_unique(self, pos, kw, t):
        x = self.arr(self.ev(pos[0]))
        d = x.shape[0] if len(x.shape) == 1 else None
        if not kw and len(pos) == 1:
            vals = [v for _, v, _ in x.gen()]
            labs = {nf._ATOMS[i].key[1] for v in vals if isinstance(v, Poly) for m in v.t for i, _ in m if nf._ATOMS[i].key[0] == "label"}
            if len(labs) == 1 and all(isinstance(v, Poly) and len(v.t) == 1 and v.mono() and len(v.mono()[0]) == 1 for v in vals):
                # the labels of the components
                return Arr((poly(atom(("components", next(iter(labs))))),), lambda ix: ix[0])
        if set(kw) == {"return_index"} and len(pos) == 1 and is_const(kw["return_index"]) and cval(kw["return_index"]) is True and isinstance(d, Ax):
            # one element is kept for each value
            f = ("atom", ("first", x.key()))
            ax = Ax([Part(p.src, f_and(p.cond, f), p.data) for p in d.parts], ("unique", x.key()))
            return Seq([Arr((ax,), x.fn), Arr((ax,), lambda ix: ("at", ix[0], d.key))])
        if kw or len(pos) > 1:
            return self.opaque(t)
        if not isinstance(d, Ax):
            x = self.concat([x], "sorted")
            d = x.shape[0]
        return Arr((Ax(d.parts, ("unique",)),), lambda ix: x.fn(ix))

    def np_sort(self, pos, kw, t):
        return self.np_unique(pos[:1], {}, t)

    def np_flatnonzero(self, pos, kw, t):
        m = self.arr(self.ev(pos[0]))
        if len(m.shape) != 1:
            m = self.flatten(m, "C")
        return self.where(m)

    def where(self, m):
        d = m.shape[0]
        src = getattr(m, "flat", None)
        pv = []
        if isinstance(d, Ax):
            if src is None:
                raise Unknown("positions in a collection")
            for k, p in enumerate(d.parts):
                c = self.formula(m.fn(((k, p),)))
                pv.append((Part(p.src, f_and(p.cond, c), p.data), linear(list(p.data), [self.length(x) for x in src[0]], src[1])))
        else:
            v = var(0, d)
            pv.append((Part(("range", d), self.formula(m.fn((v,)))), v))
        return coll(pv)

    def flatten(self, a, order):
        if len(a.shape) <= 1:
            return a
        if order not in ("C", "F"):
            raise Unknown("order")
        big = [k for k, d in enumerate(a.shape) if not one(d)]
        if len(big) == 1:
            k0 = big[0]
            return Arr((a.shape[k0],), lambda ix: a.fn(tuple(ix[0] if k == k0 else const(0) for k in range(len(a.shape)))))
        todo = [((), (), True)]
        for k, d in enumerate(a.shape):
            if isinstance(d, Ax):
                todo = [(ix + ((i, p),), s + (p.key,), f_and(c, p.cond)) for ix, s, c in todo for i, p in enumerate(d.parts)]
            elif one(d):
                todo = [(ix + (const(0),), s, c) for ix, s, c in todo]
            else:
                todo = [(ix + (var(k, d),), s + (("range", k, d.key()),), c) for ix, s, c in todo]
        parts = [Part(("flat", order, s), c, ix) for ix, s, c in todo]
        out = Arr((Ax(parts),), lambda ix: a.fn(todo[ix[0][0]][0]))
        out.flat = (a.shape, order)
        return out

    def np_ravel(self, pos, kw, t):
        return self.flatten(self.arr(self.ev(pos[0])), self.order(pos, kw, 1))

    def np_reshape(self, pos, kw, t):
        b = self.arr(self.ev(pos[0]))
        d = self.ev(pos[1])
        dims = [scalar(x) for x in self.items(d)] if isinstance(d, (Seq, Arr)) else [scalar(d)]
        if len(dims) == 1 and key(dims[0]) == key(const(-1)):
            return self.flatten(b, self.order(pos, kw, 2))
        if len(b.shape) == 1 and isinstance(b.shape[0], Poly):
            o = self.order(pos, kw, 2)
            return Arr(dims, lambda ix: b.fn((linear(list(ix), dims, o),)))
        raise Unknown("reshape")

    # reductions
    def reduce(self, kind, x, ax):
        x = self.arr(x)
        if ax is None:
            ax = list(range(len(x.shape)))
        ax = [k % len(x.shape) for k in (ax if isinstance(ax, list) else [ax])] if x.shape else []
        keep = [k for k in range(len(x.shape)) if k not in ax]

        def fn(ix):
            def rec(k, cur):
                if k == len(x.shape):
                    return [(x.fn(cur), True, ())]
                if k in keep:
                    return rec(k + 1, cur + (ix[keep.index(k)],))
                d = x.shape[k]
                if isinstance(d, Ax):
                    return [(v, f_and(p.cond, c), (p.key,) + b) for i, p in enumerate(d.parts) for v, c, b in rec(k + 1, cur + ((i, p),))]
                if d.is_const():
                    return [r for i in range(int(d.cval()[0])) for r in rec(k + 1, cur + (const(i),))]
                return [(v, c, (("range", k, d.key()),) + b) for v, c, b in rec(k + 1, cur + (var(k, d),))]
            rs = rec(0, ())
            return _reduce(kind, rs)
        return self.out(Arr([x.shape[k] for k in keep], fn))

    def _red(self, kind, pos, kw):
        if len(pos) > 1 and kind in ("min", "max") and "axis" not in kw and not _small(pos[1]):
            return _reduce(kind, [(scalar(self.ev(x)), True, ()) for x in pos])
        return self.reduce(kind, self.ev(pos[0] if pos else kw["a"]), self.axis(pos, kw, 1))

    def np_min(self, pos, kw, t):
        return self._red("min", pos, kw)

    def np_max(self, pos, kw, t):
        return self._red("max", pos, kw)

    np_amin, np_amax = np_min, np_max

    def np_sum(self, pos, kw, t):
        return self._red("sum", pos, kw)

    def np_prod(self, pos, kw, t):
        return self._red("prod", pos, kw)

    def np_all(self, pos, kw, t):
        return self._red("all", pos, kw)

    def np_any(self, pos, kw, t):
        return self._red("any", pos, kw)

    def np_count_nonzero(self, pos, kw, t):
        return self._red("count", pos, kw)

    def np_cumsum(self, pos, kw, t):
        out, cur = [], const(0)
        for x in self.items(self.ev(pos[0])):
            cur = add(cur, scalar(x))
            out.append(cur)
        return Seq(out)

    def np_minimum(self, pos, kw, t):
        return self.zipw(lambda p, q: _reduce("min", [(p, True, ()), (q, True, ())]), *[self.ev(x) for x in pos[:2]])

    def np_maximum(self, pos, kw, t):
        return self.zipw(lambda p, q: _reduce("max", [(p, True, ()), (q, True, ())]), *[self.ev(x) for x in pos[:2]])

    def np_abs(self, pos, kw, t):
        return self.zipw(lambda p: _abs(scalar(p)), self.ev(pos[0]))

    np_absolute = np_abs

    def np_rint(self, pos, kw, t):
        return self.zipw(lambda p: poly(atom(("rint", scalar(p).key()))), self.ev(pos[0]))

    np_round = np_around = np_rint

    def np_floor(self, pos, kw, t):
        return self.zipw(lambda p: poly(atom(("floor", scalar(p).key()))), self.ev(pos[0]))

    def np_ceil(self, pos, kw, t):
        return self.zipw(lambda p: poly(atom(("ceil", scalar(p).key()))), self.ev(pos[0]))

    def np_logical_and(self, pos, kw, t):
        return self.zipw(f_and, *[self.ev(x) for x in pos[:2]])

    def np_logical_or(self, pos, kw, t):
        return self.zipw(f_or, *[self.ev(x) for x in pos[:2]])

    def np_logical_not(self, pos, kw, t):
        return self.zipw(f_not, self.ev(pos[0]))

    def np_add(self, pos, kw, t):
        return self.binop("+", self.ev(pos[0]), self.ev(pos[1]))

    def np_subtract(self, pos, kw, t):
        return self.binop("-", self.ev(pos[0]), self.ev(pos[1]))

    def np_multiply(self, pos, kw, t):
        return self.binop("*", self.ev(pos[0]), self.ev(pos[1]))

    def np_divide(self, pos, kw, t):
        return self.binop("/", self.ev(pos[0]), self.ev(pos[1]))

    def np_repeat(self, pos, kw, t):
        x, n = self.ev(pos[0]), self.ev(pos[1])
        if isinstance(x, Poly):
            n = scalar(n)
            return Arr((self.axes.get(n.key(), n),), lambda ix: x)
        return None

    def np_permutation(self, pos, kw, t):
        """The elements of a collection in another order (positions, if a length is given)."""
        x = self.ev(pos[0])
        if isinstance(x, Arr) and len(x.shape) == 1 and isinstance(x.shape[0], Ax):
            return Arr((Ax(x.shape[0].parts, ("perm", t.cid)),), x.fn)
        d = self.axes.get(key(x))
        if d is None:
            return None
        return Arr((Ax(d.parts, ("perm", t.cid)),), lambda ix: ("at", ix[0], d.key))

    def np_zip(self, pos, kw, t):
        its = [self.items(self.ev(x)) for x in pos]
        return Seq([Seq(x) for x in zip(*its)])

    def np_roll(self, pos, kw, t):
        return None

    # ------------------------------------------------------------ sparse matrices

    def sparse(self, pos, kw):
        a = self.ev(pos[0])
        shape = kw.get("shape") or (pos[1] if len(pos) > 1 else None)
        dims = None if shape is None else [scalar(x) for x in self.items(self.ev(shape))]
        if isinstance(a, Set):
            return a
        if not isinstance(a, Seq):
            raise Unknown("matrix")
        its = a.items
        if len(its) == 2 and isinstance(its[1], Seq) and len(its[1].items) == 2:
            data = self.arr(its[0])
            row, col = [self.arr(x) for x in its[1].items]
            return Set(self.triples(data, row, col), dims)
        if len(its) == 2 and all(isinstance(x, Poly) for x in its):
            return Set([], its)
        raise Unknown("matrix")

    def triples(self, data, row, col):
        d = row.shape[0]
        if not dim_eq(d, col.shape[0]):
            raise Unknown("rows and columns of different lengths")
        cst = data.shape and isinstance(data.shape[0], Poly)
        out = []
        if isinstance(d, Ax):
            for k, p in enumerate(d.parts):
                v = data.fn((var(0, data.shape[0]),)) if cst and not dim_eq(data.shape[0], d) else data.fn(((k, p),))
                out.append((row.fn(((k, p),)), col.fn(((k, p),)), v, p.cond))
        else:
            v = var(0, d)
            out.append((row.fn((v,)), col.fn((v,)), data.fn((v,)), True))
        return out


def _range(t):
    """Range from zero."""
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.range", "numpy.arange") and len(t.args[1]) == 1


def _small(t):
    """A constant axis."""
    return is_const(t) and (cval(t) is None or isinstance(cval(t), int) and abs(cval(t)) < 4) or t.op == "tuple"


def _abs(p):
    n = neg(p)
    if p.is_const():
        return p if p.cval()[0] >= 0 else n
    q = min((p, n), key=lambda x: repr(x.key()))
    a = atom(("abs", q.key()))
    ABS[a.id] = q
    return poly(a)


ABS = {}


def _reduce(kind, rs):
    """rs: [(value, condition, bound variables)]."""
    if kind == "all":
        return f_and(*[("all", (b, c), v) if b else v for v, c, b in rs])
    if kind == "any":
        return f_or(*[("any", (b, c), v) if b else v for v, c, b in rs])
    if kind in ("count", "sum") and rs and all(not b and is_f(v) for v, c, b in rs):
        return add(const(0), *[indicator(f_and(v, c)) for v, c, b in rs])
    if kind in ("count", "sum") and rs and all(is_f(v) for v, c, b in rs):
        for v, c, b in rs:
            IND[key(v)] = v
        kind = "count"
    if kind == "count":
        return poly(atom(("count", tuple(sorted(((key(v), key(c), b) for v, c, b in rs), key=repr)))))
    if kind == "sum":
        return add(const(0), *[scalar(v) if not b else poly(atom(("sum", scalar(v).key(), key(c), b))) for v, c, b in rs])
    if kind == "prod":
        return mul(*[scalar(v) if not b else poly(atom(("prod", scalar(v).key(), key(c), b))) for v, c, b in rs])
    inf = nf.atom(("ext", "numpy.inf"))
    vals = {}
    for v, c, b in rs:
        v = scalar(v)
        m = v.mono()
        if m and m[0] == ((inf.id, 1),):
            if (m[1][0] > 0) == (kind == "min"):
                continue
        # nested reductions
        if m and len(m[0]) == 1 and m[0][0][1] == 1 and m[1] == nf.C1 and nf._ATOMS[m[0][0][0]].key[0] == kind:
            for x in nf._ATOMS[m[0][0][0]].key[1]:
                vals[repr(x)] = x
            continue
        x = (v.key(), key(c), b)
        vals[repr(x)] = x
        last = v
    if not vals:
        raise Unknown("reduction of an empty array")
    if POSITIVE and all(x[1] is True and x[2] == () for x in vals.values()):
        live = {k: unkey(x[0]) for k, x in vals.items()}
        for k, v in list(live.items()):
            if any(j != k and positive(sub(w, v) if kind == "max" else sub(v, w)) for j, w in live.items()):
                del live[k]
        vals = {k: vals[k] for k in live}
        last = next(iter(live.values()))
    if len(vals) == 1 and next(iter(vals.values()))[2] == () and next(iter(vals.values()))[1] is True:
        return last
    return poly(atom((kind, tuple(vals[k] for k in sorted(vals)))))


POSITIVE = set()


def unkey(k):
    """Polynomial of a key."""
    p = const(0)
    for mono, c in k[1]:
        x = const(c[0]) if not c[1] else None
        if x is None:
            raise Unknown("complex value")
        for n, e in mono:
            x = mul(x, nf.power(poly(nf._ATOMS[n]), e))
        p = add(p, x)
    return p


def positive(p):
    """The polynomial has positive terms only."""
    return bool(p.t) and all(c[0] > 0 and not c[1] and all(nf._ATOMS[n].key[0] == "sym" and nf._ATOMS[n].key[1] in POSITIVE for n, _ in m) for m, c in p.t.items())


def linear(ix, dims, order):
    out, s = const(0), const(1)
    ks = range(len(ix)) if order == "F" else reversed(range(len(ix)))
    if order not in ("C", "F"):
        raise Unknown("order")
    for k in ks:
        out = add(out, mul(s, ix[k]))
        s = mul(s, dims[k])
    return out


def _lvs(t):
    from sa.term import walk
    return [x for x in walk(t) if x.op == "lv"]


def _same(a, b):
    return isinstance(a, T) and isinstance(b, T) and a.cid == b.cid


def _appends(body, lv):
    """The body is the previous value with appended elements."""
    t = body
    while True:
        if t.cid == lv.cid:
            return True
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.append", "numpy.hstack", "numpy.concatenate") and t.args[1]:
            x = t.args[1][0]
            t = x.args[0][0] if x.op in ("tuple", "list") and x.args[0] else x
            continue
        return False
