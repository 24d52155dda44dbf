"""Arrays of the voxel grid evaluated at a generic voxel (i, j, k), as Laurent polynomials over function atoms.

Used for the kernels of the long-range operators: every entry is a function of the distance between the voxels. The
lengths d*(i+c) are kept as variables (one per axis and offset c), such that an integral between two voxels appears as a
sum of one primitive at shifted arguments."""

import itertools
from fractions import Fraction

from sa.term import is_const, cval

AX = {"dx": 0, "dy": 1, "dz": 2}
SIZE = {"nx": 0, "ny": 1, "nz": 2}


class Unparsed(Exception):
    pass


class Mismatch(Exception):
    """The arrays do not fit together: (text, term)."""


# ---------------------------------------------------------------- polynomials

_KEYS, _IDS = [], {}


def atom_id(key):
    if key not in _IDS:
        _IDS[key] = len(_KEYS)
        _KEYS.append(key)
    return _IDS[key]


def key_of(i):
    return _KEYS[i]


class P:
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = {m: k for m, k in t.items() if k}
        self.h = None

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.t:
            return Fraction(0)
        return self.t.get(()) if len(self.t) == 1 else None


def num(k):
    return P({(): Fraction(k)})


def at(*key):
    return P({((atom_id(key), 1),): Fraction(1)})


ZERO, ONE = num(0), num(1)


def padd(a, b):
    if not a.t or not b.t:
        return b if not a.t else a
    t = dict(a.t)
    for m, k in b.t.items():
        t[m] = t.get(m, 0) + k
    return _line(P(t))


def _mm(m, n):
    if not m or not n:
        return m or n
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(a, b):
    t = {}
    for m, k in a.t.items():
        for n, l in b.t.items():
            x = _mm(m, n)
            t[x] = t.get(x, 0) + k * l
    return _line(_roots(P(t)))


def _roots(p):
    """sqrt(P)^2 = P"""
    if not any(e > 1 and _KEYS[a][0] == "sqrt" for m in p.t for a, e in m):
        return p
    r = ZERO
    for m, k in p.t.items():
        f = P({tuple((a, e % 2 if e > 1 and _KEYS[a][0] == "sqrt" else e) for a, e in m if not (e > 1 and e % 2 == 0 and _KEYS[a][0] == "sqrt")): k})
        for a, e in m:
            if e > 1 and _KEYS[a][0] == "sqrt":
                for _ in range(e // 2):
                    f = pmul(f, P(dict(_KEYS[a][1])))
        r = padd(r, f)
    return r


def _line(p):
    """d*(i+c) is one variable."""
    if not 1 <= len(p.t) <= 2:
        return p
    idx = None
    for m in p.t:
        for a, e in m:
            if _KEYS[a][0] == "i" and e == 1:
                idx = _KEYS[a][1]
    if idx is None:
        return p
    d = atom_id(("s", ("dx", "dy", "dz")[idx]))
    i = atom_id(("i", idx))
    top, low = tuple(sorted(((d, 1), (i, 1)))), ((d, 1),)
    if top not in p.t or any(m not in (top, low) for m in p.t):
        # further factors: q * d * i
        if len(p.t) == 1:
            (m, k), = p.t.items()
            e = dict(m)
            if e.get(i) == 1 and e.get(d, 0) >= 1:
                e[d] -= 1
                del e[i]
                return pmul(P({tuple(sorted((a, x) for a, x in e.items() if x)): k}), at("lin", idx, Fraction(0)))
        return p
    k = p.t[top]
    return P({((atom_id(("lin", idx, p.t.get(low, Fraction(0)) / k)), 1),): k})


def pinv(p):
    if not p.t:
        return at("inv", ())
    if len(p.t) == 1:
        (m, k), = p.t.items()
        return P({tuple((a, -e) for a, e in m): 1 / k})
    return at("inv", p.key())


def ppow(p, e):
    if e == Fraction(1, 2):
        return psqrt(p)
    if e.denominator != 1:
        raise Unparsed("fractional power")
    if e < 0:
        return pinv(ppow(p, -e))
    r = ONE
    for _ in range(int(e)):
        r = pmul(r, p)
    return r


def psqrt(p):
    if p.const() is not None and p.const() in (0, 1):
        return p
    return at("sqrt", p.key())


def show(p):
    def mono(m):
        return "*".join(_show(_KEYS[a]) + (f"^{e}" if e != 1 else "") for a, e in m)
    return " + ".join((f"{k}*" if k != 1 else "") + (mono(m) or "1") for m, k in sorted(p.t.items())) or "0"


def _show(k):
    if k[0] in ("s", "v"):
        return str(k[1])
    if k[0] == "i":
        return "ijk"[k[1]]
    if k[0] == "lin":
        return f"d{'xyz'[k[1]]}*({'ijk'[k[1]]}{'+' + str(k[2]) if k[2] > 0 else k[2] if k[2] else ''})"
    if len(k) > 1 and isinstance(k[1], tuple) and k[0] in ("sqrt", "inv", "log", "atan"):
        return f"{k[0]}({show(P(dict(k[1])))})"
    return str(k[0])


def atoms(p, deep=True):
    seen, stack = set(), [p]
    while stack:
        q = stack.pop()
        for m in q.t:
            for a, _ in m:
                if a not in seen:
                    seen.add(a)
                    k = _KEYS[a]
                    if deep and k[0] in ("sqrt", "inv", "log", "atan"):
                        stack.append(P(dict(k[1])))
    return seen


def rename(p, f):
    """Replace atoms: f(key) gives a polynomial or None."""
    r = ZERO
    for m, k in p.t.items():
        x = P({(): k})
        for a, e in m:
            key = _KEYS[a]
            q = f(key)
            if q is None and key[0] in ("sqrt", "inv", "log", "atan"):
                s = rename(P(dict(key[1])), f)
                q = psqrt(s) if key[0] == "sqrt" else pinv(s) if key[0] == "inv" else at(key[0], s.key())
            if q is None:
                q = P({((a, 1),): Fraction(1)})
            x = pmul(x, ppow(q, Fraction(e)))
        r = padd(r, x)
    return r


# ---------------------------------------------------------------- conditions and piecewise values

class Cond:
    """Comparison p op q of a generic voxel, or a test for finite values."""

    def __init__(self, op, p, q=None, neg=False):
        self.op, self.p, self.q, self.neg = op, p, q, neg

    def key(self):
        return (self.op, self.p, self.q, self.neg)

    def inv(self):
        return Cond(self.op, self.p, self.q, not self.neg)


class PW:
    """Piecewise value: [(condition, value)], the last valid one holds; None: not yet set."""

    def __init__(self, parts):
        self.parts = parts


class Arr:
    """dims: "v" (voxels), ("g", perm) (grid axes), or integers; vals: values of the integer axes (row-major)."""

    def __init__(self, dims, vals, mask=None, order="F", perm=(0, 1, 2)):
        self.dims, self.vals, self.mask, self.order, self.perm = tuple(dims), list(vals), mask, order, None if perm is None else tuple(perm)

    def ints(self):
        return [d for d in self.dims if isinstance(d, int)]

    def vox(self):
        return [d for d in self.dims if not isinstance(d, int)]

    def like(self, vals, dims=None):
        return Arr(self.dims if dims is None else dims, vals, self.mask, self.order, self.perm)


def scalar(p):
    return Arr((), [p])


def _prod(x):
    r = 1
    for y in x:
        r *= y
    return r


def _pos(ints, idx):
    r = 0
    for n, i in zip(ints, idx):
        r = r * n + i
    return r


class Flat:
    """(voxels x columns) array flattened in column-major (or row-major) order."""

    def __init__(self, arr, order):
        self.arr, self.order = arr, order


class Axis:
    """Range of the indices of an axis."""

    def __init__(self, ax):
        self.ax = ax


class Eval:
    def __init__(self, safe=None, env=None):
        self.memo = {}
        self.safe = set() if safe is None else safe
        self.env = env or {}

    def ev(self, t):
        if t.cid not in self.memo:
            self.memo[t.cid] = self.compute(t)
        return self.memo[t.cid]

    # -------------------------------------------------------- helpers

    def arr(self, t):
        v = self.ev(t)
        if isinstance(v, Arr):
            return v
        if isinstance(v, tuple):
            return self.stack([x if isinstance(x, Arr) else self._tup(x) for x in v], 0)
        raise Unparsed(f"{type(v).__name__}: {str(t)[:100]}")

    def _tup(self, x):
        if isinstance(x, tuple):
            return self.stack([y if isinstance(y, Arr) else self._tup(y) for y in x], 0)
        raise Unparsed("list of other objects")

    def sc(self, t):
        a = self.arr(t)
        if a.dims and _prod(a.ints()) * (0 if a.vox() else 1) != 1:
            raise Unparsed("not a scalar")
        return a.vals[0]

    def const(self, t):
        p = self.sc(t)
        k = p.const() if isinstance(p, P) else None
        if k is None:
            raise Unparsed(f"not a number: {str(t)[:80]}")
        return k

    def map(self, f, *arrs):
        """Elementwise function with broadcasting."""
        n = max(len(a.dims) for a in arrs)
        full = [(1,) * (n - len(a.dims)) + a.dims for a in arrs]
        dims, ref = [], None
        for k in range(n):
            ds = {x[k] for x in full if x[k] != 1}
            if len(ds) > 1:
                raise Unparsed(f"shapes {[a.dims for a in arrs]}")
            dims.append(ds.pop() if ds else 1)
        masks = {}
        for a in arrs:
            if a.vox():
                masks[None if a.mask is None else a.mask.key()] = a
                ref = a
        if len(masks) > 1:
            raise Mismatch("arrays of different selections of voxels are combined")
        perms = {a.perm for a in arrs if a.vox() and a.perm is not None}
        if len(perms) > 1:
            raise Mismatch("arrays with different orders of the voxels are combined")
        ints = [d for d in dims if isinstance(d, int)]
        out = []
        for idx in itertools.product(*[range(d) for d in ints]):
            args = []
            for a, fd in zip(arrs, full):
                j, it = [], iter(idx)
                for k, d in enumerate(dims):
                    if isinstance(d, int):
                        i = next(it)
                        if isinstance(fd[k], int):
                            j.append(0 if fd[k] == 1 else i)
                    elif fd[k] == 1:
                        j.append(0)
                args.append(a.vals[_pos([x for x in fd if isinstance(x, int)], j)])
            out.append(lift(f, args))
        r = ref or arrs[0]
        return Arr(dims, out, r.mask, r.order, perms.pop() if perms else r.perm)

    def stack(self, arrs, axis):
        n = len(arrs[0].dims) + 1
        axis = axis % n
        a0 = arrs[0]
        if any(a.dims != a0.dims for a in arrs):
            raise Unparsed("stack of different shapes")
        if any(a.perm != a0.perm for a in arrs if a.vox()):
            raise Mismatch("arrays with different orders of the voxels are combined")
        dims = a0.dims[:axis] + (len(arrs),) + a0.dims[axis:]
        k = len([d for d in a0.dims[:axis] if isinstance(d, int)])
        ints = a0.ints()
        vals = [arrs[i[k]].vals[_pos(ints, i[:k] + i[k + 1:])] for i in itertools.product(*[range(d) for d in dims if isinstance(d, int)])]
        return Arr(dims, vals, a0.mask, a0.order, a0.perm)

    # -------------------------------------------------------- terms

    def compute(self, t):
        op = t.op
        if op == "const":
            k = cval(t)
            if isinstance(k, bool) or k is None or isinstance(k, str):
                return t
            if isinstance(k, (int, float)):
                return scalar(num(Fraction(k)))
            if isinstance(k, tuple) and all(isinstance(x, (int, float)) for x in k):
                return tuple(scalar(num(Fraction(x))) for x in k)
            raise Unparsed(f"constant {k}")
        if op == "sym":
            return scalar(at("s", t.args[0]))
        if op == "ext":
            return scalar(at("s", "pi" if t.args[0] in ("numpy.pi", "scipy.constants.pi", "math.pi") else t.args[0]))
        if op in ("list", "tuple"):
            return tuple(self.ev(x) for x in t.args[0])
        if op == "elem":
            if t.args[0].cid in self.env:
                return self.env[t.args[0].cid]
            raise Unparsed("element")
        if op == "map":
            src = self.ev(t.args[0])
            if not isinstance(src, tuple):
                src = [self.take(src, 0, [k], True) for k in range(src.dims[0])] if isinstance(src, Arr) and src.dims and isinstance(src.dims[0], int) else None
            if src is None:
                raise Unparsed("elements of an array")
            return tuple(Eval(self.safe, {**self.env, t.args[0].cid: x}).ev(t.args[1]) for x in src)
        if op == "bin":
            return self.bin(t.args[0], t.args[1], t.args[2])
        if op == "un":
            if t.args[0] == "-":
                return self.map(lambda x: pmul(num(-1), x), self.arr(t.args[1]))
            if t.args[0] == "+":
                return self.ev(t.args[1])
            if t.args[0] in ("~", "not"):
                return self.map(lambda x: x.inv(), self.arr(t.args[1]))
        if op == "cmp" and t.args[0] in ("<", "<=", ">", ">="):
            o, a, b = t.args
            if o in (">", ">="):
                o, a, b = "<" if o == ">" else "<=", b, a
            return self.map(lambda x, y: Cond(o, x, y), self.arr(a), self.arr(b))
        if op == "cmp" and t.args[0] in ("==", "!="):
            def same(x, y):
                if x.const() is not None and y.const() is not None:
                    return Cond("is", num(x.const() == y.const()), None, False)
                if y.const() == 0 or x.const() == 0:
                    return Cond("zero", y if x.const() == 0 else x, None)
                raise Unparsed("comparison")
            r = self.map(same, self.arr(t.args[1]), self.arr(t.args[2]))
            return r if t.args[0] == "==" else self.map(lambda x: x.inv(), r)
        if op == "phi":
            return self.phi(t)
        if op == "item":
            return self.item(t)
        if op == "setitem":
            return self.setitem(t)
        if op == "attr":
            if t.args[1] == "T":
                return self.transpose(self.arr(t.args[0]))
            if t.args[1] in ("real",):
                return self.ev(t.args[0])
        if op == "call":
            return self.call(t)
        raise Unparsed(f"{op}: {str(t)[:100]}")

    def phi(self, t):
        c, a, b = t.args
        if c.op == "cmp" and c.args[0] in ("==", "!=", ">", "<", "<=", ">="):
            o, x, y = c.args
            if is_const(x):
                x, y = y, x
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if is_const(y) and cval(y) == 0 and self.length(x) is not None:
                # an array with a generic element is not empty
                return self.ev(b if o in ("==", "<=") else a)
        raise Unparsed(f"condition {str(c)[:100]}")

    def length(self, t):
        x = None
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.len", "numpy.size"):
            x = t.args[1][0]
        elif t.op == "attr" and t.args[1] == "size":
            x = t.args[0]
        elif t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and cval(t.args[1]) == 0:
            x = t.args[0].args[0]
        if x is None:
            return None
        v = self.arr(x)
        return v if v.vox() or (v.dims and v.dims[0]) else None

    def bin(self, op, a, b):
        x, y = self.arr(a), self.arr(b)
        if op == "+":
            return self.map(padd, x, y)
        if op == "-":
            return self.map(lambda p, q: padd(p, pmul(num(-1), q)), x, y)
        if op == "*":
            return self.map(pmul, x, y)
        if op == "/":
            return self.map(lambda p, q: pmul(p, pinv(q)), x, y)
        if op == "**":
            def power(p, q):
                if q.const() is None:
                    raise Unparsed("power")
                return ppow(p, q.const())
            return self.map(power, x, y)
        if op in ("|", "&"):
            return self.map(lambda p, q: both(p, q), x, y)
        if op == "@":
            return self.dot(x, y)
        if op in ("%", "//"):
            def whole(p, q):
                if p.const() is None or not q.const():
                    raise Unparsed("remainder")
                return num(p.const() % q.const() if op == "%" else p.const() // q.const())
            return self.map(whole, x, y)
        raise Unparsed(f"operator {op}")

    def dot(self, a, b):
        """Product over the last axis of a and the first axis of b."""
        if not a.dims or not b.dims or len(b.dims) > 1 and b.vox() or not isinstance(a.dims[-1], int) or a.dims[-1] != b.dims[0]:
            raise Unparsed("product of matrices")
        if len(b.dims) == 1:
            return self.reduce(self.map(pmul, a, b), -1, padd)
        if len(b.dims) == 2:
            cols = [self.reduce(self.map(pmul, a, self.take(b, 1, [k], True)), -1, padd) for k in range(b.dims[1])]
            return self.stack(cols, -1)
        raise Unparsed("product of matrices")

    def transpose(self, a):
        if len(a.dims) < 2:
            return a
        if len(a.dims) == 2 and len(a.ints()) == 1:
            return a.like(a.vals, a.dims[::-1])
        if len(a.dims) == 2 and len(a.ints()) == 2:
            n, m = a.dims
            return a.like([a.vals[i * m + j] for j in range(m) for i in range(n)], (m, n))
        raise Unparsed("transpose")

    def index(self, t):
        """Parts of an index."""
        if t.op == "tuple":
            return list(t.args[0])
        if is_const(t) and isinstance(cval(t), tuple):
            raise Unparsed("constant tuple index")
        return [t]

    def item(self, t):
        base, idx = self.ev(t.args[0]), t.args[1]
        if isinstance(base, tuple):
            if is_const(idx) and isinstance(cval(idx), int):
                return base[cval(idx)]
            base = self.arr(t.args[0])
        if not isinstance(base, Arr):
            raise Unparsed("item of " + type(base).__name__)
        cur, dim = base, 0
        for p in self.index(idx):
            if p.op == "slice" and all(is_const(x) and cval(x) is None for x in p.args):
                dim += 1
                continue
            if is_const(p) and cval(p) is None:
                cur = cur.like(cur.vals, cur.dims[:dim] + (1,) + cur.dims[dim:])
                dim += 1
                continue
            if is_const(p) and isinstance(cval(p), int):
                cur = self.take(cur, dim, [cval(p)], True)
                continue
            v = self.ev(p)
            if isinstance(v, Arr) and v.vox() and isinstance(v.vals[0], Cond):
                if dim >= len(cur.dims) or isinstance(cur.dims[dim], int) or cur.mask is not None:
                    raise Unparsed("mask")
                cur = Arr(cur.dims, cur.vals, v.vals[0], cur.order, cur.perm)
                dim += 1
                continue
            lst = [x for x in (self.arr(p).vals)] if isinstance(v, (tuple, Arr)) else None
            if lst is None or any(not isinstance(x, P) or x.const() is None for x in lst):
                raise Unparsed("index")
            cur = self.take(cur, dim, [int(x.const()) for x in lst], False)
            dim += 1
        return cur

    def take(self, a, dim, idx, drop):
        if dim >= len(a.dims) or not isinstance(a.dims[dim], int):
            raise Unparsed("index of the voxels")
        k = len([d for d in a.dims[:dim] if isinstance(d, int)])
        ints = a.ints()
        n = ints[k]
        new = ints[:k] + [len(idx)] + ints[k + 1:]
        vals = []
        for i in itertools.product(*[range(d) for d in new]):
            j = list(i)
            j[k] = idx[i[k]] % n if -n <= idx[i[k]] < n else None
            if j[k] is None:
                raise Mismatch("index out of range")
            vals.append(a.vals[_pos(ints, j)])
        dims = a.dims[:dim] + (() if drop else (len(idx),)) + a.dims[dim + 1:]
        return a.like(vals, dims)

    def setitem(self, t):
        base, val = self.arr(t.args[0]), None
        parts = self.index(t.args[1])
        # replacement of values which are not finite
        if len(parts) == 1:
            try:
                m = self.arr(parts[0])
            except Unparsed:
                m = None
            if m is not None and m.vals and all(isinstance(c, Cond) and c.op == "bad" for c in m.vals):
                val = self.arr(t.args[2])
                if not all(isinstance(v, P) and v.const() == 0 for v in val.vals):
                    raise Unparsed("replacement of values which are not finite")
                if m.dims != base.dims or any(c.p != b or c.neg for c, b in zip(m.vals, base.vals)):
                    raise Unparsed("mask of other values")
                for b, c in zip(base.vals, m.vals):
                    for k in c.q:
                        self.safe.add((b, k))
                return base
        val = self.arr(t.args[2])
        cond, col = None, None
        for p in parts:
            if p.op == "slice" and all(is_const(x) and cval(x) is None for x in p.args):
                continue
            if is_const(p) and isinstance(cval(p), int):
                col = cval(p)
                continue
            v = self.ev(p)
            if isinstance(v, Arr) and v.vox() and isinstance(v.vals[0], Cond):
                cond = v.vals[0]
                continue
            raise Unparsed("index of an assignment")
        if len(base.vox()) != 1 or base.dims[0] != "v":
            raise Unparsed("assignment to " + str(base.dims))
        if val.vox():
            mk = None if val.mask is None else val.mask.key()
            if mk != (None if cond is None else cond.key()):
                raise Mismatch("values of other voxels are assigned")
        ints = base.ints()
        if len(ints) > 1 or (col is None and ints and _prod(val.ints()) not in (1, _prod(ints))):
            raise Unparsed("assignment")
        out = list(base.vals)
        cols = range(_prod(ints)) if col is None else [col % ints[0]]
        for k, j in enumerate(cols):
            v = val.vals[k if len(val.vals) > 1 else 0]
            out[j] = v if cond is None else pw(out[j], cond, v)
        src = val if val.vox() else next((self.ev(p) for p in parts if isinstance(self.memo.get(p.cid), Arr) and self.memo[p.cid].vox()), None)
        perm = base.perm
        if src is not None and src.perm is not None:
            if perm is not None and perm != src.perm:
                raise Mismatch("arrays with different orders of the voxels are combined")
            perm = src.perm
        return Arr(base.dims, out, base.mask, base.order, perm)

    def call(self, t):
        f, pos, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        if f.op == "attr":
            return self.method(t, f.args[0], f.args[1], pos, kw)
        if f.op != "ext":
            raise Unparsed("call")
        n = f.args[0]
        if n in ("numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose"):
            return self.method(t, pos[0], n[6:], pos[1:], kw)
        if n in ("copy.deepcopy", "copy.copy", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.asfortranarray",
                 "numpy.float64", "numpy.int64", "builtins.float", "builtins.tuple", "builtins.list", "numpy.real"):
            if n.startswith("numpy.") and isinstance(self.ev(pos[0]), tuple):
                return self.arr(pos[0])
            return self.ev(pos[0])
        if n == "numpy.arange" or n == "builtins.range":
            args = [self.sc(x) for x in pos]
            ks = [x.const() for x in args]
            if all(k is not None for k in ks):
                vals = list(range(*[int(k) for k in ks]))
                return Arr((len(vals),), [num(v) for v in vals])
            if len(args) == 2 and ks[0] == 0:
                args = args[1:]
            for s, a in SIZE.items():
                if len(args) == 1 and args[0] == at("s", s):
                    return Axis(a)
            raise Unparsed("range")
        if n == "numpy.meshgrid":
            vs = self.spread(pos)
            ij = is_const(kw["indexing"]) and cval(kw["indexing"]) == "ij" if "indexing" in kw else False
            swap = [1, 0, 2] if not ij else [0, 1, 2]
            if all(isinstance(v, Axis) for v in vs) and len(vs) == 3:
                perm = tuple(vs[k].ax for k in swap)
                return tuple(Arr(("g",), [at("i", v.ax)], perm=perm) for v in vs)
            vs = [v if isinstance(v, Arr) else self._tup(v) for v in vs if not isinstance(v, Axis)]
            if len(vs) == 3 and all(len(v.dims) == 1 and not v.vox() for v in vs):
                dims = [len(vs[k].vals) for k in swap]
                res = []
                for k, v in enumerate(vs):
                    w = swap.index(k)
                    res.append(Arr(dims, [v.vals[i[w]] for i in itertools.product(*[range(d) for d in dims])]))
                return tuple(res)
            raise Unparsed("meshgrid")
        if n == "numpy.indices":
            return tuple(Arr(("g",), [at("i", a)], perm=(0, 1, 2)) for a in self.axes(pos[0]))
        if n == "numpy.unravel_index":
            ax = self.axes(pos[1])
            o = cval(kw["order"]) if "order" in kw else "C"
            nv = pmul(at("s", "nx"), pmul(at("s", "ny"), at("s", "nz")))
            x = pos[0]
            if not (x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "numpy.arange" and len(x.args[1]) == 1 and self.sc(x.args[1][0]) == nv):
                raise Unparsed("unravel_index")
            return tuple(Arr(("v",), [at("i", a)], perm=ax if o == "F" else ax[::-1]) for a in ax)
        if n == "numpy.take" and len(pos) == 2 and not kw:
            a = self.arr(pos[0])
            if len(a.dims) == 1:
                return self.take(a, 0, [int(x.const()) for x in self.arr(pos[1]).vals], not self.arr(pos[1]).dims)
            raise Unparsed("take")
        if n == "numpy.einsum" and len(pos) == 3 and is_const(pos[0]):
            a, b = self.arr(pos[1]), self.arr(pos[2])
            q = str(cval(pos[0])).replace(" ", "")
            if len(q) == 7 and q[2] == "," and q[4:6] == "->" and q[1] == q[3] and q[0] == q[6] and q[0] != q[1]:
                return self.dot(a, b)
            raise Unparsed("einsum")
        if n in ("numpy.stack", "numpy.column_stack", "numpy.vstack"):
            vs = self.ev(pos[0])
            ax = int(self.const(kw["axis"])) if "axis" in kw else int(self.const(pos[1])) if len(pos) > 1 else 0
            return self.stack(list(vs), 1 if n == "numpy.column_stack" else ax)
        if n in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full"):
            return self.fresh(n, pos, kw)
        if ("where" in kw or "out" in kw) and n.startswith("numpy."):
            return self.masked(n, pos, kw)
        if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide", "numpy.true_divide", "numpy.power"):
            return self.bin({"multiply": "*", "add": "+", "subtract": "-", "divide": "/", "true_divide": "/", "power": "**"}[n[6:]], pos[0], pos[1])
        if n == "numpy.negative":
            return self.map(lambda x: pmul(num(-1), x), self.arr(pos[0]))
        if n in ("numpy.square", "numpy.reciprocal"):
            return self.map((lambda x: pmul(x, x)) if n.endswith("square") else pinv, self.arr(pos[0]))
        if n in ("numpy.sqrt", "math.sqrt"):
            return self.map(psqrt, self.arr(pos[0]))
        if n == "numpy.log":
            return self.map(lambda x: at("log", x.key()), self.arr(pos[0]))
        if n == "numpy.arctan":
            return self.map(lambda x: at("atan", x.key()), self.arr(pos[0]))
        if n in ("numpy.linalg.norm", "scipy.linalg.norm"):
            a = self.arr(pos[0])
            ax = self.const(kw["axis"]) if "axis" in kw else self.const(pos[2]) if len(pos) > 2 else None
            if "ord" in kw:
                raise Unparsed("norm")
            return self.map(psqrt, self.reduce(self.map(lambda x: pmul(x, x), a), ax, padd))
        if n in ("numpy.sum", "numpy.prod", "builtins.sum", "math.prod", "builtins.math.prod"):
            a = self.arr(pos[0])
            ax = self.const(kw["axis"]) if "axis" in kw else self.const(pos[1]) if len(pos) > 1 and n.startswith("numpy") else None
            return self.reduce(a, ax, padd if n.endswith("sum") else pmul)
        if n in ("builtins.max", "numpy.max", "builtins.min", "numpy.min", "numpy.amax"):
            vals = self.arr(pos[0]).vals if len(pos) == 1 else [self.sc(x) for x in pos]
            return scalar(at("max" if n.endswith("max") else "min", tuple(sorted(v.key() for v in vals))))
        if n in ("numpy.isnan", "numpy.isinf", "numpy.isfinite"):
            ks = {"numpy.isnan": ("nan",), "numpy.isinf": ("inf",), "numpy.isfinite": ("nan", "inf")}[n]
            return self.map(lambda x: Cond("bad", x, ks, n == "numpy.isfinite"), self.arr(pos[0]))
        if n in ("numpy.invert", "numpy.logical_not"):
            return self.map(lambda x: x.inv(), self.arr(pos[0]))
        if n in ("numpy.logical_or", "numpy.logical_and"):
            return self.map(both, self.arr(pos[0]), self.arr(pos[1]))
        if n == "numpy.nan_to_num":
            a = self.arr(pos[0])
            if all(k in kw and self.const(kw[k]) == 0 for k in ("posinf", "neginf")) and ("nan" not in kw or self.const(kw["nan"]) == 0):
                for x in a.vals:
                    self.safe |= {(x, "nan"), (x, "inf")}
                return a
            raise Unparsed("nan_to_num")
        if n == "numpy.where" and len(pos) == 3:
            c, x, y = (self.arr(p) for p in pos)
            if all(isinstance(k, Cond) and k.op == "bad" for k in c.vals):
                good, zero = (x, y) if c.vals[0].neg else (y, x)
                if all(v.const() == 0 for v in zero.vals) and c.dims == good.dims and all(k.p == v for k, v in zip(c.vals, good.vals)):
                    for k, v in zip(c.vals, good.vals):
                        self.safe |= {(v, s) for s in k.q}
                    return good
                raise Unparsed("where")
            return self.map(self.choose, c, x, y)
        if n in ("numpy.dot", "numpy.matmul") and len(pos) == 2:
            return self.dot(self.arr(pos[0]), self.arr(pos[1]))
        if n in ("numpy.remainder", "numpy.mod", "numpy.floor_divide"):
            return self.bin("//" if n.endswith("divide") else "%", pos[0], pos[1])
        raise Unparsed(n)

    def axes(self, t):
        """Axes of the shape (nx, ny, nz)."""
        v = self.ev(t)
        names = [next((s for s in SIZE if isinstance(x, Arr) and x.vals[0] == at("s", s)), None) for x in v] if isinstance(v, tuple) else []
        if len(names) != 3 or set(names) != set(SIZE):
            raise Unparsed("shape")
        if names != ["nx", "ny", "nz"]:
            raise Unparsed("permuted shape")
        return tuple(SIZE[s] for s in names)

    def spread(self, pos):
        out = []
        for x in pos:
            if x.op == "star":
                v = self.ev(x.args[0])
                if not isinstance(v, tuple):
                    raise Unparsed("arguments")
                out += list(v)
            else:
                out.append(self.ev(x))
        return out

    def masked(self, n, pos, kw):
        """y = f(x) where a condition holds, zero elsewhere."""
        if set(kw) - {"where", "out", "dtype"} or "where" not in kw or "out" not in kw:
            raise Unparsed("arguments of " + n)
        o = kw["out"]
        if not (o.op == "call" and o.args[0].op == "ext" and o.args[0].args[0] in ("numpy.zeros_like", "numpy.zeros")):
            raise Unparsed("output array")
        c = self.arr(kw["where"])
        if n in ("numpy.divide", "numpy.true_divide"):
            v = self.bin("/", pos[0], pos[1])
        elif n == "numpy.log":
            v = self.map(lambda x: at("log", x.key()), self.arr(pos[0]))
        elif n == "numpy.reciprocal":
            v = self.map(pinv, self.arr(pos[0]))
        else:
            raise Unparsed(n)
        return self.map(self.choose, c, v, scalar(ZERO))

    def choose(self, k, u, w):
        if k.op == "is":
            return u if bool(k.p.const()) != k.neg else w
        if k.op == "zero":
            good, other = (u, w) if k.neg else (w, u)
            if isinstance(other, P) and other.const() == 0 and isinstance(good, P) and len(good.t) == 1:
                # 1/x or log(x), replaced where x is zero
                if good == pinv(k.p) or good == at("log", k.p.key()):
                    self.safe.add((good, "inf"))
                    return good
            raise Unparsed("condition")
        return pw(pw(None, k, u), k.inv(), w)

    def fresh(self, n, pos, kw):
        sh = self.ev(pos[0]) if pos else self.ev(kw["shape"])
        sh = [x.vals[0] for x in sh] if isinstance(sh, tuple) else [sh.vals[0]]
        nv = pmul(at("s", "nx"), pmul(at("s", "ny"), at("s", "nz")))
        dims = []
        for x in sh:
            if x == nv:
                dims.append("v")
            elif x.const() is not None:
                dims.append(int(x.const()))
            else:
                raise Unparsed("shape")
        fill = {"numpy.zeros": ZERO, "numpy.ones": ONE, "numpy.empty": None}.get(n)
        if n == "numpy.full":
            fill = self.sc(pos[1])
        return Arr(dims, [fill] * _prod([d for d in dims if isinstance(d, int)]), perm=None)

    def method(self, t, obj, name, pos, kw):
        if name in ("astype", "copy"):
            return self.ev(obj)
        o = kw.get("order")
        o = cval(o) if o is not None else "C"
        if name in ("flatten", "ravel"):
            if pos and is_const(pos[0]):
                o = cval(pos[0])
            a = self.arr(obj)
            if a.dims == ("g",):
                # fastest axis first
                return Arr(("v",), a.vals, a.mask, "F", a.perm if o == "F" else a.perm[::-1])
            if not a.vox():
                idx = list(itertools.product(*[range(d) for d in a.dims]))
                if o == "F":
                    idx.sort(key=lambda i: i[::-1])
                return Arr((len(idx),), [a.vals[_pos(a.dims, i)] for i in idx])
            if len(a.dims) == 2 and a.dims[0] == "v" and o in ("F", "C"):
                return Flat(a, o)
            raise Unparsed("flatten")
        if name == "reshape":
            sh = pos[0] if len(pos) == 1 and isinstance(self.ev(pos[0]), tuple) else None
            sh = self.ev(sh) if sh is not None else tuple(self.ev(p) for p in pos)
            dims = [x.vals[0] for x in sh]
            v = self.ev(obj)
            if isinstance(v, Arr) and not v.vox() and all(d.const() is not None for d in dims):
                ks = [int(d.const()) for d in dims]
                if -1 in ks:
                    ks[ks.index(-1)] = len(v.vals) // abs(_prod(ks))
                if o == "C" or len(v.dims) <= 1 and len([k for k in ks if k > 1]) <= 1:
                    return Arr(ks, v.vals)
            if isinstance(v, Arr) and v.dims == ("v",) and len(dims) == 2 and [d.const() for d in dims] in ([-1, 1],):
                return v.like(v.vals, ("v", 1))
            names = [next((s for s in SIZE if d == at("s", s)), None) for d in dims[:3]]
            if None in names:
                raise Unparsed("reshape")
            perm = tuple(SIZE[s] for s in names)
            nd = int(dims[3].const()) if len(dims) == 4 and dims[3].const() is not None else 1
            if isinstance(v, Flat):
                if v.arr.dims[1] != nd or (o != v.order and nd > 1):
                    raise Mismatch("the components are mixed up")
                v = v.arr
            if not isinstance(v, Arr) or "v" not in v.dims:
                raise Unparsed("reshape")
            if v.perm != (perm if o == "F" else perm[::-1]):
                raise Mismatch(f"the voxels are arranged in another order (fastest axis first: {v.perm}, {'-' if v.perm is None else ''} array {perm if o == 'F' else perm[::-1]})")
            if len(v.vals) != nd:
                raise Mismatch("number of components")
            return Arr(("g", nd), v.vals, v.mask, "F", perm)
        if name in ("sum", "prod"):
            ax = self.const(kw["axis"]) if "axis" in kw else self.const(pos[0]) if pos else None
            return self.reduce(self.arr(obj), ax, padd if name == "sum" else pmul)
        if name in ("max", "min"):
            return scalar(at(name, tuple(sorted(v.key() for v in self.arr(obj).vals))))
        if name in ("T", "transpose") and not pos:
            return self.transpose(self.arr(obj))
        raise Unparsed("method " + name)

    def reduce(self, a, axis, f):
        if axis is None:
            if a.vox():
                raise Unparsed("reduction over the voxels")
            r = a.vals[0]
            for x in a.vals[1:]:
                r = lift(f, [r, x])
            return scalar(r)
        axis = int(axis) % len(a.dims)
        if not isinstance(a.dims[axis], int):
            raise Unparsed("reduction over the voxels")
        k = len([d for d in a.dims[:axis] if isinstance(d, int)])
        ints = a.ints()
        rest = ints[:k] + ints[k + 1:]
        vals = []
        for i in itertools.product(*[range(d) for d in rest]):
            r = None
            for j in range(ints[k]):
                x = a.vals[_pos(ints, i[:k] + (j,) + i[k:])]
                r = x if r is None else lift(f, [r, x])
            vals.append(r)
        return a.like(vals, a.dims[:axis] + a.dims[axis + 1:])


def both(p, q):
    if isinstance(p, Cond) and isinstance(q, Cond) and p.op == q.op == "bad" and p.p == q.p and p.neg == q.neg:
        return Cond("bad", p.p, tuple(sorted(set(p.q) | set(q.q))), p.neg)
    raise Unparsed("combination of conditions")


def pw(old, cond, val):
    parts = list(old.parts) if isinstance(old, PW) else [(None, old)]
    if isinstance(val, PW):
        raise Unparsed("nested conditions")
    return PW([x for x in parts if x[0] is None or x[0].key() != cond.key()] + [(cond, val)])


def lift(f, args):
    """Apply a function to each piece."""
    pws = [a for a in args if isinstance(a, PW)]
    if any(a is None for a in args):
        return None
    if not pws:
        return f(*args)
    conds = [c for c, _ in pws[0].parts]
    ks = [None if c is None else c.key() for c in conds]
    out = []
    for n, c in enumerate(conds):
        vs = []
        for a in args:
            if isinstance(a, PW):
                if [None if x is None else x.key() for x, _ in a.parts] != ks:
                    raise Unparsed("different conditions")
                a = a.parts[n][1]
            vs.append(a)
        out.append((c, None if any(v is None for v in vs) else f(*vs)))
    return PW(out)


# ---------------------------------------------------------------- identities

PRIME = (1 << 61) - 1


ORDERS = list(itertools.product(range(3), repeat=3))
POS = {m: k for k, m in enumerate(ORDERS)}
MUL = [(i, j, POS[tuple(x + y for x, y in zip(m, n))]) for i, m in enumerate(ORDERS) for j, n in enumerate(ORDERS)
       if all(x + y < 3 for x, y in zip(m, n))]


class Jet:
    """Truncated Taylor expansion in three variables (orders up to 2 each) over a prime field."""


    def __init__(self, v):
        self.v = v

    @staticmethod
    def c(k):
        return Jet([k % PRIME] + [0] * 26)

    def __add__(self, o):
        return Jet([(x + y) % PRIME for x, y in zip(self.v, o.v)])

    def __mul__(self, o):
        r = [0] * 27
        a, b = self.v, o.v
        for i, j, k in MUL:
            if a[i] and b[j]:
                r[k] = (r[k] + a[i] * b[j]) % PRIME
        return Jet(r)

    def scale(self, k):
        return Jet([x * k % PRIME for x in self.v])

    def tail(self):
        return Jet([0] + self.v[1:])

    def series(self, cs):
        """sum cs[k] * tail^k"""
        r, p, t = Jet.c(0), Jet.c(1), self.tail()
        for k in cs:
            r = r + p.scale(k)
            p = p * t
        return r

    def inv(self):
        a = self.v[0]
        if not a:
            raise ZeroDivisionError
        i = pow(a, -1, PRIME)
        return self.series([pow(-1, k) * pow(i, k + 1, PRIME) for k in range(7)])

    def sqrt(self):
        a = self.v[0]
        r = pow(a, (PRIME + 1) // 4, PRIME)
        if r * r % PRIME != a or not a:
            raise ZeroDivisionError
        i, b, cs = pow(a, -1, PRIME), 1, []
        for k in range(7):
            cs.append(b * pow(i, k, PRIME) * r % PRIME)
            b = b * (1 - 2 * k) * pow(2 * (k + 1), -1, PRIME) % PRIME
        return self.series(cs)

    def log(self, l0):
        a = self.v[0]
        if not a:
            raise ZeroDivisionError
        i = pow(a, -1, PRIME)
        return self.series([l0] + [pow(-1, k + 1) * pow(i, k, PRIME) * pow(k, -1, PRIME) for k in range(1, 7)])

    def atan(self, a0):
        p0 = self.v[0]
        q = self.tail() * (Jet.c(1 + p0 * p0) + self.tail().scale(p0)).inv()
        return q.series([a0, 1, 0, -pow(3, -1, PRIME), 0, pow(5, -1, PRIME), 0])


def jet(p, point, rnd, memo):
    """Expansion of a polynomial with variables ("v", "x"|"y"|"z") at a point."""
    r = Jet.c(0)
    for m, k in p.t.items():
        x = Jet.c(k.numerator * pow(k.denominator, -1, PRIME))
        for a, e in m:
            if a not in memo:
                key = _KEYS[a]
                if key[0] == "v":
                    j = [0] * 27
                    j[0] = point["xyz".index(key[1])]
                    j[POS[tuple(1 if c == key[1] else 0 for c in "xyz")]] = 1
                    j = Jet(j)
                elif key[0] in ("sqrt", "inv", "log", "atan"):
                    q = jet(P(dict(key[1])), point, rnd, memo)
                    j = q.sqrt() if key[0] == "sqrt" else q.inv() if key[0] == "inv" else q.log(rnd()) if key[0] == "log" else q.atan(rnd())
                else:
                    j = Jet.c(rnd())
                memo[a] = j
            y = memo[a] if e > 0 else memo[a].inv()
            for _ in range(abs(e)):
                x = x * y
        r = r + x
    return r


def derivative_is(p, orders, want, points=4):
    """Decide d^orders p = want (an algebraic identity over function atoms, tested at random points of a prime field)."""
    import random
    rng = random.Random(20)
    rnd = lambda: rng.randrange(1, PRIME)
    fact = 1
    for o in orders:
        fact *= (1, 1, 2)[o]
    done = 0
    for _ in range(400):
        memo = {}
        pt = [rnd() for _ in range(3)]
        try:
            a = jet(p, pt, rnd, memo)
            b = jet(want, pt, rnd, memo)
        except ZeroDivisionError:
            continue
        if a.v[POS[tuple(orders)]] * fact % PRIME != b.v[0]:
            return False
        done += 1
        if done >= points:
            return True
    raise Unparsed("no point for the identity")
