"""
Algebraic normal form of value-graph terms.

The abstract value of a numeric term is a polynomial (Gaussian-rational
coefficients, integer exponents, also negative) over interned atoms. The
array algebra used by the solver is interpreted on top of it: elementwise
arithmetic, conjugation, sums, concatenations and slices, selections,
scatters through masks, linear operators (sparse matrices, FFT), columns.

Two terms with the same normal form compute the same value (up to rounding);
terms that are not understood become opaque atoms, such that equality never
holds by accident. Whether a difference is a definite difference is decided
by the caller (with the vocabulary of atoms that is left over).
"""

from fractions import Fraction

from sa.term import T, NONE, show

# ---------------------------------------------------------------- atoms

_ATOM = {}
_ATOMS = []


class Atom:
    __slots__ = ("id", "key", "vec", "cplx")


def atom(key, vec=False, cplx=False):
    a = _ATOM.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.key = key
        a.vec = vec
        a.cplx = cplx
        _ATOM[key] = a
        _ATOMS.append(a)
    return a


# ---------------------------------------------------------------- coefficients (complex rationals)

def _c(re, im=0):
    return Fraction(re), Fraction(im)


C0, C1 = _c(0), _c(1)


def _cadd(a, b):
    return a[0] + b[0], a[1] + b[1]


F0 = C0[0]


def _cmul(a, b):
    if a is C1 or b is C1:
        return b if a is C1 else a
    ar, ai = a
    br, bi = b
    if not ai:
        if not bi:
            r = ar * br
            return C1 if r == 1 else (r, F0)
        return ar * br, ar * bi
    if not bi:
        return ar * br, ai * br
    return ar * br - ai * bi, ar * bi + ai * br


def _cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return a[0] / n, -a[1] / n


# ---------------------------------------------------------------- polynomials

class Val:
    kind = "val"

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Poly(Val):
    """Sum of monomials; a monomial is a sorted tuple of (atom id, exponent)."""

    kind = "poly"
    __slots__ = ("t", "n", "_k")

    def __init__(self, t, n=None):
        self.t = t
        self.n = n
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("P", tuple(sorted(self.t.items())))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), C0)

    def is_zero(self):
        return not self.t

    def mono(self):
        """The (monomial, coefficient) if single."""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def __repr__(self):
        return fmt(self)


NAMES = {}


def fmt_atom(a, d=5):
    k = a.key
    if a.id in NAMES:
        return NAMES[a.id]
    if k[0] == "app":
        return fmt_atom(_ATOMS[k[1]], d - 1) + "(" + fmt(k[2], d - 1) + ")"
    if k[0] == "poly":
        return "(" + fmt(_POLYVAL[a.id], d - 1) + ")"
    if k[0] == "mT":
        return fmt_atom(_ATOMS[k[1]], d) + "^T"
    if d <= 0:
        return f"@{a.id}"
    out = []
    for x in k:
        if isinstance(x, Val):
            out.append(fmt(x, d - 1))
        elif isinstance(x, tuple):
            out.append("(" + ",".join(fmt(y, d - 1) if isinstance(y, Val) else str(y) for y in x) + ")")
        elif isinstance(x, T):
            out.append(show(x, 4))
        else:
            out.append(str(x))
    if k[0] == "sym":
        return out[1]
    if k[0] in ("pi", "mu0"):
        return k[0]
    return out[0] + "<" + ",".join(out[1:]) + ">"


def fmt(p, d=5):
    if isinstance(p, Poly):
        if not p.t:
            return "0"
        out = []
        for m, c in sorted(p.t.items()):
            s = "" if c == C1 and m else (str(c[0]) if c[1] == 0 else (f"{c[1]}j" if c[0] == 0 else f"({c[0]}+{c[1]}j)"))
            f = []
            for i, e in m:
                f.append(fmt_atom(_ATOMS[i], d) + (f"^{e}" if e != 1 else ""))
            out.append("*".join(([s] if s else []) + f))
        return " + ".join(out)
    if isinstance(p, Mat):
        out = []
        for ch, s in p.t:
            out.append(f"[{fmt(s, d)}]" + ".".join(fmt_atom(_ATOMS[i], d) for i in ch))
        return "M{" + " + ".join(out) + "}"
    if isinstance(p, Stack):
        return ("cols" if p.axis else "rows") + "[" + "; ".join(fmt(x, d) for x in p.cols) + "]"
    if isinstance(p, Seq):
        return "(" + ", ".join(fmt(x, d) for x in p.items) + ")"
    if isinstance(p, Opq):
        return "?" + show(p.t, 4)
    return str(p)


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, complex):
        c = _c(Fraction(v.real), Fraction(v.imag))
    else:
        c = _c(Fraction(v))
    return Poly({} if c == C0 else {(): c})


def poly(a, e=1):
    return Poly({((a.id, e),): C1})


ZERO, ONE = const(0), const(1)
PI = poly(atom(("pi",)))
MU0 = poly(atom(("mu0",)))


def add(*ps):
    t = {}
    n = None
    for p in ps:
        n = p.n if n is None else n
        for m, c in p.t.items():
            x = t.get(m)
            x = c if x is None else _cadd(x, c)
            if x == C0:
                t.pop(m, None)
            else:
                t[m] = x
    return _cats(Poly(t, n))


def scale(p, c):
    if c == C0:
        return Poly({}, p.n)
    return Poly({m: _cmul(x, c) for m, x in p.t.items()}, p.n)


def neg(p):
    return mul(const(-1), p)


def sub(a, b):
    return add(a, neg(b))


_MM = {}


def _support(i):
    """Mask outside of which an atom is zero."""
    key = _ATOMS[i].key
    if key[0] == "scatter" and len(key) == 3 and isinstance(key[2], Poly):
        m = key[2].mono()
        if m and len(m[0]) == 1 and m[1] == C1 and _ATOMS[m[0][0][0]].key[0] == "ind":
            return _ATOMS[m[0][0][0]].key
    return None


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is None:
        d = dict(a)
        for i, e in b:
            x = d.get(i, 0) + e
            if x:
                d[i] = x
            else:
                d.pop(i)
        for i in d:
            if d[i] > 1 and _ATOMS[i].key[0] == "neg":
                d[i] = 1
        # masks: idempotent, and disjoint for different blocks of the same index set
        inds = [(i, _ATOMS[i].key) for i in d if _ATOMS[i].key[0] == "ind"]
        if inds:
            seen = {}
            # vectors which are zero outside of a block
            for i in list(d):
                sup = _support(i)
                if sup is not None:
                    for j, key in list(inds):
                        if key[1] == sup[1]:
                            if key[2] != sup[2]:
                                _MM[k] = None
                                return None
                            if j in d:
                                d.pop(j)
                                inds = [x for x in inds if x[0] != j]
            for i, key in inds:
                if d[i] > 1:
                    d[i] = 1
                if key[1] in seen and seen[key[1]] != key[2]:
                    _MM[k] = None
                    return None
                seen[key[1]] = key[2]
        r = tuple(sorted(d.items()))
        _MM[k] = r
    return r


def mul(*ps):
    out = ONE
    for p in ps:
        t = {}
        for m1, c1 in out.t.items():
            for m2, c2 in p.t.items():
                if (m1, m2) in _MM and _MM[(m1, m2)] is None:
                    continue
                m = _mmul(m1, m2)
                if m is None:
                    continue
                c = _cmul(c1, c2)
                x = t.get(m)
                x = c if x is None else _cadd(x, c)
                if not x[0] and not x[1]:
                    t.pop(m, None)
                else:
                    t[m] = x
        out = _cats(Poly(t, out.n if out.n is not None else p.n))
        if _ABS:
            out = _abs2(out)
    return out


_ABS = set()


def _abs2(p):
    """The square of an absolute value is the product with the conjugate."""
    for m, c in p.t.items():
        for i, e in m:
            if i in _ABS and e > 1:
                x = _ATOMS[i].key[1]
                rest = Poly({tuple((j, q - (e // 2) * 2 if j == i else q) for j, q in m if j != i or q % 2): c})
                out = rest
                for _ in range(e // 2):
                    out = mul(out, x, conj(x))
                return Poly(add(Poly({k: v for k, v in p.t.items() if k != m}), out).t, p.n)
    return p


def inv(p):
    m = p.mono()
    if m is not None:
        mm, c = m
        if not any(_ATOMS[i].key[0] in ("ind",) for i, _ in mm):
            return _cats(Poly({tuple((i, -e) for i, e in mm): _cinv(c)}, p.n))
    if p.is_zero():
        return poly(atom(("inv0",)))
    # pull out the common factors
    common = None
    for m in p.t:
        d = {i: e for i, e in m if _ATOMS[i].key[0] not in ("ind", "cat", "scatter")}
        common = d if common is None else {i: min(e, d[i]) if e > 0 else max(e, d[i]) for i, e in common.items() if i in d and (d[i] > 0) == (e > 0)}
        if not common:
            break
    if common:
        g = tuple(sorted(common.items()))
        gi = Poly({tuple((i, -e) for i, e in g): C1})
        return mul(gi, inv(mul(p, gi)))
    # pull out the leading coefficient
    lead = sorted(p.t.items())[0][1]
    q = scale(p, _cinv(lead))
    a = atom(("poly", q.key()), vec=is_vec(p), cplx=is_cplx(p))
    _POLYVAL[a.id] = q
    return scale(Poly({((a.id, -1),): C1}, p.n), _cinv(lead))


_POLYVAL = {}


def power(p, e):
    if e == 0:
        return Poly({(): C1}, p.n)
    if e < 0:
        return inv(power(p, -e))
    out = p
    for _ in range(e - 1):
        out = mul(out, p)
    return out


def is_vec(p):
    if isinstance(p, Stack):
        return True
    return p.n is not None or any(_ATOMS[i].vec for m in p.t for i, _ in m)


def is_cplx(p):
    if isinstance(p, Stack):
        return any(is_cplx(x) for x in p.cols)
    return any(c[1] != 0 for c in p.t.values()) or any(_ATOMS[i].cplx for m in p.t for i, _ in m)


# ---------------------------------------------------------------- concatenations

def cat(parts):
    """Concatenation of (poly, length) parts along the first axis."""
    out = []
    for p, n in parts:
        if n.is_zero():
            continue
        m = p.mono()
        if m is not None and len(m[0]) == 1 and m[0][0][1] == 1 and _ATOMS[m[0][0][0]].key[0] == "cat" and m[1] == C1:
            out.extend(_catparts(_ATOMS[m[0][0][0]]))
            continue
        out.append((Poly(p.t), n))
    if not out:
        return Poly({}, ZERO)
    if len(out) == 1:
        return Poly(out[0][0].t, out[0][1])
    if all(p.is_zero() for p, _ in out):
        return Poly({}, add(*[n for _, n in out]))
    if all(p == out[0][0] and p.is_const() for p, _ in out):
        return Poly(out[0][0].t, add(*[n for _, n in out]))
    # contiguous restrictions of the same vector are merged back
    a = atom(("cat", tuple((p, n) for p, n in out)), vec=True, cplx=any(is_cplx(p) for p, _ in out))
    return poly(a)


def _catparts(a):
    return list(a.key[1])


def _sig(a):
    return tuple(n.key() for _, n in a.key[1])


def _cats(p):
    """Canonical form: at most one concatenation per signature, with coefficient one."""
    hit = [m for m in p.t if any(_ATOMS[i].key[0] == "cat" for i, _ in m)]
    if not hit:
        return p
    if len(hit) == 1 and len(hit[0]) == 1 and hit[0][0][1] == 1 and p.t[hit[0]] == C1:
        return p
    rest = {m: c for m, c in p.t.items() if m not in hit}
    groups = {}
    other = []
    for m in hit:
        c = p.t[m]
        cats = [(_ATOMS[i], e) for i, e in m if _ATOMS[i].key[0] == "cat"]
        sc = tuple((i, e) for i, e in m if _ATOMS[i].key[0] != "cat")
        sigs = {_sig(a) for a, _ in cats}
        vec = [i for i, e in sc if _ATOMS[i].vec]
        if len(sigs) > 1 or vec:
            # several layouts or a foreign vector: split the vectors at the layout of the first one
            other.append((m, c))
            continue
        s = Poly({sc: c})
        sig = sigs.pop()
        lens = [n for _, n in cats[0][0].key[1]]
        parts = []
        for j in range(len(lens)):
            x = s
            for a, e in cats:
                x = mul(x, power(a.key[1][j][0], e) if e > 0 else inv(power(a.key[1][j][0], -e)))
            parts.append(x)
        if sig in groups:
            old, _ = groups[sig]
            groups[sig] = ([add(x, y) for x, y in zip(old, parts)], lens)
        else:
            groups[sig] = (parts, lens)
    # scalars added to a single concatenation go inside
    if len(groups) == 1 and not other:
        sig = next(iter(groups))
        parts, lens = groups[sig]
        inside = {m: c for m, c in rest.items() if not any(_ATOMS[i].vec for i, _ in m)}
        if inside:
            rest = {m: c for m, c in rest.items() if m not in inside}
            parts = [add(x, Poly(inside)) for x in parts]
            groups[sig] = (parts, lens)
    out = Poly(dict(rest), p.n)
    for parts, lens in groups.values():
        q = cat(list(zip(parts, lens)))
        t = dict(out.t)
        for m, c in q.t.items():
            x = _cadd(t.get(m, C0), c)
            if x == C0:
                t.pop(m, None)
            else:
                t[m] = x
        out = Poly(t, out.n if out.n is not None else q.n)
    t = dict(out.t)
    for m, c in other:
        x = _cadd(t.get(m, C0), c)
        if x == C0:
            t.pop(m, None)
        else:
            t[m] = x
    return Poly(t, out.n)


# ---------------------------------------------------------------- other values

class Mat(Val):
    """Sparse matrix: sum of scalar * chain of matrix atoms."""

    kind = "mat"
    __slots__ = ("t", "shape")

    def __init__(self, t, shape=(None, None)):
        d = {}
        for ch, s in t:
            d[ch] = add(d[ch], s) if ch in d else s
        self.t = tuple(sorted(((ch, s) for ch, s in d.items() if not s.is_zero()), key=lambda x: x[0]))
        self.shape = shape

    def key(self):
        return ("M", tuple((ch, s.key()) for ch, s in self.t))

    def __repr__(self):
        return fmt(self)


def matom(key, shape=(None, None), cplx=False):
    a = atom(key, cplx=cplx)
    _MSHAPE[a.id] = shape
    return Mat([((a.id,), ONE)], shape)


_MSHAPE = {}


def madd(a, b):
    sh = tuple(x if x is not None else y for x, y in zip(a.shape, b.shape))
    return Mat(list(a.t) + list(b.t), sh)


def mscale(m, s):
    return Mat([(ch, mul(x, s)) for ch, x in m.t], m.shape)


def mtrans(m):
    out = []
    for ch, s in m.t:
        out.append((tuple(_mT(i) for i in reversed(ch)), s))
    return Mat(out, (m.shape[1], m.shape[0]))


def _mT(i):
    a = _ATOMS[i]
    if a.key[0] == "mT":
        return a.key[1]
    if a.key[0] in ("diag", "eye"):
        return i
    b = atom(("mT", i), cplx=a.cplx)
    sh = _MSHAPE.get(i, (None, None))
    _MSHAPE[b.id] = (sh[1], sh[0])
    return b.id


def mmul(a, b):
    out = []
    for c1, s1 in a.t:
        for c2, s2 in b.t:
            out.append((c1 + c2, mul(s1, s2)))
    return Mat(out, (a.shape[0], b.shape[1]))


class Stack(Val):
    """Two-dimensional dense array with three (known) columns (axis=1) or rows (axis=0)."""

    kind = "stack"
    __slots__ = ("cols", "axis")

    def __init__(self, cols, axis):
        self.cols = tuple(cols)
        self.axis = axis

    def key(self):
        return ("S", self.axis, tuple(x.key() for x in self.cols))

    def __repr__(self):
        return fmt(self)


class Seq(Val):
    kind = "seq"
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ("Q", tuple(x.key() for x in self.items))

    def __repr__(self):
        return fmt(self)


class Grid(Val):
    """Array over a box: a formula in the coordinates of the box (axes 0, 1, ...)."""

    __slots__ = ("shape", "v", "col")

    def __init__(self, shape, v, col=None):
        self.shape, self.v = tuple(shape), v
        # the vector which is shown as a column
        self.col = col

    def key(self):
        return ("grid", self.shape, self.v)

    def __repr__(self):
        return "G{" + fmt(self.v) + "}"


class Blk(Val):
    """Dense matrix made of blocks (formulas in the row and column vectors), with permuted rows and columns."""

    __slots__ = ("rows", "rperm", "cperm", "tr")

    def __init__(self, rows, rperm=None, cperm=None, tr=False):
        self.rows = tuple(tuple(r) for r in rows)
        self.rperm, self.cperm, self.tr = rperm, cperm, tr

    def key(self):
        return ("blk", tuple(tuple(x.key() for x in r) for r in self.rows), self.rperm, self.cperm, self.tr)

    def __repr__(self):
        return "B{" + "; ".join(", ".join(fmt(x, 2) for x in r) for r in self.rows) + "}"


def at(v, k):
    """A vector spread along an axis of a dense matrix."""
    return linear(v, lambda x: poly(atom(("at", x, k))), lambda x: ONE)


def negative(p):
    """Indicator of p < 0."""
    if p.is_const():
        return ONE if p.cval()[0] < 0 else ZERO
    return poly(atom(("neg", p)))


def ax(k):
    return poly(atom(("ax", k)))


def has_ax(a):
    return a.key[0] == "ax"


def gflat(shape, v, order):
    """Flattened grid: linear over the monomials in the coordinates (coefficients are extracted)."""
    out = {}
    for m, c in v.t.items():
        cm = tuple((i, e) for i, e in m if _ATOMS[i].key[0] != "ax" and not _ATOMS[i].key[0] == "at")
        xm = tuple((i, e) for i, e in m if _ATOMS[i].key[0] in ("ax", "at"))
        co = Poly({cm: c})
        if xm:
            p = mul(co, poly(atom(("gflat", tuple(shape), Poly({xm: C1}), order), vec=True)))
        else:
            p = co
        out = add(out, p) if out else p
    r = out or Poly({})
    # the linear index itself
    lin, st = None, ONE
    if len(shape) > 1:
        ks = list(range(len(shape))) if order == "F" else list(range(len(shape)))[::-1]
        for k in ks:
            q = mul(st, ax(k))
            lin = add(lin, q) if lin is not None else q
            st = mul(st, shape[k])
        if v == lin:
            return arange(ZERO, st)
    return r


class Opq(Val):
    kind = "opq"
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("O", self.t.cid)

    def __repr__(self):
        return fmt(self)


# ---------------------------------------------------------------- linear functionals

def split(m):
    """Monomial -> (scalar part, vector part)."""
    s = tuple((i, e) for i, e in m if not _ATOMS[i].vec)
    v = tuple((i, e) for i, e in m if _ATOMS[i].vec)
    return s, v


def linear(p, fct, const_fct=None):
    """Apply a linear map given on the pure vector monomials (pulling out the scalars)."""
    out = []
    for m, c in p.t.items():
        s, v = split(m)
        if v or const_fct is None:
            r = fct(Poly({v: C1}, p.n if not v else None))
        else:
            r = const_fct(Poly({(): C1}, p.n))
        out.append(mul(Poly({s: c}), r))
    if not out:
        return Poly({})
    return add(*out)


def conj_atom(a):
    if not a.cplx:
        return poly(a)
    k = a.key
    if k[0] == "conj":
        return k[1]
    if k[0] == "cat":
        return cat([(conj(p), n) for p, n in k[1]])
    if k[0] == "poly":
        return poly_inv_conj(a)
    if k[0] in ("sum", "comp"):
        q = conj(k[1])
        if k[0] == "sum":
            return vsum(q)
        return comp(q, k[2])
    if k[0] == "app" and not _ATOMS[k[1]].cplx:
        return app_atom(k[1], conj(k[2]))
    if k[0] == "part":
        pass
    return poly(atom(("conj", poly(a)), vec=a.vec, cplx=True))


def poly_inv_conj(a):
    q = conj(_POLYVAL[a.id])
    lead = sorted(q.t.items())[0][1]
    q2 = scale(q, _cinv(lead))
    b = atom(("poly", q2.key()), vec=a.vec, cplx=True)
    _POLYVAL[b.id] = q2
    return scale(poly(b), lead)


def conj(p):
    if isinstance(p, Stack):
        return Stack([conj(x) for x in p.cols], p.axis)
    out = []
    for m, c in p.t.items():
        x = Poly({(): (c[0], -c[1])})
        for i, e in m:
            y = conj_atom(_ATOMS[i])
            x = mul(x, power(y, e) if e > 0 else inv(power(y, -e)))
        out.append(x)
    r = add(*out) if out else Poly({})
    return Poly(r.t, p.n if r.n is None else r.n)


def real(p):
    if isinstance(p, Stack):
        return Stack([real(x) for x in p.cols], p.axis)
    return mul(const(Fraction(1, 2)), add(p, conj(p)))


def imag(p):
    if isinstance(p, Stack):
        return Stack([imag(x) for x in p.cols], p.axis)
    return mul(Poly({(): _c(0, Fraction(-1, 2))}), sub(p, conj(p)))


def absval(p):
    if isinstance(p, Stack):
        return Stack([absval(x) for x in p.cols], p.axis)
    if p.is_const() and p.cval()[1] == 0:
        return Poly({(): (abs(p.cval()[0]), Fraction(0))} if p.t else {}, p.n)
    m = p.mono()
    if m is not None:
        c = m[1]
        out = Poly({(): (abs(c[0]), Fraction(0))}) if c[1] == 0 else (Poly({(): (abs(c[1]), Fraction(0))}) if c[0] == 0 else None)
        if out is not None:
            for i, e in m[0]:
                a = _ATOMS[i]
                x = poly(a) if positive_atom(a) else abs_atom(poly(a))
                out = mul(out, power(x, e) if e > 0 else inv(power(x, -e)))
            return Poly(out.t, p.n)
    lead = p.t[min(p.t)]
    if lead < (Fraction(0), Fraction(0)):
        p = neg(p)
    return abs_atom(p)


def abs_atom(p):
    r = poly(atom(("abs", p), vec=is_vec(p)))
    _ABS.add(r.mono()[0][0][0])
    return r


POSITIVE = set()


def positive_atom(a):
    return a.key[0] in ("pi", "mu0", "len", "ind", "abs", "norm", "sqrt", "nnz") or (a.key[0] == "sym" and a.key[1] in POSITIVE)


def sqrt(p):
    m = p.mono()
    if m is not None and all(e % 2 == 0 for _, e in m[0]) and m[1] == C1 and all(positive_atom(_ATOMS[i]) for i, _ in m[0]):
        return Poly({tuple((i, e // 2) for i, e in m[0]): C1}, p.n)
    return poly(atom(("sqrt", p), vec=is_vec(p), cplx=is_cplx(p)))


def vlen(p):
    """Length (first axis) of a vector value, as a polynomial (or None)."""
    if isinstance(p, Stack):
        if p.axis == 0:
            return const(len(p.cols))
        for x in p.cols:
            n = vlen(x)
            if n is not None:
                return n
        return None
    if isinstance(p, Mat):
        return p.shape[0]
    if isinstance(p, Seq):
        return const(len(p.items))
    if not isinstance(p, Poly):
        return None
    for m in sorted(p.t, key=lambda m: len(m)):
        for i, _ in m:
            a = _ATOMS[i]
            if a.vec:
                return alen(a)
    return p.n


LENS = {}


def idxlen(idx):
    """Number of entries selected by an index vector or a mask."""
    m = idx.mono() if isinstance(idx, Poly) else None
    if m and len(m[0]) == 1:
        k = _ATOMS[m[0][0][0]].key
        if k[0] == "ind" and k[2] == 2:
            # three blocks (x, y, z faces) partition the index set
            return sub(vlen(k[1]), add(*[idxlen(poly(atom(("ind", k[1], j, k[3]), vec=True))) for j in (0, 1)]))
        if k[0] in ("ind", "cmp", "isin"):
            return poly(atom(("len", poly(atom(("nz", idx), vec=True)))))
    return vlen(idx) if isinstance(idx, (Poly, Stack)) else None


def alen(a):
    k = a.key
    if a.id in LENS:
        return LENS[a.id]
    if k[0] == "poly":
        return vlen(_POLYVAL[a.id])
    if k[0] == "cat":
        return add(*[n for _, n in k[1]])
    if k[0] == "part":
        return k[3]
    if k[0] == "arange":
        return sub(k[2], k[1])
    if k[0] == "gflat":
        return mul(*k[1])
    if k[0] == "app":
        r = _MSHAPE.get(k[1], (None, None))[0]
        if r is not None:
            return r
    if k[0] == "ind":
        return vlen(k[1])
    if k[0] in ("conj", "abs") and isinstance(k[1], Poly):
        return vlen(k[1])
    if k[0] == "take":
        r = idxlen(k[2])
        if r is not None:
            return r
    if k[0] == "pos":
        return vlen(k[2])
    return poly(atom(("len", poly(a))))


def vsum(p):
    if isinstance(p, Stack):
        return add(*[vsum(x) for x in p.cols])

    def one(v):
        if not list(v.t)[0]:
            return v.n if v.n is not None else poly(atom(("sum", v)))
        m = list(v.t)[0]
        if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].key[0] == "cat":
            return add(*[mul(vsum(q), ONE) if is_vec(q) else mul(q, n) for q, n in _ATOMS[m[0][0]].key[1]])
        return poly(atom(("sum", Poly(v.t)), cplx=is_cplx(v)))

    return Poly(linear(p, one).t)


def comp(p, k):
    """Component k of the last axis of a (N, 3) or (3,) value."""
    if isinstance(p, Stack):
        return p.cols[k]
    if isinstance(p, Seq):
        return p.items[k]
    out = []
    for m, c in p.t.items():
        s, v = split(m)
        x = Poly({s: c})
        for i, e in v:
            a = _ATOMS[i]
            if a.key[0] in ("norm", "app", "part", "ind") or (
                    a.key[0] == "sqrt" and any(_ATOMS[j].key[0] in ("comp", "el") for q in a.key[1].t for j, _ in q)):
                y = poly(a)
            else:
                y = poly(atom(("comp", poly(a), k), vec=True, cplx=a.cplx))
            x = mul(x, power(y, e) if e > 0 else inv(power(y, -e)))
        out.append(x)
    return add(*out) if out else Poly({})


# ---------------------------------------------------------------- matrix application

def cat_lead(v):
    """Pull the leading coefficient out of a concatenation (canonical argument of a linear map)."""
    m = v.mono()
    if m is None or len(m[0]) != 1 or m[0][0][1] != 1 or _ATOMS[m[0][0][0]].key[0] != "cat":
        return C1, v
    ps = _ATOMS[m[0][0][0]].key[1]
    for p, _ in ps:
        if p.t:
            k = sorted(p.t.items())[0][1]
            return _cmul(m[1], k), cat([(scale(q, _cinv(k)), n) for q, n in ps])
    return C1, v


def app_atom(i, p):
    """Matrix atom applied to a vector polynomial."""
    a = _ATOMS[i]
    k = a.key
    shape = _MSHAPE.get(i, (None, None))
    if k[0] == "eye":
        return p
    if k[0] == "diag":
        return mul(k[1], p)
    if k[0] == "mT" and _ATOMS[k[1]].key[0] == "sel":
        r = take(p, _ATOMS[k[1]].key[1])
        return Poly(r.t, shape[0]) if not is_vec(r) else r
    if k[0] in ("mblock", "mT") and (k[0] == "mblock" or _ATOMS[k[1]].key[0] == "mblock"):
        tr = k[0] == "mT"
        grid = _BLOCK[k[1] if tr else i]
        return block_apply(grid, p, tr)
    if k[0] == "sel" and isinstance(k[1], Poly):
        mm = k[1].mono()
        if mm and len(mm[0]) == 1 and _ATOMS[mm[0][0][0]].key[0] == "ind":
            return untake(p, k[1], k[1])

    def one(v):
        k, v = cat_lead(v)
        return scale(poly(atom(("app", i, Poly(v.t)), vec=True, cplx=a.cplx or is_cplx(v))), k)

    return linear(p, one)


_BLOCK = {}


def block_matrix(grid):
    """Block matrix from a grid of Mat / None (all shapes known), or None."""
    nr, nc = len(grid), len(grid[0])
    rows, cols = [None] * nr, [None] * nc
    for i in range(nr):
        if len(grid[i]) != nc:
            return None
        for j in range(nc):
            g = grid[i][j]
            if g is not None:
                rows[i] = g.shape[0] if rows[i] is None else rows[i]
                cols[j] = g.shape[1] if cols[j] is None else cols[j]
    if any(x is None for x in rows + cols):
        return None
    key = ("mblock", tuple(tuple(g.key() if g is not None else None for g in r) for r in grid),
           tuple(x.key() for x in rows), tuple(x.key() for x in cols))
    m = matom(key, (add(*rows), add(*cols)), cplx=any(mat_cplx(g) for r in grid for g in r if g is not None))
    _BLOCK[m.t[0][0][0]] = (grid, rows, cols)
    return m


def mat_cplx(m):
    return any(is_cplx(s) or any(_ATOMS[i].cplx for i in ch) for ch, s in m.t)


def block_apply(blk, p, tr):
    grid, rows, cols = blk
    if tr:
        grid = [[mtrans(grid[i][j]) if grid[i][j] is not None else None for i in range(len(rows))] for j in range(len(cols))]
        rows, cols = cols, rows
    parts, off = [], ZERO
    for n in cols:
        parts.append(part(p, off, n))
        off = add(off, n)
    out = []
    for i, n in enumerate(rows):
        x = Poly({}, n)
        for j in range(len(cols)):
            if grid[i][j] is not None:
                x = add(x, app(grid[i][j], parts[j]))
        out.append((x, n))
    return cat(out)


def app(m, p):
    out = []
    for ch, s in m.t:
        x = p
        for i in reversed(ch):
            x = app_atom(i, x)
        out.append(mul(s, x))
    r = add(*out) if out else Poly({})
    return Poly(r.t, m.shape[0] if r.n is None else r.n)


# ---------------------------------------------------------------- masks, selections, scatters

def take(p, idx):
    """p[idx] with an index vector or a boolean mask (opaque), elementwise."""
    if isinstance(p, Stack):
        return Stack([take(x, idx) for x in p.cols], p.axis)
    if isinstance(p, Mat):
        return None
    mi = idx.mono() if isinstance(idx, Poly) else None
    ki = _ATOMS[mi[0][0][0]].key if mi and len(mi[0]) == 1 and mi[1] == C1 else None
    if ki and ki[0] == "ssorted" and ki[3] == p:
        # sorter[searchsorted(x, y, sorter)] = position of y in x
        return poly(atom(("pos", ki[1], ki[2]), vec=True))

    def one(v):
        out = ONE
        for i, e in list(v.t)[0]:
            a = _ATOMS[i]
            y = poly(atom(("take", poly(a), idx), vec=True, cplx=a.cplx))
            out = mul(out, power(y, e) if e > 0 else inv(power(y, -e)))
        return out

    r = linear(p, one, lambda v: ONE)
    return Poly(r.t, idxlen(idx) if is_vec(p) else None)


def untake(p, idx, ind):
    """Scatter of p at the mask/index idx into zeros: takes with the same idx are undone."""
    out = []
    for m, c in p.t.items():
        x = Poly({(): c})
        ok = True
        for i, e in m:
            a = _ATOMS[i]
            if a.vec:
                if a.key[0] == "take" and a.key[2] == idx:
                    y = a.key[1]
                elif a.key[0] == "cat":
                    ok = False
                    break
                else:
                    ok = False
                    break
            else:
                y = poly(a)
            x = mul(x, power(y, e) if e > 0 else inv(power(y, -e)))
        if not ok:
            s, v = split(m)
            out.append(mul(Poly({s: c}), poly(atom(("scatter", Poly({v: C1}), idx), vec=True, cplx=is_cplx(Poly({v: C1}))))))
        else:
            out.append(mul(x, ind))
    return add(*out) if out else Poly({})


def part(base, off, n):
    """base[off:off+n] for a vector polynomial."""
    if isinstance(base, Stack):
        return Stack([part(x, off, n) for x in base.cols], base.axis)

    def one(v):
        m = list(v.t)[0]
        out = ONE
        for i, e in m:
            a = _ATOMS[i]
            y = part_atom(a, off, n)
            out = mul(out, power(y, e) if e > 0 else inv(power(y, -e)))
        return out

    r = linear(base, one, lambda v: ONE)
    return Poly(r.t, n)


def part_atom(a, off, n):
    k = a.key
    if k[0] == "part":
        return part_atom_new(k[1], add(k[2], off), n)
    if k[0] == "cat":
        end = add(off, n)
        out = []
        pos = ZERO
        got = ZERO
        for q, ln in k[1]:
            nxt = add(pos, ln)
            if nonneg(sub(pos, end)):
                break
            if not nonneg(sub(off, nxt)):
                # overlap of [pos, nxt) with [off, end)
                lo = off if nonneg(sub(off, pos)) else (pos if nonneg(sub(pos, off)) else None)
                hi = end if nonneg(sub(nxt, end)) else (nxt if nonneg(sub(end, nxt)) else None)
                if lo is None or hi is None:
                    out = None
                    break
                m = sub(hi, lo)
                if not m.is_zero():
                    if m == ln:
                        out.append((q, ln))
                    elif not is_vec(q):
                        out.append((q, m))
                    else:
                        out.append((part(q, sub(lo, pos), m), m))
                    got = add(got, m)
            pos = nxt
        if out is not None and got == n:
            return cat(out)
    if k[0] == "conj":
        return conj(part(k[1], off, n))
    ln = alen(a)
    if off.is_zero() and ln == n:
        return poly(a)
    return part_atom_new(poly(a), off, n)


def nonneg(p):
    """Sum of positive multiples of lengths (syntactic)."""
    return all(c[1] == 0 and c[0] > 0 for c in p.t.values())


def part_atom_new(base, off, n):
    if off.is_zero() and vlen(base) == n:
        return base
    return poly(atom(("part", base, off, n), vec=True, cplx=is_cplx(base)))


def arange(lo, hi):
    return poly(atom(("arange", lo, hi), vec=True))


# ---------------------------------------------------------------- substitution

def subst(p, table, memo=None):
    """Replace atoms (id -> value) everywhere, re-normalising."""
    memo = {} if memo is None else memo
    if isinstance(p, Stack):
        return Stack([subst(x, table, memo) for x in p.cols], p.axis)
    if isinstance(p, Seq):
        return Seq([subst(x, table, memo) for x in p.items])
    if isinstance(p, Mat):
        return p
    if not isinstance(p, Poly):
        return p
    out = []
    for m, c in p.t.items():
        x = Poly({(): c}, p.n)
        for i, e in m:
            y = _subst_atom(i, table, memo)
            x = mul(x, power(y, e) if e > 0 else inv(power(y, -e)))
        out.append(x)
    return add(*out) if out else Poly({}, p.n)


def _subst_atom(i, table, memo):
    if i in table:
        return table[i]
    if i in memo:
        return memo[i]
    a = _ATOMS[i]
    k = a.key
    memo[i] = poly(a)
    if k[0] in ("sym", "pi", "mu0"):
        return poly(a)
    if k[0] == "cat":
        r = cat([(subst(p, table, memo), subst(n, table, memo)) for p, n in k[1]])
    elif k[0] == "poly":
        q = subst(_POLYVAL[i], table, memo)
        r = inv(inv(q)) if q.mono() is None else q
    elif k[0] == "app":
        r = app_atom(k[1], subst(k[2], table, memo))
    elif k[0] == "conj":
        r = conj(subst(k[1], table, memo))
    elif k[0] == "abs":
        r = absval(subst(k[1], table, memo))
    elif k[0] == "sum":
        r = vsum(subst(k[1], table, memo))
    elif k[0] == "comp":
        r = comp(subst(k[1], table, memo), k[2])
    elif k[0] == "part":
        r = part(subst(k[1], table, memo), subst(k[2], table, memo), subst(k[3], table, memo))
    elif k[0] == "take":
        r = take(subst(k[1], table, memo), subst(k[2], table, memo))
    elif k[0] == "sqrt":
        r = sqrt(subst(k[1], table, memo))
    else:
        nk = tuple(subst(x, table, memo) if isinstance(x, Val) else
                   (tuple(subst(y, table, memo) if isinstance(y, Val) else y for y in x) if isinstance(x, tuple) else x)
                   for x in k)
        r = poly(atom(nk, vec=a.vec, cplx=a.cplx)) if nk != k else poly(a)
    memo[i] = r
    return r


def atoms_in(p, deep=True, seen=None):
    """All the atoms of a value (recursively)."""
    seen = {} if seen is None else seen

    def rec(x):
        if isinstance(x, Poly):
            for m in x.t:
                for i, _ in m:
                    one(i)
        elif isinstance(x, (Stack,)):
            for y in x.cols:
                rec(y)
        elif isinstance(x, Seq):
            for y in x.items:
                rec(y)
        elif isinstance(x, Grid):
            rec(x.v)
        elif isinstance(x, Blk):
            for r in x.rows:
                for y in r:
                    rec(y)
            rec(x.rperm)
            rec(x.cperm)
        elif isinstance(x, Mat):
            for ch, s in x.t:
                rec(s)
                for i in ch:
                    one(i)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    def one(i):
        if i in seen:
            return
        a = _ATOMS[i]
        seen[i] = a
        if deep:
            if a.key[0] == "poly":
                rec(_POLYVAL[i])
            elif a.key[0] in ("app",):
                one(a.key[1])
                rec(a.key[2])
            elif a.key[0] == "mT":
                one(a.key[1])
            else:
                for x in a.key[1:]:
                    rec(x)

    rec(p)
    return seen


def coeff(p, a):
    """Split p = a * q + r with q free of a at top level: returns (q, r); exponent one only."""
    q, r = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        if d.get(a.id) == 1:
            d.pop(a.id)
            q[tuple(sorted(d.items()))] = c
        else:
            r[m] = c
    return Poly(q), Poly(r)


def atoms_in_top(p, stop):
    """Atoms of a value, not looking into the atoms of the stop set."""
    seen = {i: None for i in stop}
    out = atoms_in(p, True, seen)
    return {i: a for i, a in out.items() if a is not None}
