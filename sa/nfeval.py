"""Interpretation of value-graph terms in the algebraic normal form (sa.nf)."""

from fractions import Fraction

from sa import nf
from sa.nf import (
    Poly, Mat, Stack, Seq, Opq, Grid, Blk, Val, atom, poly, add, sub, mul, neg, inv, power, conj, real, imag,
    absval, sqrt, vlen, vsum, comp, app, take, untake, part, cat, matom, madd, mscale, mtrans, mmul,
    is_vec, is_cplx, ZERO, ONE, PI, MU0, _ATOMS,
)
from sa.term import T, NONE, is_const, cval, ext

CASTS = {
    "numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d",
    "numpy.complex128", "numpy.complex64", "numpy.float64", "builtins.float", "builtins.complex", "numpy.copy",
    "numpy.squeeze", "numpy.require", "copy.copy", "copy.deepcopy", "builtins.list", "builtins.tuple",
    "numpy.ravel", "numpy.int64", "numpy.real_if_close",
}
SPARSE = ("csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array", "coo_array", "lil_matrix", "bsr_matrix")
SCALAR_FN = {"builtins.len", "builtins.max", "builtins.min", "numpy.max", "numpy.min", "numpy.prod", "builtins.sum"}
FFTN = ("fftn", "ifftn")


class Unknown(Exception):
    pass


def S(v):
    return poly(atom(("sym", v)))


class Evaluator:
    """decide(kind, poly) may settle conditions; vec: names of the vector symbols."""

    def __init__(self, vec=(), positive=(), zero=(), nonzero=(), facts=None, cplx=(), lens=None, vec3=()):
        self.vec = set(vec)
        self.cplx = set(cplx)
        self.zero = set(zero)
        self.nonzero = set(nonzero)
        self.positive = set(positive)
        self.facts = facts or {}
        self.memo = {}
        self.sols = {}
        self.lens = lens or {}
        self.vec3 = set(vec3)
        self.unknown = {}
        # conditions which the assumptions leave open, and the case which is analysed: [(difference, sign)]
        self.open = []
        self.cases = []

    # ------------------------------------------------------------ conditions

    @staticmethod
    def case_key(p):
        """(difference, sign) of a difference of two monomials which takes both signs, else None."""
        if len(p.t) != 2 or any(x[1] != 0 for x in p.t.values()):
            return None
        for m in p.t:
            for i, e in m:
                k = _ATOMS[i].key
                if not (k[0] == "len" or k[0] == "sym"):
                    return None
        m = sorted(m for m in p.t if m)[0]
        x = p.t[m][0]
        q = Poly({k: (c[0]/x, c[1]) for k, c in p.t.items()})
        return (q, 1 if x > 0 else -1) if min(c[0] for c in q.t.values()) < 0 < max(c[0] for c in q.t.values()) else None

    def case(self, op, d):
        """Truth of a comparison in the case which is analysed; an open comparison is recorded with its cases."""
        k = self.case_key(d)
        if k is None or not all(self.sign(Poly({m: nf.C1})) == 1 for m in k[0].t):
            return None
        q, sgn = k
        m = [m for m in q.t if m][0]
        whole = () in q.t and q.t[()][0].denominator == 1 and all(
            e > 0 and (_ATOMS[i].key[0] == "len" or _ATOMS[i].key in (("sym", "nx"), ("sym", "ny"), ("sym", "nz"))) for i, e in m)
        if op in ("==", "!="):
            s = self.case_sign(q)
            if s is not None:
                return (s == 0) == (op == "==")
            # with a length of one, many operations are the same
            self.open.append((q, (1,) if whole and -q.t[()][0] <= 1 else (1, 0)))
            return None
        op = op if sgn == 1 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        if whole:
            q = add(q, nf.const(Fraction(-1, 2) if op in (">", "<=") else Fraction(1, 2)))
        s = self.case_sign(q)
        if s is not None:
            return (s > 0) if op in (">", ">=") else (s < 0)
        self.open.append((q, (1,) if whole and -q.t[()][0] < 2 else (1, -1)))
        return None

    def case_sign(self, p):
        k = self.case_key(p) if self.cases else None
        if k is None:
            return None
        q, s = k
        for d, v in self.cases:
            if d == q:
                return s*v
            # thresholds of the same quantity
            x = sub(d, q)
            if x.is_const() and () in q.t:
                if v == 0:
                    return s*(1 if x.cval()[0] < 0 else -1)
                if v == (1 if x.cval()[0] < 0 else -1):
                    return s*v
        return None

    def sign(self, p):
        """+1 / 0 / -1 / None for a scalar polynomial (lengths and dimensions are positive)."""
        p = self._zeroed(p)
        if p.is_zero():
            return 0
        signs = set()
        for m, c in p.t.items():
            if c[1] != 0:
                return None
            s = 1 if c[0] > 0 else -1
            for i, e in m:
                a = _ATOMS[i]
                k = a.key
                if k[0] in ("len", "pi", "mu0") or (k[0] == "sym" and k[1] in self.positive):
                    continue
                return None
            signs.add(s)
        return signs.pop() if len(signs) == 1 else self.case_sign(p)

    def _zeroed(self, p):
        t = {}
        for m, c in p.t.items():
            if any(_ATOMS[i].key[0] == "sym" and _ATOMS[i].key[1] in self.zero for i, _ in m):
                continue
            t[m] = c
        return Poly(t, p.n)

    def cond(self, t):
        op, a = t.op, t.args
        if t.cid in self.facts:
            return self.facts[t.cid]
        if is_const(t):
            return bool(cval(t))
        if op == "un" and a[0] == "not":
            r = self.cond(a[1])
            return None if r is None else not r
        if op in ("and", "or"):
            rs = [self.cond(x) for x in a[0]]
            if op == "and":
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if op == "trybody":
            return True
        if op == "cmp":
            try:
                x, y = self.ev(a[1]), self.ev(a[2])
            except Unknown:
                return None
            if isinstance(x, Seq) and isinstance(y, Seq) and a[0] in ("==", "!="):
                if len(x.items) != len(y.items):
                    return a[0] == "!="
                ss = [self.sign(sub(u, v)) if isinstance(u, Poly) and isinstance(v, Poly) else None for u, v in zip(x.items, y.items)]
                if any(q in (1, -1) for q in ss):
                    return a[0] == "!="
                if all(q == 0 for q in ss):
                    return a[0] == "=="
                return None
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                return None
            d = sub(x, y)
            if is_vec(d):
                return None
            s = self.sign(d)
            if s is None and len(d.t) == 1 and a[0] in ("==", "!="):
                i = list(d.t)[0]
                if len(i) == 1 and _ATOMS[i[0][0]].key[0] == "sym" and _ATOMS[i[0][0]].key[1] in self.nonzero:
                    return a[0] == "!="
            if s is None:
                # integers: n >= 1 for the lengths
                r = self._cmp_len(a[0], d)
                return self.case(a[0], self._zeroed(d)) if r is None else r
            return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}.get(a[0])
        if op in ("call", "item", "attr", "sym", "bin"):
            try:
                x = self.ev(t)
            except Unknown:
                return None
            if isinstance(x, Poly) and not is_vec(x):
                s = self.sign(x)
                if s is not None:
                    return s != 0
                i = list(x.t)[0] if len(x.t) == 1 else ()
                if len(i) == 1 and _ATOMS[i[0][0]].key[0] == "sym" and _ATOMS[i[0][0]].key[1] in self.nonzero:
                    return True
        return None

    def _cmp_len(self, op, d):
        """d = (sum of positive terms) + c with c = -1: lengths are at least one."""
        c = d.t.get((), nf.C0)
        rest = Poly({m: x for m, x in d.t.items() if m})
        for m, x in rest.t.items():
            if x[1] != 0 or x[0].denominator != 1 or any(e < 0 or _ATOMS[i].key[0] != "len" and _ATOMS[i].key not in (("sym", "nx"), ("sym", "ny"), ("sym", "nz")) for i, e in m):
                return None
        if c[1] == 0 and c[0] >= -1 and self.sign(rest) == 1 and rest.t:
            lo = 1 + c[0]
            if lo > 0:
                return {"==": False, "!=": True, "<": False, "<=": False, ">": True, ">=": True}.get(op)
            return {"<": False, ">=": True}.get(op)
        if c[1] == 0 and c[0] <= 1 and self.sign(rest) == -1 and rest.t:
            hi = -1 + c[0]
            if hi < 0:
                return {"==": False, "!=": True, "<": True, "<=": True, ">": False, ">=": False}.get(op)
            return {">": False, "<=": True}.get(op)
        return None

    # ------------------------------------------------------------ evaluation

    def ev(self, t):
        r = self.memo.get(t.cid)
        if r is None:
            r = self._ev(t)
            self.memo[t.cid] = r
        return r

    def p(self, t):
        """Value as a polynomial (opaque when it is not one)."""
        return self.asp(self.ev(t), t)

    def asp(self, v, t=None):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opq):
            return poly(atom(("opq", v), vec=False))
        return poly(atom(("val", v), vec=True, cplx=is_cplx(v) if isinstance(v, Stack) else False))

    def _ev(self, t):
        f = getattr(self, "_ev_" + t.op, None)
        if f is None:
            return self.opaque(t)
        r = f(t)
        return self.opaque(t) if r is None else r

    def opaque(self, t):
        self.unknown[t.cid] = t
        if t.op in ("func", "class", "ext", "mod", "ref"):
            return Opq(t)
        # rebuild the key over the normal forms of the children
        key = []
        cplx = False
        for a in t.args:
            k, c = self._k(a)
            key.append(k)
            cplx = cplx or c
        vec = t.op not in ("attr",)
        return poly(atom(("op", t.op) + tuple(key), vec=vec, cplx=cplx))

    def _k(self, a):
        if isinstance(a, T):
            v = self.ev(a)
            return v, isinstance(v, (Poly, Stack)) and is_cplx(v)
        if isinstance(a, tuple):
            ks = [self._k(x) for x in a]
            return tuple(k for k, _ in ks), any(c for _, c in ks)
        return a, False

    def _ev_const(self, t):
        v = cval(t)
        if isinstance(v, (bool, int, float, complex)) and v == v and abs(v) != float("inf"):
            return nf.const(v)
        return Opq(t)

    def _ev_sym(self, t):
        n = t.args[0]
        if n in self.zero:
            return ZERO
        if n in self.vec3:
            return Stack([poly(atom(("sym", n + "." + k), vec=True)) for k in "xyz"], 1)
        return poly(atom(("sym", n), vec=n in self.vec, cplx=n in self.cplx))

    def _ev_ext(self, t):
        n = t.args[0]
        if n in ("numpy.pi", "math.pi", "scipy.constants.pi", "scipy.pi"):
            return PI
        if n == "scipy.constants.mu_0":
            return MU0
        return Opq(t)

    def _ev_tuple(self, t):
        return Seq([self.ev(x) for x in t.args[0]])

    def _ev_list(self, t):
        return Seq([self.ev(x) for x in t.args[0]])

    def _ev_phi(self, t):
        c = self.cond(t.args[0])
        if c is not None:
            return self.ev(t.args[1] if c else t.args[2])
        a, b = self.ev(t.args[1]), self.ev(t.args[2])
        if a == b:
            return a
        return poly(atom(("phi", t.args[0].cid, a, b), vec=True, cplx=True))

    def _ev_un(self, t):
        op, x = t.args[0], self.ev(t.args[1])
        if op == "-":
            return self.binop("*", nf.const(-1), x)
        if op == "+":
            return x
        if op == "~":
            return self.invert(x)
        return None

    def _ev_bin(self, t):
        return self.binop(t.args[0], self.ev(t.args[1]), self.ev(t.args[2]), t)

    def _ev_cmp(self, t):
        """Block masks written with comparisons."""
        x, y = self.ev(t.args[1]), self.ev(t.args[2])
        if t.args[0] == "==":
            for u, v in ((x, y), (y, x)):
                if isinstance(v, Poly) and v.is_const() and isinstance(u, Poly):
                    m = u.mono()
                    if m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "floordiv":
                        k = _ATOMS[m[0][0][0]].key
                        return poly(atom(("ind", k[1], int(v.cval()[0]), k[2]), vec=True))
        if isinstance(x, Grid) or isinstance(y, Grid):
            return self.compare(t.args[0], x, y)
        vec = any(isinstance(v, Poly) and is_vec(v) or isinstance(v, (Stack,)) for v in (x, y))
        r = self.one_sided(t.args[0], x, y)
        if r is not None:
            return r
        return poly(atom(("cmp", t.args[0], x, y), vec=vec))

    def one_sided(self, op, x, y):
        """Block masks written with a single bound (an index is not negative, and smaller than the length of the mask)."""
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return None
        if is_vec(y) and not is_vec(x):
            x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        m = x.mono()
        if not m or is_vec(y) or len(m[0]) != 1 or m[1] != nf.C1 or m[0][0][1] != 1 or _ATOMS[m[0][0][0]].key[0] != "nz":
            return None
        if op in ("<=", ">"):
            op, y = {"<=": "<", ">": ">="}[op], add(y, ONE)
        if op == "<":
            return self.block_mask(x, ZERO, y)
        if op == ">=":
            n = vlen(_ATOMS[m[0][0][0]].key[1])
            if isinstance(n, Poly):
                return self.block_mask(x, y, n)
        return None

    def _ev_and(self, t):
        return None

    _ev_or = _ev_and

    # ------------------------------------------------------------ arithmetic

    def lift(self, v):
        if isinstance(v, Seq):
            # tuple / list of numbers used as an array
            return Stack(v.items, 1) if len(v.items) == 3 and all(isinstance(x, Poly) for x in v.items) else None
        if isinstance(v, Opq):
            return None
        return v

    def binop(self, op, x, y, t=None):
        if op == "@" or (op == "*" and (isinstance(x, Mat) or isinstance(y, Mat))):
            r = self.matmul(x, y)
            if r is not None:
                return r
        if isinstance(x, Seq) and isinstance(y, Seq) and op == "+":
            return Seq(x.items + y.items)
        x, y = self.lift(x), self.lift(y)
        if x is None or y is None:
            return None
        for u, v in ((x, y), (y, x)):
            if isinstance(u, Grid) and u.col is not None and isinstance(v, Stack) and v.axis == 1:
                w = Stack([u.col]*len(v.cols), 1)
                return self.stackop(op, *((w, v) if u is x else (v, w)))
            if isinstance(u, Grid) and u.col is not None and isinstance(v, Poly) and not is_vec(v):
                w = self.binop(op, *((u.col, v) if u is x else (v, u.col)))
                if isinstance(w, Poly):
                    return self.column(w)
        if isinstance(x, Grid) or isinstance(y, Grid):
            return self.gridop(op, x, y)
        if isinstance(x, Mat) and isinstance(y, Mat) and op in ("+", "-"):
            return madd(x, y if op == "+" else mscale(y, nf.const(-1)))
        if isinstance(x, Mat) and op == "/" and isinstance(y, Poly) and not is_vec(y):
            return mscale(x, inv(y))
        if isinstance(x, Mat) or isinstance(y, Mat):
            return None
        if isinstance(x, Stack) or isinstance(y, Stack):
            return self.stackop(op, x, y)
        if op == "+":
            return add(x, y)
        if op == "-":
            return sub(x, y)
        if op == "*":
            return mul(x, y)
        if op == "/":
            return mul(x, inv(y))
        if op == "**":
            if y.is_const() and y.cval()[1] == 0:
                e = y.cval()[0]
                if e.denominator == 1 and abs(e) <= 12:
                    return power(x, int(e))
                if e.denominator == 2 and abs(e) <= 12:
                    return power(sqrt(x), int(2 * e))
            return None
        if op == "//":
            return poly(atom(("floordiv", x, y), vec=is_vec(x) or is_vec(y)))
        if op == "%":
            return poly(atom(("mod", x, y), vec=is_vec(x) or is_vec(y)))
        if op == "&":
            m = self.range_mask(x, y)
            if m is not None:
                return m
        return None

    def gridop(self, op, x, y):
        if isinstance(x, Grid) and isinstance(y, Grid) and x.shape != y.shape:
            if len(x.shape) != len(y.shape) or not all(a == b or a == ONE or b == ONE for a, b in zip(x.shape, y.shape)):
                return None
            sh = tuple(b if a == ONE else a for a, b in zip(x.shape, y.shape))
        else:
            sh = x.shape if isinstance(x, Grid) else y.shape
        vs = []
        for q in (x, y):
            if isinstance(q, Grid):
                vs.append(q.v)
            elif isinstance(q, Poly) and q.is_const() and (not isinstance(q.n, Poly)):
                vs.append(Poly(q.t))
            elif isinstance(q, Poly) and not is_vec(q):
                vs.append(q)
            else:
                return None
        if op not in ("+", "-", "*"):
            return None
        r = self.binop(op, *vs)
        return Grid(sh, r) if isinstance(r, Poly) else None

    def compare(self, op, x, y):
        """Comparison of dense matrices: indicators of negative differences."""
        d = self.gridop("-", x, y)
        if not isinstance(d, Grid):
            return None
        p, q = d.v, neg(d.v)
        if op == "<":
            v = nf.negative(p)
        elif op == ">":
            v = nf.negative(q)
        elif op == ">=":
            v = sub(ONE, nf.negative(p))
        elif op == "<=":
            v = sub(ONE, nf.negative(q))
        else:
            return None
        return Grid(d.shape, v)

    def invert(self, x):
        if isinstance(x, Grid):
            return Grid(x.shape, sub(ONE, x.v))
        if isinstance(x, Poly) and x in (ZERO, ONE):
            return Poly(sub(ONE, x).t, x.n)
        return None

    def lookup(self, b, key):
        """Values of a flat array at the positions given by a dense matrix."""
        return Grid(key.shape, nf.linear(b, lambda x: poly(atom(("lookup", x, key.v)))))

    def blk_item(self, b, key):
        ks = list(key.args[0]) if key.op == "tuple" else [key]
        perm = [b.rperm, b.cperm]
        for k, q in enumerate(ks):
            if self.full(q):
                continue
            v = self.ev(q)
            if not (isinstance(v, Poly) and is_vec(v)) or perm[k] is not None or b.tr:
                return None
            perm[k] = v
        if len(ks) == 2 and not any(self.full(q) for q in ks):
            return None
        return Blk(b.rows, *perm)

    def block(self, pos):
        v = self.ev(pos[0])
        if not isinstance(v, Seq) or not all(isinstance(r, Seq) for r in v.items):
            return None
        rows = []
        for r in v.items:
            row = []
            for x in r.items:
                if isinstance(x, Grid) and len(x.shape) == 2:
                    row.append(x.v)
                elif isinstance(x, Poly) and x.is_const():
                    row.append(Poly(x.t))
                else:
                    return None
            rows.append(row)
        return Blk(rows)

    def grid_item(self, b, key):
        ks = list(key.args[0]) if key.op == "tuple" else [key]
        if len(ks) > len(b.shape):
            return None
        sh, tab = list(b.shape), {}
        if len(sh) == 2 and not any(a.key[0] == "ax" for a in nf.atoms_in(b.v, False).values()) and any(s.op != "slice" for s in ks):
            return self.blk_item(Blk([[b.v]]), key)
        for k, s in enumerate(ks):
            if s.op != "slice" or not (s.args[2] == NONE or (is_const(s.args[2]) and cval(s.args[2]) in (None, 1))):
                return None
            lo = ZERO if s.args[0] == NONE or (is_const(s.args[0]) and cval(s.args[0]) is None) else self.ev(s.args[0])
            hi = b.shape[k] if s.args[1] == NONE or (is_const(s.args[1]) and cval(s.args[1]) is None) else self.ev(s.args[1])
            if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
                return None
            lo, hi = [add(b.shape[k], q) if q.is_const() and q.cval()[0] < 0 else q for q in (lo, hi)]
            sh[k] = sub(hi, lo)
            if not lo.is_zero():
                tab[atom(("ax", k)).id] = add(nf.ax(k), lo)
        return Grid(sh, nf.subst(b.v, tab) if tab else b.v)

    def arange_grid(self, x, sh, order):
        """Index range reshaped into a box."""
        m = x.mono()
        if not (m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "arange"):
            return None
        k = _ATOMS[m[0][0][0]].key
        n = ONE
        for q in sh:
            n = mul(n, q)
        if order not in ("C", "F") or not (k[1].is_zero() and k[2] == n):
            return None
        st, v = ONE, ZERO
        ks = range(len(sh)) if order == "F" else reversed(range(len(sh)))
        for q in ks:
            v = add(v, mul(st, nf.ax(q)))
            st = mul(st, sh[q])
        return Grid(sh, v)

    def range_mask(self, x, y):
        lo = hi = None
        var = None
        for v in (x, y):
            m = v.mono() if isinstance(v, Poly) else None
            if not (m and len(m[0]) == 1 and _ATOMS[m[0][0][0]].key[0] in ("cmp", "ind")):
                return None
            if _ATOMS[m[0][0][0]].key[0] == "ind":
                _, a, k, n = _ATOMS[m[0][0][0]].key
                if var is not None and var != a or (k != 0 and lo is not None) or (k == 0 and hi is not None):
                    return None
                var = a
                if k == 0:
                    hi = n
                    lo = ZERO if lo is None and v is y else lo
                else:
                    lo = mul(nf.const(k), n)
                    hi = add(lo, n) if hi is None and v is y else hi
                continue
            _, op, a, b = _ATOMS[m[0][0][0]].key
            if not (isinstance(a, Poly) and isinstance(b, Poly)):
                return None
            if is_vec(b) and not is_vec(a):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if var is not None and var != a:
                return None
            var = a
            if op == ">=":
                lo = b
            elif op == "<":
                hi = b
        if var is None or lo is None or hi is None:
            return None
        return self.block_mask(var, lo, hi)

    def block_mask(self, var, lo, hi):
        n = sub(hi, lo)
        if n.is_zero():
            return None
        for k in range(0, 8):
            if mul(nf.const(k), n) == lo:
                return poly(atom(("ind", var, k, n), vec=True))
        return None

    def stackop(self, op, x, y):
        if isinstance(x, Stack) and isinstance(y, Stack):
            if x.axis != y.axis or len(x.cols) != len(y.cols):
                return None
            cols = [self.binop(op, a, b) for a, b in zip(x.cols, y.cols)]
        elif isinstance(x, Stack):
            cols = [self.binop(op, a, self.colof(y, k, x)) for k, a in enumerate(x.cols)]
            return self.mkstack(cols, x.axis)
        else:
            cols = [self.binop(op, self.colof(x, k, y), b) for k, b in enumerate(y.cols)]
            return self.mkstack(cols, y.axis)
        return self.mkstack(cols, x.axis)

    def mkstack(self, cols, axis):
        if any(not isinstance(c, Poly) for c in cols):
            return None
        return Stack(cols, axis)

    def colof(self, v, k, st):
        """Broadcast of v against column k of a (N, 3) stack."""
        if not is_vec(v):
            return v
        if st.axis == 1:
            return comp(v, k)
        return v

    def matmul(self, x, y):
        if isinstance(x, Blk) and isinstance(y, Poly) and is_vec(y):
            return nf.linear(y, lambda w: poly(atom(("dapp", x, False, w), vec=True, cplx=is_cplx(w))))
        if isinstance(y, Blk) and isinstance(x, Poly) and is_vec(x):
            return nf.linear(x, lambda w: poly(atom(("dapp", y, True, w), vec=True, cplx=is_cplx(w))))
        if isinstance(x, Blk) or isinstance(y, Blk):
            return None
        x = self.lift(x) if not isinstance(x, Mat) else x
        y = self.lift(y) if not isinstance(y, Mat) else y
        if x is None or y is None:
            return None
        if isinstance(x, Mat) and isinstance(y, Mat):
            return mmul(x, y)
        if isinstance(x, Mat) and isinstance(y, Poly):
            if not is_vec(y):
                return mscale(x, y)
            return app(x, y)
        if isinstance(x, Poly) and isinstance(y, Mat):
            if not is_vec(x):
                return mscale(y, x)
            return app(mtrans(y), x)
        if isinstance(x, Stack) and isinstance(y, Mat) and x.axis == 0:
            return Stack([app(mtrans(y), c) for c in x.cols], 0)
        if isinstance(x, Mat) and isinstance(y, Stack) and y.axis == 1:
            return Stack([app(x, c) for c in y.cols], 1)
        if isinstance(x, Poly) and isinstance(y, Poly):
            if is_vec(x) and is_vec(y) and not self.is2d(x) and not self.is2d(y):
                return vsum(mul(x, y))
            return self.bilinear("matmul", x, y)
        return None

    def is2d(self, p):
        return any(a.key[0] in ("mesh", "fn", "op") for a in (_ATOMS[i] for m in p.t for i, _ in m))

    def bilinear(self, name, x, y):
        def one(v):
            return nf.linear(y, lambda w: poly(atom((name, v, w), vec=True, cplx=is_cplx(v) or is_cplx(w))))
        return nf.linear(x, one)

    # ------------------------------------------------------------ attributes / items

    def shape(self, v):
        if isinstance(v, Mat):
            return v.shape
        if isinstance(v, Poly):
            if isinstance(v.n, Seq):
                return v.n.items
            for m in v.t:
                for i, _ in m:
                    if i in self.ashape:
                        return self.ashape[i]
                    k = _ATOMS[i].key
                    if k[0] == "comp":
                        sh = self.shape(k[1])
                        if sh is not None and len(sh) > 1 and None not in sh:
                            return tuple(sh[:-1])
            n = vlen(v)
            if n is not None and not isinstance(n, Seq):
                return (n,) + (None,) * 3
        if isinstance(v, Stack):
            n = vlen(v.cols[0])
            if n is None:
                return None
            sh = n.items if isinstance(n, Seq) else (n,)
            return (tuple(sh) + (nf.const(len(v.cols)),)) if v.axis == 1 else (nf.const(len(v.cols)),) + tuple(sh)
        return None

    ashape = {}

    def _ev_attr(self, t):
        x, name = self.ev(t.args[0]), t.args[1]
        if name == "T":
            return self.transpose(x)
        if name == "shape":
            sh = self.shape(x)
            if sh is not None and all(s is not None for s in sh):
                return Seq(sh)
            return None
        if name in ("real", "imag") and isinstance(x, (Poly, Stack)):
            return (real if name == "real" else imag)(x)
        if name == "size" and isinstance(x, Poly):
            n = vlen(x)
            return n if isinstance(n, Poly) else None
        if name == "flat":
            return x
        return None

    def transpose(self, x):
        if isinstance(x, Mat):
            return mtrans(x)
        if isinstance(x, Blk):
            return Blk(x.rows, x.rperm, x.cperm, not x.tr)
        if isinstance(x, Stack):
            return Stack(x.cols, 1 - x.axis)
        if isinstance(x, Poly):
            if not self.is2d(x):
                return x
        return None

    def _ev_item(self, t):
        base, key = t.args
        # shape[k] of partially known shapes
        if base.op == "attr" and base.args[1] == "shape" and is_const(key):
            x = self.ev(base.args[0])
            sh = self.shape(x)
            k = cval(key)
            if sh is not None and isinstance(k, int) and -len(sh) <= k < len(sh) and sh[k] is not None:
                return sh[k]
            return poly(atom(("shape", self.keyof(x), k)))
        if is_const(key) and isinstance(cval(key), str):
            b = self.ev(base)
            return poly(atom(("get", self.keyof(b), cval(key)), vec=False))
        b = self.ev(base)
        if isinstance(b, Seq):
            if is_const(key) and isinstance(cval(key), int) and -len(b.items) <= cval(key) < len(b.items):
                return b.items[cval(key)]
            if key.op == "slice":
                ks = [None if x == NONE else (cval(x) if is_const(x) else "?") for x in key.args]
                if "?" not in ks:
                    return Seq(b.items[slice(*ks)])
        if base.op == "call" and is_const(key) and base.args[0].op == "ext":
            n = base.args[0].args[0]
            if n in ("numpy.where", "numpy.nonzero") and cval(key) == 0 and len(base.args[1]) == 1:
                return self.nz(self.ev(base.args[1][0]))
            if n.endswith((".gmres", ".gcrotmk", ".lgmres", ".bicgstab", ".cg")):
                if cval(key) == 0:
                    a = atom(("sym", "X"), vec=True, cplx=True)
                    self.sols[base.cid] = base
                    # the length of the solution is the length of the right-hand side
                    if len(base.args[1]) > 1:
                        rhs = self.ev(base.args[1][1])
                        n = vlen(rhs)
                        if isinstance(n, Poly):
                            nf.LENS[a.id] = n
                    return poly(a)
        if isinstance(b, Opq):
            return None
        return self.getitem(b, key, t)

    def keyof(self, v):
        return v

    def full(self, k):
        return k.op == "slice" and all(x == NONE for x in k.args)

    def getitem(self, b, key, t=None):
        if key.op == "const" and cval(key) is None:
            return b
        if isinstance(b, Blk):
            return self.blk_item(b, key)
        if isinstance(b, Poly) and is_vec(b) and not self.is2d(b):
            if key.op == "tuple" and len(key.args[0]) == 2:
                k0, k1 = key.args[0]
                none = [k.op == "const" and cval(k) is None for k in (k0, k1)]
                n = vlen(b)
                if isinstance(n, Poly) and none[1] and self.full(k0):
                    return self.column(b)
                if isinstance(n, Poly) and none[0] and self.full(k1):
                    return Grid((ONE, n), nf.at(b, 1))
            elif key.op not in ("const", "slice", "tuple"):
                g = self.ev(key)
                if isinstance(g, Grid):
                    return self.lookup(b, g)
        if isinstance(b, Grid):
            return self.grid_item(b, key)
        if isinstance(b, Mat):
            return self.matitem(b, key)
        if isinstance(b, Seq):
            b = self.lift(b)
            if b is None:
                return None
        if key.op == "tuple":
            ks = key.args[0]
            if isinstance(b, Stack) and len(ks) >= 2:
                if b.axis == 1:
                    last = ks[-1]
                    if all(self.full(k) or self._ell(k) for k in ks[:-1]):
                        return self.pick(b, last)
                    if self.full(last) and len(ks) == 2:
                        return self.getitem(b, ks[0])
                    if len(ks) == 2:
                        r = self.pick(b, last)
                        return self.getitem(r, ks[0]) if isinstance(r, (Poly, Stack)) else None
                if b.axis == 0 and len(ks) == 2:
                    r = self.pick(b, ks[0])
                    if isinstance(r, Poly):
                        return r if self.full(ks[1]) else self.getitem(r, ks[1])
                    if self.full(ks[0]):
                        return Stack([self.getitem(c, ks[1]) for c in b.cols], 0)
                return None
            if isinstance(b, Poly):
                if all(self.full(k) or self._ell(k) for k in ks[:-1]) and is_const(ks[-1]) and isinstance(cval(ks[-1]), int):
                    return comp(b, cval(ks[-1]))
                if len(ks) == 2 and self.full(ks[1]):
                    return self.getitem(b, ks[0])
                if len(ks) == 2 and self.full(ks[0]) and ks[1].op in ("list",) and all(is_const(x) for x in ks[1].args[0]):
                    cols = [comp(b, cval(x)) for x in ks[1].args[0]]
                    return cols[0] if len(cols) == 1 else Stack(cols, 1)
                return None
        if self.full(key):
            return b
        if isinstance(b, Stack):
            if b.axis == 0:
                r = self.pick(b, key)
                if r is not None:
                    return r
            if b.axis == 1 and key.op in ("list",) and all(is_const(x) for x in key.args[0]) and not any(is_vec(c) for c in b.cols):
                return Stack([b.cols[cval(x)] for x in key.args[0]], 1)
            if b.axis == 1 and is_const(key) and not any(is_vec(c) for c in b.cols):
                return b.cols[cval(key)]
        if key.op == "slice":
            return self.slice(b, key)
        if is_const(key) and isinstance(cval(key), int) and isinstance(b, Poly):
            k = cval(key)
            if k < 0:
                return None
            return nf.linear(b, lambda v: self._el(v, k), lambda v: ONE)
        kv = self.ev(key)
        return self.index(b, kv)

    def _el(self, v, k):
        out = ONE
        for i, e in list(v.t)[0]:
            a = _ATOMS[i]
            y = poly(atom(("el", poly(a), k), vec=a.key[0] in ("unravel", "mesh"), cplx=a.cplx))
            out = mul(out, power(y, e) if e > 0 else inv(power(y, -e)))
        return out

    def _ell(self, k):
        return is_const(k) and cval(k) is Ellipsis

    def pick(self, b, k):
        if self.full(k):
            return b
        if is_const(k) and isinstance(cval(k), int) and -len(b.cols) <= cval(k) < len(b.cols):
            return b.cols[cval(k)]
        if k.op in ("list", "tuple") and all(is_const(x) and isinstance(cval(x), int) for x in k.args[0]):
            c = [b.cols[cval(x)] for x in k.args[0]]
            return c[0] if len(c) == 1 else Stack(c, b.axis)
        if k.op == "slice":
            ks = [None if x == NONE else (cval(x) if is_const(x) else "?") for x in k.args]
            if "?" not in ks:
                c = b.cols[slice(*ks)]
                return c[0] if len(c) == 1 else Stack(c, b.axis)
        return None

    def slice(self, b, key):
        lo, hi, step = key.args
        if step != NONE and not (is_const(step) and cval(step) in (None, 1)):
            return None
        lo = ZERO if lo == NONE else self.ev(lo)
        n = vlen(b)
        if hi == NONE:
            hi = n
        else:
            hi = self.ev(hi)
        if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
            return None
        if hi.is_const() and hi.cval()[0] < 0:
            hi = add(n, hi) if isinstance(n, Poly) else None
        if hi is None or isinstance(n, Seq):
            return None
        return part(b, lo, sub(hi, lo))

    def nz(self, m):
        """Index vector of the true entries of a mask."""
        if isinstance(m, Poly):
            return poly(atom(("nz", m), vec=True))
        return None

    def gather(self, b, kv):
        """Elements of a field with components (linear in the field)."""
        if not all(isinstance(x, Poly) for x in b.cols):
            return poly(atom(("gather", b, kv), vec=True, cplx=is_cplx(b)))
        out = []
        for k, col in enumerate(b.cols):
            def one(x, k=k):
                s = Stack([x if j == k else ZERO for j in range(len(b.cols))], b.axis)
                return poly(atom(("gather", s, kv), vec=True, cplx=is_cplx(x)))

            if col.t:
                out.append(nf.linear(col, one))
        return add(*out) if out else ZERO

    def index(self, b, kv):
        """b[kv] for an index vector / mask value."""
        if isinstance(kv, Poly):
            m = kv.mono()
            if m and len(m[0]) == 1 and m[1] == nf.C1 and m[0][0][1] == 1:
                k = _ATOMS[m[0][0][0]].key
                if k[0] == "arange":
                    return part(b, k[1], sub(k[2], k[1]))
                if k[0] == "nz":
                    kv = k[1]
                if k[0] == "pos":
                    # x[position of y in x] = y
                    if isinstance(b, Poly) and b == k[1]:
                        return k[2]
            if is_vec(kv) and isinstance(b, (Poly, Stack)):
                if isinstance(b, Stack) and b.axis == 0:
                    return None
                if isinstance(b, Stack) and m and _ATOMS[m[0][0][0]].key[0] == "unravel":
                    return self.gather(b, kv)
                return take(b, kv)
        if isinstance(kv, (Seq, Stack)) and isinstance(b, (Poly, Stack)):
            if isinstance(b, Stack):
                return self.gather(b, kv)
            r = take(b, kv)
            return r
        return None

    def mask_of(self, kv):
        if isinstance(kv, Poly):
            m = kv.mono()
            if m and len(m[0]) == 1 and m[1] == nf.C1:
                k = _ATOMS[m[0][0][0]].key
                if k[0] == "nz":
                    return k[1]
        return kv

    def base_mat(self, m):
        """A single atom standing for the sum (normalised sign)."""
        if len(m.t) <= 1:
            return m
        lead = m.t[0][1]
        c = sorted(lead.t.items())[0][1]
        q = mscale(m, Poly({(): nf._cinv(c)}))
        r = matom(("msum", q), m.shape, cplx=any(is_cplx(s) or any(_ATOMS[i].cplx for i in ch) for ch, s in m.t))
        return mscale(r, Poly({(): c}))

    def selmat(self, kv, n):
        kv = self.mask_of(kv)
        k = self.selen(kv)
        return matom(("sel", kv), (n, k))

    def selen(self, kv):
        return nf.idxlen(kv)

    def matitem(self, b, key):
        if key.op != "tuple" or len(key.args[0]) != 2:
            return self.matitem(b, T("tuple", ((key, T("slice", (NONE, NONE, NONE))),)))
        r, c = key.args[0]
        b = self.base_mat(b)
        if not self.full(c):
            kv = self.selkey(c, b.shape[1])
            if kv is None:
                return None
            b = mmul(b, self.selmat(kv, b.shape[1]))
        if not self.full(r):
            kv = self.selkey(r, b.shape[0])
            if kv is None:
                return None
            b = mmul(mtrans(self.selmat(kv, b.shape[0])), b)
        return b

    def selkey(self, k, n):
        if k.op == "slice":
            return None
        v = self.ev(k)
        return v if isinstance(v, Poly) and is_vec(v) else None

    # ------------------------------------------------------------ stores

    def _ev_setitem(self, t):
        base, key, val = t.args
        b, v = self.ev(base), self.ev(val)
        if isinstance(v, Seq):
            v = self.lift(v) or v
        if key.op == "const" and cval(key) is Ellipsis or self.full(key):
            if isinstance(v, Poly):
                n = vlen(b)
                return Poly(v.t, v.n if v.n is not None else n)
            return v
        if isinstance(b, Mat) or isinstance(b, (Seq, Opq)):
            return None
        if key.op == "tuple":
            ks = key.args[0]
            if all(self.full(k) or self._ell(k) for k in ks[:-1]) and is_const(ks[-1]) and isinstance(v, Poly):
                k = cval(ks[-1])
                if isinstance(b, Stack) and b.axis == 1 and -3 <= k < len(b.cols):
                    c = list(b.cols)
                    c[k] = v
                    return Stack(c, 1)
                if isinstance(b, Poly) and k in (0, 1, 2):
                    sh = self.shape(b)
                    c = [comp(b, j) for j in range(3)]
                    if sh is not None and all(x is not None for x in sh):
                        n = sh[0] if len(sh) == 2 else Seq(sh[:-1])
                        c = [Poly(x.t, n) for x in c]
                    c[k] = v
                    return Stack(c, 1)
            if len(ks) == 2 and self.full(ks[1]):
                return self.store(b, self.ev(ks[0]), v)
            if len(ks) == 2 and is_const(ks[1]) and cval(ks[1]) in (0, 1, 2) and isinstance(v, Poly):
                # some rows of one column
                k, cols = cval(ks[1]), None
                if isinstance(b, Stack) and b.axis == 1 and k < len(b.cols):
                    cols = list(b.cols)
                elif isinstance(b, Poly):
                    sh = self.shape(b)
                    if sh is not None and len(sh) == 2 and all(x is not None for x in sh):
                        cols = [Poly(comp(b, j).t, sh[0]) for j in range(3)]
                if cols is not None:
                    cols[k] = self.store(cols[k], self.ev(ks[0]), v)
                    return Stack(cols, 1) if isinstance(cols[k], Poly) else None
            return None
        return self.store(b, self.ev(key), v)

    def store(self, b, kv, v):
        if isinstance(kv, Grid):
            vv = v.v if isinstance(v, Grid) and v.shape == kv.shape else v
            if not isinstance(vv, Poly) or is_vec(vv):
                return None
            if isinstance(b, Grid) and b.shape == kv.shape:
                old = b.v
            elif isinstance(b, Poly) and b.is_const():
                old = Poly(b.t)
            else:
                return None
            return Grid(kv.shape, add(mul(kv.v, Poly(vv.t)), mul(sub(ONE, kv.v), old)))
        if isinstance(kv, Poly) and kv.is_const() and isinstance(kv.n, Seq) and isinstance(b, Poly) and isinstance(kv.n, Seq) and isinstance(b.n, Seq):
            # constant mask over a dense matrix
            if kv == ONE and isinstance(v, Poly) and not is_vec(v):
                return Poly(v.t, b.n)
            if kv.is_zero():
                return b
        if not isinstance(b, Poly) or not isinstance(v, Poly):
            return None
        m = self.mask_of(kv)
        if isinstance(m, Poly):
            mm = m.mono()
            a = _ATOMS[mm[0][0][0]] if mm and len(mm[0]) == 1 else None
            if a is not None and a.key[0] == "ind":
                keep = sub(b, mul(b, m))
                r = add(keep, untake(v, m, m))
                return Poly(r.t, b.n)
        if b.is_zero():
            n = b.n
            if isinstance(n, Seq):
                key = ("shape", n)
            else:
                key = ("len", n)

            def one(x):
                a = atom(("scatter", Poly(x.t), m, key), vec=True, cplx=is_cplx(x))
                if isinstance(n, Seq):
                    self.ashape[a.id] = n.items
                return poly(a)

            return nf.linear(v, one)
        return None

    def _ev_loop(self, t):
        """Row-wise map: for i, x in enumerate(ctx): out[i, :] = f(x)."""
        ctx, init, new, lv = t.args[:4]
        if isinstance(new, T) and new.op == "setitem" and new.args[0] == lv:
            key = new.args[1]
            rows = key.args[0] if key.op == "tuple" else (key,)
            if rows[0].op == "pos" and all(self.full(k) for k in rows[1:]):
                return self.ev(new.args[2])
        return None

    # ------------------------------------------------------------ calls

    def _ev_call(self, t):
        f, pos, kw = t.args
        kw = dict(kw)
        if f.op == "attr":
            r = self.method(f, pos, kw, t)
            return r
        if f.op != "ext":
            return None
        n = f.args[0]
        return self.fn(n, pos, kw, t)

    def method(self, f, pos, kw, t):
        name = f.args[1]
        x = self.ev(f.args[0])
        if name in ("transpose",) and not pos:
            return self.transpose(x)
        if name in ("conj", "conjugate") and isinstance(x, (Poly, Stack)):
            return conj(x)
        if name in ("copy", "astype", "tocsc", "tocsr", "tocoo", "toarray", "todense", "item", "tolist", "squeeze"):
            return x
        if name == "ravel" and isinstance(x, Poly) and not self.is2d(x):
            return x
        if name == "flatten" and isinstance(x, Poly) and not pos and not kw and not self.is2d(x) and self.shape(x) and len(self.shape(x)) == 1:
            return x
        if name == "dot" and len(pos) == 1:
            return self.matmul(x, self.ev(pos[0]))
        if name == "multiply" and isinstance(x, Mat):
            return None
        if name == "sum" and not pos and not kw and isinstance(x, Poly):
            return vsum(x)
        if name == "mean" and not pos and not kw and isinstance(x, Poly):
            return self.mean(x)
        if name == "solve" and len(pos) == 1 and isinstance(x, Poly):
            mm = x.mono()
            k = _ATOMS[mm[0][0][0]].key if mm and len(mm[0]) == 1 else None
            if k and k[0] == "fn" and k[1].endswith((".splu", ".factorized", ".MKLPardisoSolver", ".rootnode_solver", ".adaptive_sa_solver")) and isinstance(k[2][0], Mat):
                rhs = self.ev(pos[0])
                if isinstance(rhs, Poly):
                    mat = k[2][0]
                    return app(matom(("minv", mat), (mat.shape[1], mat.shape[0]), cplx=True), rhs)
        if name == "reshape" and isinstance(x, Poly):
            return self.reshape(x, [self.ev(p) for p in pos], kw)
        if name in ("flatten", "ravel") and isinstance(x, Grid):
            o = kw.get("order") or (pos[0] if pos else None)
            o = cval(o) if o is not None and is_const(o) else "C"
            return nf.gflat(x.shape, x.v, o) if o in ("C", "F") else None
        if name in ("flatten", "ravel"):
            o = kw.get("order") or (pos[0] if pos else None)
            if isinstance(x, Poly):
                a = atom(("flat", x, cval(o) if o is not None and is_const(o) else "C"), vec=True, cplx=is_cplx(x))
                return poly(a)
        if name == "get" and pos and is_const(pos[0]):
            return poly(atom(("get", x, cval(pos[0])), vec=False))
        if isinstance(x, Mat) and name in ("getnnz", "sum"):
            ax = kw.get("axis") or (pos[0] if pos else None)
            return poly(atom(("nnz" if name == "getnnz" else "msumax", x, cval(ax) if ax is not None and is_const(ax) else None), vec=True))
        return None

    def column(self, b):
        """A vector as a column (broadcast over the second axis)."""
        n = vlen(b)
        return Grid((n, ONE), nf.at(b, 0), b) if isinstance(n, Poly) else None

    def reshape(self, x, pos, kw):
        if len(pos) == 1 and isinstance(pos[0], Seq):
            sh = pos[0]
        else:
            sh = Seq(pos)
        o = kw.get("order")
        if not all(isinstance(s, Poly) for s in sh.items):
            return None
        if len(sh.items) == 2 and sh.items[0] == nf.const(-1) and sh.items[1] == ONE and is_vec(x) and not self.is2d(x):
            return self.column(x)
        g = self.arange_grid(x, sh.items, cval(o) if o is not None and is_const(o) else "C")
        if g is not None:
            return g
        a = atom(("reshape", x, sh, cval(o) if o is not None and is_const(o) else "C"), vec=True, cplx=is_cplx(x))
        self.ashape[a.id] = sh.items
        return poly(a)

    def mean(self, x):
        n = vlen(x)
        if not isinstance(n, Poly):
            return poly(atom(("mean", x), vec=False, cplx=is_cplx(x)))
        return mul(vsum(x), inv(n))

    BIN = {
        "numpy.multiply": "*", "numpy.add": "+", "numpy.subtract": "-", "numpy.divide": "/", "numpy.true_divide": "/",
        "numpy.power": "**", "operator.mul": "*", "operator.add": "+", "operator.sub": "-", "operator.truediv": "/",
        "numpy.matmul": "@", "numpy.dot": "@", "numpy.inner": "@", "operator.matmul": "@", "numpy.float_power": "**",
        "numpy.logical_and": "&", "numpy.bitwise_and": "&",
    }

    def fn(self, n, pos, kw, t):
        if n in ("cupy.asnumpy", "pyfftw.byte_align") and pos:
            return self.ev(pos[0])
        if n.startswith("cupy.") and not n.startswith("cupy.fft"):
            n = "numpy." + n[5:]
        if n in self.BIN and len(pos) == 2:
            return self.binop(self.BIN[n], self.ev(pos[0]), self.ev(pos[1]), t)
        if n in CASTS and pos:
            x = self.ev(pos[0])
            if n == "numpy.ravel" and not (isinstance(x, Poly) and not self.is2d(x)):
                return None
            if n in ("numpy.array", "numpy.asarray") and isinstance(x, Seq):
                return self.arr(x)
            if n in ("numpy.array", "numpy.asarray", "numpy.atleast_1d") and isinstance(x, Poly) and not is_vec(x) and not x.is_const():
                m = x.mono()
                if m and len(m[0]) == 1 and _ATOMS[m[0][0][0]].key[0] == "get" and m[1] == nf.C1:
                    a = atom(("arr", x), vec=True)
                    ln = self.userlen(x)
                    if ln is not None:
                        nf.LENS[a.id] = ln
                    return poly(a)
            return x
        if n in ("numpy.conj", "numpy.conjugate") and len(pos) == 1:
            x = self.ev(pos[0])
            return conj(x) if isinstance(x, (Poly, Stack)) else None
        if n in ("numpy.real", "numpy.imag") and len(pos) == 1:
            x = self.ev(pos[0])
            return (real if n.endswith("real") else imag)(x) if isinstance(x, (Poly, Stack)) else None
        if n in ("numpy.abs", "numpy.absolute", "builtins.abs", "numpy.fabs"):
            return self.abs(self.ev(pos[0]))
        if n in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not") and len(pos) == 1:
            r = self.invert(self.ev(pos[0]))
            if r is not None:
                return r
        if n == "numpy.where" and len(pos) == 3:
            m = self.ev(pos[0])
            if isinstance(m, Poly) and isinstance(m.n, Seq) and m.is_const() and m.cval() in (nf.C1, (Fraction(0), Fraction(0))):
                x = self.ev(pos[1] if m.cval() == nf.C1 else pos[2])
                return Poly(x.t, m.n) if isinstance(x, Poly) and not is_vec(x) else None
            if isinstance(m, Grid):
                u, w = [x.v if isinstance(x, Grid) and x.shape == m.shape else x for x in (self.ev(pos[1]), self.ev(pos[2]))]
                if isinstance(u, Poly) and isinstance(w, Poly) and not is_vec(u) and not is_vec(w):
                    return Grid(m.shape, add(mul(m.v, u), mul(sub(ONE, m.v), w)))
                return None
        if n == "numpy.subtract.outer" and len(pos) == 2:
            u, w = self.ev(pos[0]), self.ev(pos[1])
            if isinstance(u, Poly) and isinstance(w, Poly) and is_vec(u) and is_vec(w):
                return Grid((vlen(u), vlen(w)), sub(nf.at(u, 0), nf.at(w, 1)))
        if n == "numpy.block" and len(pos) == 1:
            return self.block(pos)
        if n == "numpy.prod" and len(pos) == 1 and not kw:
            x = self.ev(pos[0])
            it = x.cols if isinstance(x, Stack) else x.items if isinstance(x, Seq) else None
            if it and all(isinstance(q, Poly) and not is_vec(q) for q in it):
                return mul(*it)
        if n == "numpy.negative":
            return self.binop("*", nf.const(-1), self.ev(pos[0]))
        if n == "numpy.square":
            x = self.ev(pos[0])
            return self.binop("*", x, x)
        if n == "numpy.reciprocal":
            return self.binop("/", ONE, self.ev(pos[0]))
        if n in ("numpy.sqrt", "math.sqrt"):
            x = self.ev(pos[0])
            return sqrt(x) if isinstance(x, Poly) else None
        if n in ("numpy.sum", "builtins.sum") and pos:
            return self.sum(pos, kw)
        if n == "numpy.mean" and len(pos) == 1 and not kw:
            x = self.ev(pos[0])
            return self.mean(x) if isinstance(x, Poly) else None
        if n == "numpy.vdot" and len(pos) == 2:
            x, y = self.ev(pos[0]), self.ev(pos[1])
            return vsum(mul(conj(x), y)) if isinstance(x, Poly) and isinstance(y, Poly) else None
        if n in ("numpy.linalg.norm", "scipy.linalg.norm") and pos:
            return self.norm(pos, kw)
        if n in ("numpy.maximum", "numpy.fmax", "builtins.max") and len(pos) == 2 and not kw:
            x, y = self.ev(pos[0]), self.ev(pos[1])
            if isinstance(x, Poly) and isinstance(y, Poly) and not is_vec(x) and not is_vec(y):
                return x if x == y else poly(atom(("max", tuple(sorted((x, y), key=str))), vec=False))
            return None
        if n in ("numpy.max", "numpy.amax", "builtins.max") and len(pos) == 1 and pos[0].op in ("list", "tuple") and len(pos[0].args[0]) == 2:
            return self.ev(T("call", (ext("numpy.maximum"), tuple(pos[0].args[0]), ())))
        if n == "numpy.cross" and len(pos) >= 2:
            return self.cross(pos)
        if n == "builtins.len" and len(pos) == 1:
            x = self.ev(pos[0])
            r = vlen(x)
            if isinstance(r, Seq):
                r = r.items[0]
            return r if r is not None else poly(atom(("len", self.asp(x))))
        if n in ("numpy.size",) and len(pos) == 1:
            r = vlen(self.ev(pos[0]))
            return r if isinstance(r, Poly) else None
        if n == "numpy.count_nonzero" and len(pos) == 1 and not kw:
            x = self.ev(pos[0])
            if isinstance(x, Poly) and x.mono() and len(x.mono()[0]) == 1 and _ATOMS[x.mono()[0][0][0]].key[0] in ("ind", "cmp", "isin"):
                return nf.idxlen(x)
            if not isinstance(x, Poly) or not all(k[0] in ("sym", "el") for a in nf.atoms_in(x).values() for k in [a.key]):
                return None
            return poly(atom(("cnz", x)))
        if n in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            return self.alloc(n, pos, kw)
        if n in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like"):
            x = self.ev(pos[0])
            sh = self.shape(x)
            ln = None
            if sh is not None and sh[0] is not None:
                ln = sh[0] if (len(sh) == 1 or None in sh) else Seq(sh)
            if ln is None:
                return None
            v = ZERO if n in ("numpy.zeros_like", "numpy.empty_like") else (ONE if "ones" in n else self.ev(pos[1]))
            return Poly(v.t, ln) if isinstance(v, Poly) else None
        if n in ("numpy.arange", "builtins.range"):
            return self.arange(pos)
        if n == "numpy.tile" and len(pos) == 2:
            return self.tile(self.ev(pos[0]), self.ev(pos[1]))
        if n == "numpy.expand_dims" and (len(pos) == 2 or (len(pos) == 1 and "axis" in kw)):
            x, k = self.ev(pos[0]), pos[1] if len(pos) == 2 else kw["axis"]
            if isinstance(x, Poly) and is_vec(x) and not self.is2d(x) and is_const(k) and cval(k) in (1, -1):
                return self.column(x)
            return None
        if n in ("numpy.stack", "numpy.column_stack", "numpy.vstack", "numpy.row_stack", "numpy.array"):
            return self.stack(n, pos, kw)
        if n in ("numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_"):
            return self.concat(n, pos, kw)
        if n in ("numpy.in1d", "numpy.isin"):
            return self.in1d(pos, kw)
        if n == "numpy.flatnonzero" and len(pos) == 1:
            x = self.ev(pos[0])
            return self.nz(x) if isinstance(x, Poly) else None
        if n == "numpy.argsort" and len(pos) == 1 and not kw:
            x = self.ev(pos[0])
            if isinstance(x, Poly):
                a = atom(("argsort", x), vec=True)
                return poly(a)
            return None
        if n == "numpy.searchsorted":
            x, y = self.ev(pos[0]), self.ev(pos[1])
            s = kw.get("sorter")
            if s is not None:
                s = self.ev(s)
            return poly(atom(("ssorted", x, y, s), vec=True))
        if n.startswith("scipy.sparse.") and not n.startswith(("scipy.sparse.linalg", "scipy.sparse.csgraph")):
            return self.sparse(n.rsplit(".", 1)[1], pos, kw)
        last = n.rsplit(".", 1)[-1]
        if last in FFTN and pos:
            return self.fft(last, pos, kw)
        if n == "numpy.unravel_index":
            o = kw.get("order")
            x, sh = self.ev(pos[0]), self.ev(pos[1])
            if isinstance(sh, Stack) and not any(is_vec(q) for q in sh.cols):
                sh = Seq(sh.cols)
            o = cval(o) if o is not None and is_const(o) else "C"
            if isinstance(x, Poly) and isinstance(sh, Seq) and all(isinstance(q, Poly) for q in sh.items):
                if self.arange_grid(x, sh.items, o) is not None:
                    return Seq([nf.gflat(sh.items, nf.ax(k), o) for k in range(len(sh.items))])
            return self.asval(("unravel",) + tuple(self.ev(p) for p in pos) + tuple((k, cval(v) if is_const(v) else self.ev(v)) for k, v in sorted(kw.items())))
        if n == "numpy.meshgrid":
            g = self.meshgrid(pos, kw)
            if g is not None:
                return g
            return self.asval(("mesh",) + tuple(self.ev(p) for p in pos) + tuple((k, cval(v) if is_const(v) else self.ev(v)) for k, v in sorted(kw.items())))
        if n == "numpy.take" and len(pos) == 2 and not kw:
            return self.getitem(self.ev(pos[0]), pos[1])
        # fallback
        vec = n not in SCALAR_FN
        ks = [self._k(p) for p in pos]
        kk = [(k, self._k(v)) for k, v in sorted(kw.items())]
        cplx = any(c for _, c in ks) or any(c for _, (_, c) in kk)
        r = poly(atom(("fn", n, tuple(k for k, _ in ks), tuple((k, v[0]) for k, v in kk)), vec=vec, cplx=cplx))
        if n.endswith(".adaptive_sa_solver"):
            return Seq([r, poly(atom(("work", r)))])
        return r

    def asval(self, key):
        return poly(atom(key, vec=True))

    def userlen(self, x):
        """Length of a per-voxel user array (values of a named material/source)."""
        for a in nf.atoms_in(x).values():
            if a.key[0] == "get" and a.key[2] in self.lens:
                return self.lens[a.key[2]]
        return None

    def arr(self, x):
        its = x.items
        if its and all(isinstance(i, Poly) for i in its):
            if len(its) == 3:
                return Stack(its, 0 if any(is_vec(i) for i in its) else 1)
            return poly(atom(("lit", tuple(its)), vec=True))
        return None

    def abs(self, x):
        if isinstance(x, Grid):
            return Grid(x.shape, absval(x.v))
        if isinstance(x, (Poly, Stack)):
            return absval(x)
        if isinstance(x, Mat):
            return self.mabs(x)
        return None

    def mabs(self, x):
        if len(x.t) != 1:
            return matom(("mabs", x), x.shape)
        ch, s = x.t[0]
        # 0/1 selections commute with the absolute value
        core = [i for i in ch if not self.issel(i)]
        if len(core) != 1:
            return matom(("mabs", x), x.shape)
        i = core[0]
        base = _ATOMS[i]
        if base.key[0] == "mT":
            j = base.key[1]
            m = mtrans(matom(("mabs", Mat([((j,), ONE)], nf._MSHAPE.get(j, (None, None)))), nf._MSHAPE.get(j, (None, None))))
        elif base.key[0] == "mabs":
            m = Mat([((i,), ONE)], nf._MSHAPE.get(i, (None, None)))
        else:
            m = matom(("mabs", Mat([((i,), ONE)], nf._MSHAPE.get(i, (None, None)))), nf._MSHAPE.get(i, (None, None)))
        new = m.t[0][0][0]
        return Mat([(tuple(new if c == i else c for c in ch), absval(s))], x.shape)

    def issel(self, i):
        k = _ATOMS[i].key
        return k[0] == "sel" or (k[0] == "mT" and _ATOMS[k[1]].key[0] == "sel")

    def sum(self, pos, kw):
        x = self.ev(pos[0])
        ax = kw.get("axis")
        if len(pos) > 1:
            ax = pos[1]
        if ax is None:
            if isinstance(x, Seq) and x.items and all(isinstance(i, Poly) and not is_vec(i) for i in x.items):
                return add(*x.items)
            return vsum(x) if isinstance(x, (Poly, Stack)) else None
        if not is_const(ax):
            return None
        a = cval(ax)
        if isinstance(x, Stack):
            if a == 0 and x.axis == 1 or a in (1, -1) and x.axis == 0:
                return Stack([vsum(c) for c in x.cols], 1)
            if a in (1, -1) and x.axis == 1 or a == 0 and x.axis == 0:
                return add(*x.cols)
        if isinstance(x, Mat):
            return poly(atom(("msumax", x, a), vec=True))
        if isinstance(x, Poly) and len(x.t) > 4:
            lead = sorted(x.t.items())[0][1]
            q = nf.scale(x, nf._cinv(lead))
            return nf.scale(poly(atom(("sumax", q, a), vec=True, cplx=is_cplx(x))), lead)
        if isinstance(x, Poly):
            return nf.linear(x, lambda v: poly(atom(("sumax", v, a), vec=True, cplx=is_cplx(v))), lambda v: poly(atom(("sumax", v, a), vec=True)))
        return None

    def norm(self, pos, kw):
        x = self.lift(self.ev(pos[0]))
        ax = kw.get("axis") or (pos[2] if len(pos) > 2 else None)
        o = kw.get("ord") or (pos[1] if len(pos) > 1 else None)
        if o is not None and not (is_const(o) and cval(o) in (None, 2)):
            return None
        if ax is not None and is_const(ax) and cval(ax) in (1, -1):
            if isinstance(x, Stack) and x.axis == 1:
                s = x.cols
            elif isinstance(x, Poly):
                s = [comp(x, k) for k in range(3)]
            else:
                return None
            # orientation of the vector is irrelevant
            if any(is_cplx(c) for c in s):
                return None
            return sqrt(add(*[mul(c, c) for c in s]))
        if ax is None and isinstance(x, Poly):
            return poly(atom(("norm", x), vec=False))
        return None

    def cross(self, pos):
        x, y = self.lift(self.ev(pos[0])), self.lift(self.ev(pos[1]))
        if x is None or y is None or isinstance(x, Mat) or isinstance(y, Mat):
            return None
        a = [comp(x, k) for k in range(3)]
        b = [comp(y, k) for k in range(3)]
        return Stack([sub(mul(a[i], b[j]), mul(a[j], b[i])) for i, j in ((1, 2), (2, 0), (0, 1))], 1)

    def alloc(self, n, pos, kw):
        sh = self.ev(pos[0]) if pos else self.ev(kw["shape"])
        if n == "numpy.full":
            v = self.ev(pos[1]) if len(pos) > 1 else self.ev(kw["fill_value"])
        else:
            v = ONE if n == "numpy.ones" else ZERO
        if not isinstance(v, Poly) or is_vec(v):
            return None
        if isinstance(sh, Seq):
            if len(sh.items) == 1:
                sh = sh.items[0]
            elif len(sh.items) == 2 and isinstance(sh.items[1], Poly) and sh.items[1] == nf.const(3):
                if sh.items[0].is_zero():
                    return Poly({}, ZERO)
                return Stack([Poly(v.t, sh.items[0])] * 3, 1)
            elif all(isinstance(s, Poly) for s in sh.items):
                return Poly(v.t, sh)
            else:
                return None
        if not isinstance(sh, Poly):
            return None
        return Poly(v.t, sh)

    def meshgrid(self, pos, kw):
        ix = kw.get("indexing")
        ix = cval(ix) if ix is not None and is_const(ix) else "xy"
        vs = [self.ev(p) for p in pos]
        if len(vs) == 2 and ix in ("ij", "xy") and all(isinstance(v, Poly) and is_vec(v) for v in vs):
            n = [vlen(v) for v in vs]
            if not all(isinstance(x, Poly) for x in n):
                return None
            if ix == "ij":
                return Seq([Grid(n, nf.at(vs[0], 0)), Grid(n, nf.at(vs[1], 1))])
            return Seq([Grid(n[::-1], nf.at(vs[0], 1)), Grid(n[::-1], nf.at(vs[1], 0))])
        if len(vs) != 3 or ix not in ("ij", "xy"):
            return None
        lens = []
        for v in vs:
            m = v.mono() if isinstance(v, Poly) else None
            if not (m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "arange"):
                return None
            k = _ATOMS[m[0][0][0]].key
            lens.append((k[1], sub(k[2], k[1])))
        axes = [0, 1, 2] if ix == "ij" else [1, 0, 2]
        sh = [None] * 3
        for (lo, n), a in zip(lens, axes):
            sh[a] = n
        return Seq([Grid(sh, add(lo, nf.ax(a))) for (lo, n), a in zip(lens, axes)])

    def arange(self, pos):
        v = [self.ev(p) for p in pos]
        if not all(isinstance(x, Poly) for x in v):
            return None
        if len(v) == 1:
            v = [ZERO, v[0]]
        if len(v) == 3 and not (v[2] == ONE):
            return None
        return poly(atom(("arange", v[0], v[1]), vec=True))

    def tile(self, x, sh):
        if not isinstance(sh, Seq) or len(sh.items) != 2 or not (sh.items[1] == ONE):
            return None
        if isinstance(x, Seq) and len(x.items) == 3 and all(isinstance(i, Poly) and not is_vec(i) for i in x.items):
            return Stack([Poly(i.t, sh.items[0]) for i in x.items], 1)
        if isinstance(x, Stack) and x.axis == 1 and not any(is_vec(i) for i in x.cols):
            return Stack([Poly(i.t, sh.items[0]) for i in x.cols], 1)
        if not isinstance(x, Poly):
            return None
        n = sh.items[0]
        if n.is_const():
            return Stack([x] * int(n.cval()[0]), 0)
        cols = [nf.linear(x, lambda v, k=k: self._el(v, k), lambda v: ONE) for k in range(3)]
        return Stack([Poly(c.t, n) for c in cols], 1)

    def stack(self, n, pos, kw):
        x = self.ev(pos[0])
        if not isinstance(x, Seq):
            return None
        ax = kw.get("axis")
        axis = cval(ax) if ax is not None and is_const(ax) else 0
        if n == "numpy.column_stack":
            axis = 1
        if axis == -1:
            axis = 1
        if not all(isinstance(i, Poly) for i in x.items) or axis not in (0, 1):
            return None
        return Stack(x.items, axis)

    def concat(self, n, pos, kw):
        if n == "numpy.append":
            its = [self.ev(p) for p in pos[:2]]
        else:
            x = self.ev(pos[0])
            if not isinstance(x, Seq):
                return None
            its = list(x.items)
        its = [self.arr(i) if isinstance(i, Seq) and i.items else i for i in its]
        its = [Poly({}, ZERO) if isinstance(i, Seq) else i for i in its]
        its = [i for i in its if not (isinstance(i, Poly) and i.n is not None and isinstance(i.n, Poly) and i.n.is_zero())]
        if not its:
            return Poly({}, ZERO)
        if all(isinstance(i, Stack) and i.axis == 1 for i in its):
            k = len(its[0].cols)
            cols = []
            for j in range(k):
                cols.append(self.cat1([i.cols[j] for i in its]))
            return Stack(cols, 1) if all(c is not None for c in cols) else None
        if all(isinstance(i, Stack) and i.axis == 0 for i in its) and kw.get("axis") is None:
            return Stack([c for i in its for c in i.cols], 0)
        if all(isinstance(i, Poly) for i in its):
            return self.cat1(its)
        return None

    def cat1(self, its):
        lens = [vlen(i) for i in its]
        if any(not isinstance(ln, Poly) for ln in lens):
            return None
        return cat(list(zip(its, lens)))

    def in1d(self, pos, kw):
        if "invert" in kw and not (is_const(kw["invert"]) and not cval(kw["invert"])):
            return None
        x, y = self.ev(pos[0]), self.ev(pos[1])
        if isinstance(x, Poly) and isinstance(y, Poly):
            m = y.mono()
            if m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "arange":
                k = _ATOMS[m[0][0][0]].key
                r = self.block_mask(x, k[1], k[2])
                if r is not None:
                    return r
            return poly(atom(("isin", x, y), vec=True))
        return None

    def coo(self, data, row, col, shape):
        """Triplet matrix, split along common concatenation layouts."""
        parts = self.split3(data, row, col)
        out = []
        for d, r, c in parts:
            m = d.mono()
            if d.is_zero():
                continue
            s = ONE
            if m is not None:
                sc, v = nf.split(m[0])
                s = Poly({sc: m[1]})
                d = Poly({v: nf.C1})
            a = atom(("coo", d, r, c), cplx=is_cplx(d))
            nf._MSHAPE[a.id] = shape
            out.append(((a.id,), s))
        return Mat(out, shape)

    def split3(self, data, row, col):
        def parts_of(p):
            m = p.mono()
            if m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "cat":
                return list(_ATOMS[m[0][0][0]].key[1])
            return None

        ref = None
        for p in (row, col, data):
            q = parts_of(p)
            if q is not None and (ref is None or len(q) > len(ref)):
                ref = q
        if ref is None:
            return [(Poly(data.t), row, col)]
        lens = [n for _, n in ref]
        cols = []
        for p in (data, row, col):
            q = parts_of(p)
            if q is not None and len(q) == len(ref):
                cols.append([x for x, _ in q])
            elif not is_vec(p) or p.is_const():
                cols.append([Poly(p.t)] * len(ref))
            else:
                off = ZERO
                xs = []
                for n in lens:
                    xs.append(part(p, off, n))
                    off = add(off, n)
                cols.append(xs)
        return list(zip(*cols))

    def sparse(self, n, pos, kw):
        if n in SPARSE:
            sh = kw.get("shape") or (pos[1] if len(pos) > 1 else None)
            x = self.ev(pos[0])
            if isinstance(x, Mat):
                return x
            shv = self.ev(sh) if sh is not None else None
            shape = tuple(shv.items) if isinstance(shv, Seq) else (None, None)
            if isinstance(x, Seq) and len(x.items) == 2:
                d, rc = x.items
                if isinstance(rc, Seq) and len(rc.items) == 2:
                    r, c = rc.items
                    if all(isinstance(v, Poly) for v in (d, r, c)):
                        return self.coo(d, r, c, shape)
                    return None
                if isinstance(d, Poly) and isinstance(rc, Poly) and not is_vec(d):
                    return Mat([], (d, rc))
            return None
        if n in ("eye", "identity", "eye_array"):
            k = self.ev(pos[0])
            return matom(("eye",), (k, k))
        if n in ("diags", "diags_array", "spdiags"):
            x = self.ev(pos[0])
            off = kw.get("offsets") or (pos[1] if len(pos) > 1 else None)
            if off is not None and not (is_const(off) and cval(off) == 0):
                return None
            if isinstance(x, Poly):
                k = vlen(x)
                return self.diag(x, k)
            return None
        if n in ("hstack", "vstack", "bmat", "block_array", "block_diag"):
            x = self.ev(pos[0])
            if isinstance(x, Seq) and n == "block_diag" and all(isinstance(i, Mat) for i in x.items):
                shape = []
                for ax in (0, 1):
                    ls = [i.shape[ax] for i in x.items]
                    shape.append(add(*ls) if all(q is not None for q in ls) else None)
                return matom(("mblock_diag", x), tuple(shape))
            grid = None
            if isinstance(x, Seq):
                none = lambda v: isinstance(v, Opq) and v.t == NONE
                if n == "hstack" and all(isinstance(i, Mat) for i in x.items):
                    grid = [list(x.items)]
                elif n == "vstack" and all(isinstance(i, Mat) for i in x.items):
                    grid = [[i] for i in x.items]
                elif n in ("bmat", "block_array") and all(isinstance(r, Seq) and all(isinstance(i, Mat) or none(i) for i in r.items) for r in x.items):
                    grid = [[i if isinstance(i, Mat) else None for i in r.items] for r in x.items]
                if grid:
                    r = nf.block_matrix(grid)
                    if r is not None:
                        return r
                return matom(("m" + n, x), (None, None))
        return None

    def diag(self, x, k):
        return matom(("diag", Poly(x.t)), (k, k), cplx=is_cplx(x))

    def fft(self, name, pos, kw):
        x = self.ev(pos[0])
        s = kw.get("s") or kw.get("shape") or (pos[1] if len(pos) > 1 else None)
        ax = kw.get("axes") or (pos[2] if len(pos) > 2 else None)
        sv = None
        if s is not None and s != NONE:
            sv = self.ev(s)
        axv = self.ev(ax) if ax is not None and ax != NONE else None

        def one_col(y):
            def one(v):
                a = atom((name, Poly(v.t), sv, axv), vec=True, cplx=True)
                sh = self.shape(v)
                if sh is not None:
                    if isinstance(sv, Seq):
                        sh = tuple(sv.items) + tuple(sh[len(sv.items):])
                    if all(q is not None for q in sh):
                        self.ashape[a.id] = sh
                return poly(a)
            return nf.linear(y, one, one)

        if isinstance(x, Stack):
            return Stack([one_col(c) for c in x.cols], x.axis)
        if isinstance(x, Poly):
            return one_col(x)
        return None
