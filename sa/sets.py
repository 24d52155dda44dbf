"""Decision procedure for conditions on index sets (emptiness, inclusion, uniqueness, membership).

Conditions of the value graph are translated into boolean formulas over two
kinds of atoms: "this combination of index sets is empty" and "this index array
has no duplicates". Everything else stays an opaque atom. Two formulas are
compared over all the emptiness patterns of the Venn regions.
"""

from sa.term import T, is_const, cval

ARRAY_FCT = {"numpy.array", "numpy.asarray", "numpy.copy", "numpy.ravel", "numpy.sort", "numpy.flip", "builtins.list", "builtins.tuple", "builtins.sorted",
             "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.squeeze", "copy.copy", "copy.deepcopy"}
ARRAY_METH = {"flatten", "ravel", "astype", "copy", "tolist", "squeeze", "view"}
SET_FCT = {"builtins.set", "builtins.frozenset", "numpy.unique"}
ISIN = {"numpy.in1d", "numpy.isin"}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def name(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "ext" else None


def meth(t):
    return t.args[0].args[1] if t.op == "call" and t.args[0].op in ("attr", "bmeth") else None


def _args(t):
    return t.args[1]


def _kw(t):
    return dict(t.args[2]) if t.op == "call" and t.args[2] else {}


class Arr:
    """Index array: parts (set expression, identity of the uniqueness atom or True)."""

    def __init__(self, parts):
        self.parts = parts

    @property
    def expr(self):
        e = ("0",)
        for x, _ in self.parts:
            e = x if e == ("0",) else ("u", e, x)
        return e


def arr(t):
    n, m = name(t), meth(t)
    if n in ARRAY_FCT or n in SET_FCT:
        a = arr(_args(t)[0]) if _args(t) else Arr([])
        return Arr([(a.expr, True)]) if n in SET_FCT else a
    if n in ("numpy.append", "numpy.union1d"):
        ps = [arr(x) for x in _args(t)[:2]]
        p = ps[0].parts + ps[1].parts
        return Arr([(Arr(p).expr, True)]) if n.endswith("union1d") else Arr(p)
    if n in ("numpy.concatenate", "numpy.hstack") and _args(t):
        x = _args(t)[0]
        if x.op in ("tuple", "list") and all(isinstance(y, T) for y in x.args[0]):
            return Arr([p for y in x.args[0] for p in arr(y).parts])
    if n in ("numpy.empty", "numpy.zeros", "numpy.ones") and _args(t):
        s = _args(t)[0]
        if is_const(s) and cval(s) == 0 or s.op == "tuple" and s.args[0] and is_const(s.args[0][0]) and cval(s.args[0][0]) == 0:
            return Arr([])
    if n == "numpy.intersect1d":
        return Arr([(("i", arr(_args(t)[0]).expr, arr(_args(t)[1]).expr), True)])
    if n == "numpy.setdiff1d":
        return Arr([(("d", arr(_args(t)[0]).expr, arr(_args(t)[1]).expr), True)])
    if n == "numpy.setxor1d":
        a, b = arr(_args(t)[0]).expr, arr(_args(t)[1]).expr
        return Arr([(("u", ("d", a, b), ("d", b, a)), True)])
    if m in ARRAY_METH:
        return arr(t.args[0].args[0])
    if m in ("intersection", "difference", "union") and len(_args(t)) == 1:
        a, b = arr(t.args[0].args[0]).expr, arr(_args(t)[0]).expr
        return Arr([(({"intersection": "i", "difference": "d", "union": "u"}[m], a, b), True)])
    if t.op == "bin" and t.args[0] in ("&", "|", "-") and (is_set(t.args[1]) or is_set(t.args[2])):
        return Arr([(({"&": "i", "|": "u", "-": "d"}[t.args[0]], arr(t.args[1]).expr, arr(t.args[2]).expr), True)])
    if t.op in ("list", "tuple"):
        if not t.args[0]:
            return Arr([])
    if t.op == "item":
        sel = mask(t.args[1])
        if sel is not None and sel[0] is not None:
            a, (x, b, pos) = arr(t.args[0]), sel
            if x.expr == a.expr:
                return Arr([(("i" if pos else "d", p, b), d) for p, d in a.parts])
    return Arr([(("b", t.cid), t.cid)])


def is_set(t):
    return name(t) in ("builtins.set", "builtins.frozenset") or meth(t) in ("intersection", "difference", "union") or (t.op == "bin" and t.args[0] in ("&", "|", "-") and (is_set(t.args[1]) or is_set(t.args[2])))


def mask(t):
    """(array, set, positive) of an elementwise membership test."""
    if name(t) in ISIN:
        inv = _kw(t).get("invert")
        pos = inv is None or (is_const(inv) and not cval(inv))
        return arr(_args(t)[0]), arr(_args(t)[1]).expr, pos
    if t.op == "un" and t.args[0] in ("~", "not") or name(t) in ("numpy.logical_not", "numpy.invert"):
        r = mask(t.args[1] if t.op == "un" else _args(t)[0])
        return None if r is None else (r[0], r[1], not r[2])
    if name(t) in ("numpy.flatnonzero",) or (name(t) == "numpy.asarray"):
        return mask(_args(t)[0])
    return None


def size(t):
    """Array whose number of elements is the value."""
    if name(t) in ("builtins.len", "numpy.size"):
        return arr(_args(t)[0])
    if t.op == "attr" and t.args[1] == "size":
        return arr(t.args[0])
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return arr(t.args[0].args[0])
    if name(t) in ("numpy.sum", "numpy.count_nonzero", "builtins.sum") or meth(t) == "sum":
        x = _args(t)[0] if name(t) else t.args[0].args[0]
        r = mask(x)
        if r is not None:
            a, b, pos = r
            return Arr([(("i" if pos else "d", p, b), d) for p, d in a.parts])
    return None


def dims(t, depth=0):
    """Shape of an array: tuple of dimensions, or (cid, None) if the number of dimensions is not known."""
    n, m = name(t), meth(t)
    if depth > 40:
        return None
    if n in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.abs", "numpy.negative", "numpy.conj", "numpy.real", "numpy.imag"):
        return dims(_args(t)[0], depth + 1)
    if m in ("astype", "copy", "conj", "view"):
        return dims(t.args[0].args[0], depth + 1)
    if n in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty") and _args(t):
        x = _args(t)[0]
        return tuple(dim(y) for y in x.args[0]) if x.op in ("tuple", "list") else (dim(x),)
    if m == "transpose" and not _args(t) or n == "numpy.transpose" and len(_args(t)) == 1 or t.op == "attr" and t.args[1] == "T":
        d = dims(t.args[0].args[0] if m == "transpose" else _args(t)[0] if n else t.args[0], depth + 1)
        return d[::-1] if d is not None and d[-1] is not None else None
    if n == "numpy.tile" and len(_args(t)) == 2 and _args(t)[1].op in ("tuple", "list") and len(_args(t)[1].args[0]) == 2:
        d = dims(_args(t)[0], depth + 1)
        if d is None:
            return None
        d = (d[0],) if d[-1] is None else d
        k = [dim(x) for x in _args(t)[1].args[0]]
        d = ((1,) + d)[-2:] if len(d) == 1 else d
        return tuple(mul(x, y) for x, y in zip(k, d)) if len(d) == 2 else None
    if n in ("numpy.column_stack",) and _args(t)[0].op in ("tuple", "list"):
        d = dims(_args(t)[0].args[0][0], depth + 1)
        return None if d is None else (d[0], len(_args(t)[0].args[0]))
    if n == "numpy.stack" and _args(t)[0].op in ("tuple", "list"):
        ax = _kw(t).get("axis") or (_args(t)[1] if len(_args(t)) > 1 else None)
        d = dims(_args(t)[0].args[0][0], depth + 1)
        k = len(_args(t)[0].args[0])
        if d is None:
            return None
        return (k, d[0]) if ax is None or cval(ax) == 0 else (d[0], k)
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "/"):
        ds = [dims(x, depth + 1) for x in (t.args[1], t.args[2]) if x.op not in ("const", "ext")]
        ds = [d for d in ds if d is not None]
        return next((d for d in ds if d[-1] is not None), ds[0] if ds else None)
    a = arr(t)
    if not a.parts:
        return (0,)
    return (tuple(sorted((p for p, _ in a.parts), key=str)), None if len(a.parts) == 1 and a.parts[0][0][0] == "b" else 0)[:1] + ((None,) if len(a.parts) == 1 and a.parts[0][0][0] == "b" else ())


def mul(a, b):
    return b if a == 1 else a if b == 1 else ("mul", a, b)


def dim(t):
    """One dimension."""
    if is_const(t):
        return cval(t)
    if name(t) in ("builtins.len",):
        d = dims(_args(t)[0])
        return d[0] if d is not None else ("x", t.cid)
    s = size(t)
    if s is not None and s.parts:
        return tuple(sorted((p for p, _ in s.parts), key=str))
    return ("x", t.cid)


def same_dim(a, b):
    if a == b:
        return ("const", True)
    if isinstance(a, int) and isinstance(b, int):
        return ("const", False)
    if any(isinstance(x, tuple) and x and x[0] == "x" for x in (a, b)):
        return ("atom", hash((a, b)))
    return ("dim",) + tuple(sorted((a, b), key=str))


def shape_cmp(a, b):
    """Comparison of shapes or of lengths."""
    for x, y in ((a, b), (b, a)):
        if x.op == "attr" and x.args[1] == "shape" or name(x) == "numpy.shape":
            d = dims(x.args[0] if x.op == "attr" else _args(x)[0])
            if d is None or y.op not in ("tuple", "list"):
                return None
            e = tuple(dim(z) for z in y.args[0])
            if d[-1] is None:
                d = (d[0],) + tuple(("col", d[0], k) for k in range(1, len(e)))
            if len(d) != len(e):
                return ("const", False)
            return ("and", [same_dim(p, q) for p, q in zip(d, e)])

    def one(t):
        if name(t) == "builtins.len":
            return dims(_args(t)[0])
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]):
            d, k = dims(t.args[0].args[0]), cval(t.args[1])
            if d is None:
                return None
            if d[-1] is None:
                return (d[0],) if k == 0 else (("col", d[0], k),)
            return (d[k],) if -len(d) <= k < len(d) else None
        if t.op == "attr" and t.args[1] == "size":
            d = dims(t.args[0])
            return (d[0],) if d is not None and (len(d) == 1 or d[-1] is None) else None
        if is_const(t) and isinstance(cval(t), int):
            return (cval(t),)
        return None

    x, y = one(a), one(b)
    if x is None or y is None:
        return None
    return same_dim(x[0], y[0])


def uniq(a):
    """The array has no duplicates."""
    out = []
    for i, (x, d) in enumerate(a.parts):
        if d is not True:
            out.append(("uniq", d))
        for y, _ in a.parts[i + 1:]:
            out.append(("empty", ("i", x, y)))
    return ("and", out)


def neg(f):
    return ("not", f)


def cond(t):
    """Condition of the value graph -> formula."""
    if is_const(t):
        return ("const", bool(cval(t)))
    if t.op in ("and", "or"):
        return (t.op, [cond(x) for x in t.args[0]])
    if t.op == "un" and t.args[0] in ("not", "~"):
        return neg(cond(t.args[1]))
    if t.op == "bin" and t.args[0] in ("&", "|") and not is_set(t):
        return ("and" if t.args[0] == "&" else "or", [cond(t.args[1]), cond(t.args[2])])
    n, m = name(t), meth(t)
    if n == "builtins.bool" or n == "numpy.logical_not":
        f = cond(_args(t)[0])
        return neg(f) if n.endswith("not") else f
    if n in ("numpy.all", "builtins.all", "numpy.any", "builtins.any") or m in ("all", "any"):
        x = _args(t)[0] if n else t.args[0].args[0]
        if x.op == "listc":
            every = n == "builtins.all"
            f = gens(x, None if n.startswith("numpy") else every)
            return ("atom", t.cid) if f is None else neg(f) if every else f
        f = repeated(x, n in ("numpy.all", "builtins.all") or m == "all")
        if f is not None:
            return f
        r = mask(x)
        if r is not None:
            a, b, pos = r
            if n in ("numpy.all", "builtins.all") or m == "all":
                return ("empty", ("d" if pos else "i", a.expr, b))
            return neg(("empty", ("i" if pos else "d", a.expr, b)))
        return ("atom", t.cid)
    if m == "issubset":
        return ("empty", ("d", arr(t.args[0].args[0]).expr, arr(_args(t)[0]).expr))
    if m == "issuperset":
        return ("empty", ("d", arr(_args(t)[0]).expr, arr(t.args[0].args[0]).expr))
    if m == "isdisjoint":
        return ("empty", ("i", arr(t.args[0].args[0]).expr, arr(_args(t)[0]).expr))
    if t.op == "listc":
        f = gens(t, "item")
        return ("atom", t.cid) if f is None else f
    if n == "builtins.len" and _args(t)[0].op == "listc":
        return cond(_args(t)[0])
    s = arr(t) if is_set(t) else size(t)
    if s is not None:
        return neg(("empty", s.expr))
    if t.op == "cmp":
        r = _cmp(*t.args)
        if r is not None:
            return r
        if t.args[0] in ("!=", "is not", "not in"):
            pos = {"!=": "==", "is not": "is", "not in": "in"}[t.args[0]]
            return neg(("atom", T("cmp", (pos,) + t.args[1:]).cid))
    return ("atom", t.cid)


def repeated(x, every):
    """Comparison of the numbers of repetitions with one."""
    if x.op != "cmp":
        return None
    op, a, b = x.args
    if is_const(a):
        op, a, b = FLIP[op] if op in FLIP else op, b, a
    if a.op != "item" or not is_const(b) or not is_const(a.args[1]) or cval(a.args[1]) not in (1, -1) or name(a.args[0]) != "numpy.unique":
        return None
    if set(_kw(a.args[0])) != {"return_counts"}:
        return None
    k = cval(b)
    u = uniq(arr(_args(a.args[0])[0]))
    if not every and (op == ">" and k == 1 or op == ">=" and k == 2 or op == "!=" and k == 1):
        return neg(u)
    if every and (op == "==" and k == 1 or op == "<=" and k == 1 or op == "<" and k == 2):
        return u
    return None


def gens(x, val):
    """An element of a comprehension exists (val: "item"), is true (False), or is false (True)."""
    if x.args[0] or not is_const(x.args[2]) or cval(x.args[2]) or val is None:
        return None
    out = []
    for g in x.args[1]:
        if g.op != "gen":
            return None
        fs = [neg(("empty", arr(c).expr)) if isinstance(c, T) else None for c in g.args[0]]
        fs += [fact(c, cval(p)) for c, p in g.args[1]]
        if val != "item":
            fs.append(fact(g.args[2], not val))
        out.append(("and", [f for f in fs if f is not None]))
    return ("or", out)


def _cmp(op, a, b):
    if op in ("in", "not in"):
        if a.op == "elem":
            base = arr(a.args[0])
            f = ("not", ("empty", ("i", base.expr, arr(b).expr))) if op == "in" else ("not", ("empty", ("d", base.expr, arr(b).expr)))
            return ("member", f, ("not", ("empty", ("d" if op == "in" else "i", base.expr, arr(b).expr))))
        return None
    if op in ("<=", ">=", "<", ">", "==") and is_set(a) and is_set(b):
        x, y = arr(a).expr, arr(b).expr
        if op in (">=", ">"):
            x, y = y, x
        f = ("empty", ("d", x, y))
        if op == "==":
            return ("and", [f, ("empty", ("d", y, x))])
        return f if op in ("<=", ">=") else ("and", [f, neg(("empty", ("d", y, x)))])
    if is_const(a) and not is_const(b):
        if op not in FLIP:
            return None
        a, b, op = b, a, FLIP[op]
    for x, o in ((a, op), (b, FLIP.get(op))):
        y = b if x is a else a
        if name(x) == "builtins.len" and _args(x)[0].op == "listc" and is_const(y):
            f = gens(_args(x)[0], "item")
            if f is not None and (o, cval(y)) in (("==", 0), ("<=", 0), ("<", 1)):
                return neg(f)
            if f is not None and (o, cval(y)) in (("!=", 0), (">", 0), (">=", 1)):
                return f
    sa, sb = size(a), size(b)
    if sa is not None and is_const(b) and isinstance(cval(b), (int, float)):
        k, e = cval(b), ("empty", sa.expr)
        if (op, k) in (("==", 0), ("<=", 0), ("<", 1)):
            return e
        if (op, k) in (("!=", 0), (">", 0), (">=", 1)):
            return neg(e)
        if (op, k) in ((">=", 0), (">", -1)):
            return ("const", True)
        if op in ("<", ">="):
            op, k = {"<": "<=", ">=": ">"}[op], k - 1
        if k >= 1 and op in (">", "<="):
            f = ("and", [neg(e), ("card", str(sa.expr), k)])
            return f if op == ">" else neg(f)
        return None
    if sa is not None and sb is not None:
        # one of them is the other without duplicates, or a part of the other
        for x, y, o in ((sa, sb, op), (sb, sa, FLIP.get(op))):
            if same_expr(x.expr, y.expr) and all(d is True for _, d in x.parts) and len(x.parts) <= 1:
                f = uniq(y)
            elif len(x.parts) == 1 and x.parts[0][0][0] in ("i", "d") and same_expr(x.parts[0][0][1], y.expr):
                k, _, z = x.parts[0][0]
                f = ("empty", ("d" if k == "i" else "i", y.expr, z))
                if x.parts[0][1] is True:
                    f = ("and", [f, uniq(y)])
            else:
                continue
            # x is at most as large as y
            if o in ("==", ">="):
                return f
            if o in ("!=", "<"):
                return neg(f)
            if o in (">", "<="):
                return ("const", o == "<=")
    if op in ("==", "!="):
        f = shape_cmp(a, b)
        if f is not None:
            return f if op == "==" else neg(f)
    if op in ("<", ">", "<=", ">="):
        f = shape_cmp(a, b)
        if f is not None:
            o = ("card", "lt", a.cid if op in ("<", ">=") else b.cid, b.cid if op in ("<", ">=") else a.cid)
            return ("and", [neg(f), o]) if op in ("<", ">") else ("or", [f, neg(o)])
    return None


def facts(fs):
    """Conjunction of path facts."""
    return ("and", [f for c, p in fs for f in [fact(c, p)] if f is not None])


def fact(c, p):
    if c.op == "inloop" and p and len(c.args) == 1:
        return neg(("empty", arr(c.args[0]).expr))
    if c.op in ("inloop", "inv", "handler", "maybe"):
        return None
    f = cond(c)
    if f[0] == "member":
        return f[1] if p else f[2]
    return f if p else neg(f)


# ---------------------------------------------------------------- decision

def bases(e, out):
    if e[0] == "b":
        out.add(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            bases(x, out)


def region(e, idx, full):
    if e[0] == "0":
        return 0
    if e[0] == "b":
        return idx[e[1]]
    a, b = region(e[1], idx, full), region(e[2], idx, full)
    return a | b if e[0] == "u" else a & b if e[0] == "i" else a & ~b


def _masks(bs):
    n = len(bs)
    full = (1 << (1 << n)) - 2  # without the region outside of all the sets
    idx = {}
    for k, c in enumerate(sorted(bs)):
        m = 0
        for r in range(1, 1 << n):
            if r >> k & 1:
                m |= 1 << r
        idx[c] = m
    return idx, full


def same_expr(a, b):
    bs = set()
    bases(a, bs)
    bases(b, bs)
    if len(bs) > 10:
        return a == b
    idx, full = _masks(bs)
    return region(a, idx, full) == region(b, idx, full)


def atoms(f, out):
    k = f[0]
    if k in ("and", "or"):
        for x in f[1]:
            atoms(x, out)
    elif k == "not":
        atoms(f[1], out)
    elif k == "member":
        atoms(f[1], out)
    elif k != "const":
        out.append(f)


def implies(f, g):
    """f implies g over all the assignments (None: too large)."""
    h = ("and", [f, ("not", g)])
    ats = []
    atoms(h, ats)
    # independent groups of index sets, and their regions which no formula distinguishes
    groups = []
    exprs = {a[1] for a in ats if a[0] == "empty"}
    for e in exprs:
        b = set()
        bases(e, b)
        near = [x for x in groups if x & b]
        groups = [x for x in groups if not x & b] + [b.union(*near)]
    use, cells = [], {}
    for bs in groups:
        if not bs:
            continue
        if len(bs) > 13:
            return None
        idx, full = _masks(bs)
        ms = {}
        for e in exprs:
            b = set()
            bases(e, b)
            if b and b <= bs:
                ms[e] = region(e, idx, full)
        cls = [full]
        for m in set(ms.values()):
            cls = [y for x in cls for y in (x & m, x & ~m) if y]
        cls = [c for c in cls if any(c & m for m in ms.values())]
        for e, m in ms.items():
            cells[("empty", e)] = frozenset(len(use) + i for i, c in enumerate(cls) if c & m)
        use += cls
    for e in exprs:
        cells.setdefault(("empty", e), frozenset())
    other = sorted({a for a in ats if a[0] != "empty"}, key=str)
    nv = len(use) + len(other)
    if nv > 200:
        return None
    budget = [200000]

    def ev(f, asg):
        k = f[0]
        if k == "const":
            return f[1]
        if k == "not":
            r = ev(f[1], asg)
            return None if r is None else not r
        if k == "member":
            return ev(f[1], asg)
        if k == "and":
            r = True
            for x in f[1]:
                v = ev(x, asg)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if k == "or":
            r = False
            for x in f[1]:
                v = ev(x, asg)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if k == "empty":
            r = True
            for i in cells[f]:
                v = asg.get(("c", i))
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        return asg.get(f)

    def pick(f, asg):
        """A variable on which the value of the formula depends."""
        k = f[0]
        if k in ("and", "or"):
            for x in f[1]:
                if ev(x, asg) is None:
                    return pick(x, asg)
        if k in ("not", "member"):
            return pick(f[1], asg)
        if k == "empty":
            for i in sorted(cells[f]):
                if ("c", i) not in asg:
                    return ("c", i)
        return f

    def sat(asg):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        v = ev(h, asg)
        if v is not None:
            return v
        x = pick(h, asg)
        for b in (True, False):
            asg[x] = b
            r = sat(asg)
            del asg[x]
            if r is None or r:
                return r
        return False

    r = sat({})
    return None if r is None else not r
