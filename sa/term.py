"""
Value-graph nodes used by the abstract interpreter.

A node T is an operator applied to other nodes. Every node gets a canonical
number (cid): two nodes with the same cid are structurally equal (hash-consing
of the keys), while the identity of the Python object is kept free to express
aliasing (the same array object reached through two names).
"""

_INTERN = {}


def _key(a):
    if isinstance(a, T):
        return a.cid
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return ("p", type(a).__name__, a)


class T:
    __slots__ = ("op", "args", "cid", "site", "extra", "sub")

    def __init__(self, op, args, site=None, extra=None):
        self.op = op
        self.args = args
        self.site = site
        self.extra = extra
        self.sub = None
        key = (op,) + tuple(_key(a) for a in args)
        cid = _INTERN.get(key)
        if cid is None:
            cid = len(_INTERN)
            _INTERN[key] = cid
        self.cid = cid

    def __eq__(self, other):
        return isinstance(other, T) and self.cid == other.cid

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return self.cid

    def __repr__(self):
        return show(self, 6)


def mk(op, *args, site=None, extra=None):
    return T(op, args, site=site, extra=extra)


def const(v, site=None):
    return T("const", (v,), site=site)


def sym(name):
    return T("sym", (name,))


def ext(path):
    return T("ext", (path,))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def children(t):
    """All T nodes directly below t (including inside nested tuples)."""
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    for a in t.args:
        rec(a)
    return out


def walk(t, seen=None):
    """Iterate over all the distinct nodes of the graph below t."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.cid in seen:
            continue
        seen.add(x.cid)
        yield x
        stack.extend(children(x))


def rebuild(t, fct, memo=None):
    """Bottom-up rewriting: fct(node with rewritten children) -> node."""
    memo = {} if memo is None else memo

    def rec(a):
        if isinstance(a, T):
            if a.cid in memo:
                return memo[a.cid]
            if a.op in ("func", "ref"):
                new = a
            else:
                args = tuple(rec(x) for x in a.args)
                new = T(a.op, args, site=a.site, extra=a.extra)
            new = fct(new)
            memo[a.cid] = new
            return new
        if isinstance(a, tuple):
            return tuple(rec(x) for x in a)
        return a

    return rec(t)


def show(t, depth=8):
    """Readable rendering (bounded depth)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "sym":
        return "$" + str(a[0])
    if op == "ext":
        return a[0]
    if op == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "slice":
        return ":".join("" if x == NONE else show(x, d) for x in a)
    if op == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if op == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if op == "un":
        return f"({a[0]} {show(a[1], d)})"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d) for x in a[0]) + ")"
    if op == "phi":
        return f"PHI({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})"
    if op == "call":
        kw = [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join([show(x, d) for x in a[1]] + kw)})"
    if op in ("tuple", "list"):
        return ("(" if op == "tuple" else "[") + ", ".join(show(x, d) for x in a[0]) + (")" if op == "tuple" else "]")
    if op == "dict":
        return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in a[0]) + "}"
    if op == "elem":
        return f"elem{a[1] if a[1] else ''}<{show(a[0], d)}>"
    if op == "func":
        return f"<func {a[0]}>"
    if op == "ref":
        return f"<ref {a[0]}>"
    return f"{op}<{', '.join(show(x, d) for x in a)}>"
