"""
Flow-sensitive, interprocedural abstract interpreter building a value graph.

The interpreter walks the syntax tree of the functions from a given entry point,
with symbolic inputs. The state maps variables to value-graph nodes; at control
flow joins the values are merged with gated PHI nodes, loops over unknown
iterables are summarised by one generic iteration, and the callees defined in
the code base are inlined (context-sensitive). Nothing of the code base is
imported or executed. The result of a run is the value returned by the entry
point, the final abstract state, and the ordered trace of the effects (raised
exceptions, external calls, subscript accesses, stores) together with the branch
conditions under which they happen.
"""

import ast
import operator

from sa.repo import AnalysisBroken
from sa.term import (T, mk, const, ext, is_const, cval, children, walk, NONE, TRUE, FALSE)

MAX_UNROLL = 200
MAX_DEPTH = 60

_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>",
}
_PY = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
    "%": operator.mod, "**": operator.pow,
}


class FuncVal:
    def __init__(self, node, module, envs, qual, cls=None):
        self.node = node
        self.module = module
        self.envs = envs
        self.qual = qual
        self.cls = cls
        self.bound = None
        self.defaults = []
        self.kw_defaults = {}
        self.static = False
        self.is_gen = False


class ClassVal:
    def __init__(self, node, module, qual, bases):
        self.node = node
        self.module = module
        self.qual = qual
        self.bases = bases
        self.members = {}


class HObj:
    __slots__ = ("kind", "items", "summ", "attrs", "cls", "depth", "unknown")

    def __init__(self, kind, depth=0):
        self.kind = kind
        self.items = []      # list/set: values; dict: [key, value, ctx] (key None: spread of an unknown mapping)
        self.summ = []       # list/set: (ctx, conds, value) generic elements
        self.attrs = {}      # objects
        self.cls = None
        self.depth = depth
        self.unknown = False

    def copy(self):
        h = HObj(self.kind, self.depth)
        h.items = [list(x) if isinstance(x, list) else x for x in self.items]
        h.summ = list(self.summ)
        h.attrs = dict(self.attrs)
        h.cls = self.cls
        h.unknown = self.unknown
        return h


class State:
    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = []

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.facts = list(self.facts)
        return s


class Exit:
    __slots__ = ("kind", "value", "st", "conds")

    def __init__(self, kind, value, st):
        self.kind = kind
        self.value = value
        self.st = st


class Event:
    __slots__ = ("kind", "data", "facts", "site", "stack", "idx", "loops")

    def __init__(self, kind, data, facts, site, stack, idx, loops):
        self.kind = kind
        self.data = data
        self.facts = facts
        self.site = site
        self.stack = stack
        self.idx = idx
        self.loops = loops

    def where(self):
        return f"{self.site[0]}:{self.site[1]} in {self.site[2]}()"

    def __repr__(self):
        return f"<{self.kind} {self.data} @ {self.where()}>"


class Frame:
    def __init__(self, fv, env_id, qual):
        self.fv = fv
        self.env = env_id
        self.qual = qual
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


def _is_truthy_const(t):
    return is_const(t)


def norm_cond(t):
    """Normalise a condition: returns (term, polarity)."""
    pol = True
    while True:
        if t.op == "un" and t.args[0] == "not":
            t = t.args[1]
            pol = not pol
            continue
        if t.op == "cmp" and t.args[0] in ("!=", "not in", "is not"):
            op = {"!=": "==", "not in": "in", "is not": "is"}[t.args[0]]
            t = mk("cmp", op, t.args[1], t.args[2], site=t.site)
            pol = not pol
            continue
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.bool" and len(t.args[1]) == 1:
            t = t.args[1][0]
            continue
        if t.op == "cmp" and t.args[0] in (">", ">="):
            op = {">": "<", ">=": "<="}[t.args[0]]
            t = mk("cmp", op, t.args[2], t.args[1], site=t.site)
            continue
        if t.op == "cmp" and t.args[0] == "==" and is_const(t.args[1]) and not is_const(t.args[2]):
            t = mk("cmp", "==", t.args[2], t.args[1], site=t.site)
            continue
        # 0 < len(x), 1 <= len(x)  ->  not (len(x) == 0);  len(x) < 1 -> len(x) == 0
        if t.op == "cmp" and t.args[0] in ("<", "<="):
            a, b = t.args[1], t.args[2]
            lo = 0 if t.args[0] == "<" else 1
            if is_const(a) and cval(a) == lo and _is_len(b):
                t = mk("cmp", "==", b, const(0), site=t.site)
                pol = not pol
                continue
            hi = 1 if t.args[0] == "<" else 0
            if is_const(b) and cval(b) == hi and _is_len(a):
                t = mk("cmp", "==", a, const(0), site=t.site)
                continue
        return t, pol


def _is_len(t):
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0] in ("builtins.len", "numpy.size", "numpy.count_nonzero")
    return t.op == "attr" and t.args[1] == "size"


def conj_parts(t, pol):
    """Split a condition known to have the given truth value into elementary facts."""
    t, p = norm_cond(t)
    pol = pol if p else not pol
    if t.op == "and" and pol:
        out = []
        for x in t.args[0]:
            out += conj_parts(x, True)
        return out
    if t.op == "or" and not pol:
        out = []
        for x in t.args[0]:
            out += conj_parts(x, False)
        return out
    return [(t, pol)]


NEVER_NONE = frozenset(lib + f for lib in ("numpy.", "cupy.") for f in (
    "in1d isin arange flatnonzero nonzero where unravel_index array asarray zeros ones empty full concatenate append "
    "logical_and logical_or logical_not unique sort argsort stack meshgrid sum abs real imag conj").split())


class Engine:
    def __init__(self, repo, oracle=None, opaque=None):
        self.repo = repo
        self.oracle = oracle          # oracle(term) -> set of keys of a mapping term, or None
        self.opaque = opaque or set()  # qualified names that are not inlined
        self.events = []
        self.loops = []
        self.frames = []
        self.uid = 0
        self.record = True
        self.n_calls = 0
        self.n_stmts = 0
        self.seen_funcs = set()
        self.call_models = {}
        self.method_models = {}       # methods of unknown objects
        self.strip_copy = False
        self.keep_const = False
        self.fixed = {}
        self.decide = None            # decide(term) -> truth value of a condition, or None
        self.track_state = False
        self.decide = None            # decide(condition) -> True/False/None: assumptions of a scenario
        self.deciding = False
        self.state = State()
        self.initialized = set()
        self.init_modules()

    # ------------------------------------------------------------------ basics
    def new_id(self):
        self.uid += 1
        return self.uid

    def site(self, node):
        qual = self.frames[-1].qual if self.frames else "<module>"
        rel = self.frames[-1].fv.module.rel if self.frames else "?"
        return (rel, getattr(node, "lineno", 0), qual)

    def emit(self, kind, data, st, node):
        if not self.record:
            return
        ev = Event(kind, data, tuple(st.facts), self.site(node), tuple(f.qual for f in self.frames),
                   len(self.events), tuple(self.loops))
        self.events.append(ev)

    def init_modules(self):
        self.record = False
        for name in self.repo.modules:
            self.state.envs[name] = {}
        for name in self.repo.modules:
            self.init_module(name)
        self.record = True

    def init_module(self, name):
        if name in self.initialized:
            return
        self.initialized.add(name)
        mod = self.repo.modules[name]
        self.state.envs[name]["__name__"] = const(name)
        fv = FuncVal(mod.tree, mod, [name], "<module>")
        self.frames.append(Frame(fv, name, name + ".<module>"))
        st, _ = self.exec_block(mod.tree.body, self.state)
        self.frames.pop()
        if st is not None:
            self.state = st
            self.state.facts = []

    # ------------------------------------------------------------------ public
    def function(self, modname, qual):
        """Value of a module-level function (or Class.method)."""
        env = self.state.envs.get(modname)
        if env is None:
            raise AnalysisBroken(f"module not found: {modname}")
        parts = qual.split(".")
        if parts[0] not in env:
            raise AnalysisBroken(f"definition not found: {modname}.{qual}")
        val = env[parts[0]]
        for p in parts[1:]:
            if val.op != "class" or p not in val.extra.members:
                raise AnalysisBroken(f"definition not found: {modname}.{qual}")
            val = val.extra.members[p]
        if val.op not in ("func", "class"):
            raise AnalysisBroken(f"not a function: {modname}.{qual}")
        return val

    def run(self, modname, qual, args=(), kwargs=None, state=None):
        """Abstractly execute a function with the given argument nodes."""
        fn = self.function(modname, qual)
        st = (state or self.state).copy()
        val, st = self.apply(fn, list(args), dict(kwargs or {}), st, fn.extra.node)
        return Result(self, val, st)

    def new_dict(self, st, entries):
        h = HObj("dict", len(self.loops))
        h.items = [[const(k) if not isinstance(k, T) else k, v, ()] for k, v in entries]
        return self.alloc(st, h)

    def new_list(self, st, items):
        h = HObj("list", len(self.loops))
        h.items = list(items)
        return self.alloc(st, h)

    def alloc(self, st, h):
        i = self.new_id()
        st.heap[i] = h
        return mk("ref", i)

    # ------------------------------------------------------------------ freezing
    def freeze(self, t, st, seen=None):
        """Replace the heap references by structural nodes (deep)."""
        if t.op in ("const", "sym", "ext", "func", "class", "mod"):
            return t
        if not self._has_ref(t):
            return t
        seen = seen or ()
        if t.op == "ref":
            i = t.args[0]
            if i in seen:
                return mk("cycle", i)
            h = st.heap.get(i)
            if h is None:
                return mk("opaque", "dead-ref", i)
            seen = seen + (i,)
            f = lambda x: self.freeze(x, st, seen)
            if h.kind in ("list", "set"):
                items = tuple(f(x) for x in h.items)
                if not h.summ and not h.unknown:
                    return mk(h.kind, items, site=t.site)
                summ = []
                for ctx, conds, v in h.summ:
                    summ.append(mk("gen", tuple(ctx), tuple((c, const(p)) for c, p in conds), f(v)))
                if not items and len(summ) == 1 and not h.unknown and h.kind == "list":
                    g = summ[0]
                    if len(g.args[0]) == 1 and not g.args[1]:
                        return mk("map", g.args[0][0], g.args[2])
                return mk(h.kind + "c", items, tuple(summ), const(h.unknown))
            if h.kind == "dict":
                if h.unknown or any(e[0] is None or e[2] for e in h.items):
                    out = []
                    for k, v, ctx in h.items:
                        out.append((NONE if k is None else f(k), f(v), mk("ctx", tuple(x for x in ctx), const(k is None))))
                    return mk("dictc", tuple(out), const(h.unknown))
                return mk("dict", tuple((f(k), f(v)) for k, v, _ in h.items), site=t.site)
            if h.kind == "obj":
                return mk("obj", h.cls.qual if h.cls else "?", tuple((k, f(v)) for k, v in sorted(h.attrs.items())))
            return mk("opaque", "ref", i)

        def rec(a):
            if isinstance(a, T):
                return self.freeze(a, st, seen)
            if isinstance(a, tuple):
                return tuple(rec(x) for x in a)
            return a
        return T(t.op, tuple(rec(a) for a in t.args), site=t.site, extra=t.extra)

    def _has_ref(self, t):
        # structural flag, memoised by canonical number
        memo = self.__dict__.setdefault("_ref_memo", {})
        stack = [t]
        order = []
        while stack:
            x = stack.pop()
            if x.cid in memo:
                continue
            if x.op == "ref":
                memo[x.cid] = True
                continue
            kids = children(x)
            todo = [k for k in kids if k.cid not in memo]
            if todo:
                stack.append(x)
                stack.extend(todo)
            else:
                memo[x.cid] = any(memo[k.cid] for k in kids)
        return memo[t.cid]

    # ------------------------------------------------------------------ facts
    def known(self, cond, st):
        """Truth value of a condition under the current facts (None if unknown)."""
        c, pol = norm_cond(cond)
        r = self._known(c, st)
        if r is None and self.decide is not None:
            r = self.decide(c)
        if r is None:
            return None
        return r if pol else not r

    def _known(self, c, st):
        if is_const(c):
            return bool(cval(c))
        if c.op == "tuple":
            return len(c.args[0]) > 0
        if c.op in ("func", "class", "ext", "mod"):
            return True
        if c.op == "ref":
            h = st.heap.get(c.args[0])
            if h is not None and h.kind == "obj":
                return True
            if h is not None and h.items and not (h.kind == "dict" and any(e[0] is None or e[2] for e in h.items)):
                return True
            if h is not None and not h.unknown and not h.items and not h.summ:
                return False
            return None
        if c.op == "and":
            rs = [self.known(x, st) for x in c.args[0]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == "or":
            rs = [self.known(x, st) for x in c.args[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == "phi":
            k = self.known(c.args[0], st)
            if k is not None:
                return self.known(c.args[1] if k else c.args[2], st)
            a, b = self.known(c.args[1], st), self.known(c.args[2], st)
            if a is not None and a == b:
                return a
        for f, p in reversed(st.facts):
            if f.cid == c.cid:
                return p
        if c.op == "cmp":
            op, a, b = c.args
            if op in ("==", "is") and is_const(b):
                for f, p in st.facts:
                    if f.op == "cmp" and f.args[1].cid == a.cid:
                        if f.args[0] in ("==", "is") and p and is_const(f.args[2]):
                            same = cval(f.args[2]) == cval(b) and (type(cval(f.args[2])) is type(cval(b)) or op == "==")
                            return bool(same)
                        if f.args[0] == "in" and p:
                            vals = self._const_list(f.args[2])
                            if vals is not None and cval(b) not in vals:
                                return False
            if op == "in":
                vals = self._const_list(b)
                if vals is not None:
                    if is_const(a):
                        return cval(a) in vals
                    for f, p in st.facts:
                        if f.op == "cmp" and f.args[1].cid == a.cid and p:
                            if f.args[0] in ("==", "is") and is_const(f.args[2]):
                                return cval(f.args[2]) in vals
                    neg = {cval(f.args[2]) for f, p in st.facts
                           if f.op == "cmp" and f.args[1].cid == a.cid and not p and f.args[0] == "==" and is_const(f.args[2])}
                    if vals and set(vals) <= neg:
                        return False
        if self.decide is not None and not self.deciding:
            self.deciding = True
            try:
                return self.decide(c)
            finally:
                self.deciding = False
        return None

    @staticmethod
    def _const_list(t):
        if t.op in ("list", "tuple", "set") and all(is_const(x) for x in t.args[0]):
            try:
                return [cval(x) for x in t.args[0]]
            except TypeError:
                return None
        return None

    def assume(self, st, cond, pol):
        for f in conj_parts(cond, pol):
            st.facts.append(f)

    def simp(self, t, st):
        """Resolve the PHI nodes decided by the current facts (top level)."""
        while t.op == "phi":
            k = self.known(t.args[0], st)
            if k is None:
                return t
            t = t.args[1] if k else t.args[2]
        return t

    def phi(self, cond, a, b):
        if a is b:
            return a
        c, pol = norm_cond(cond)
        if not pol:
            a, b = b, a
        if is_const(c):
            return a if cval(c) else b
        if a.cid == b.cid and a.op != "ref":
            return a
        if a.cid == b.cid:
            return a
        if a.op == "const" and b.op == "const" and cval(a) is True and cval(b) is False:
            return c
        # nested PHI on the same condition
        if a.op == "phi" and a.args[0].cid == c.cid:
            a = a.args[1]
        if b.op == "phi" and b.args[0].cid == c.cid:
            b = b.args[2]
        if a.cid == b.cid:
            return a
        return mk("phi", c, a, b)

    # ------------------------------------------------------------------ merging
    def merge(self, cond, s1, s2):
        out = State()
        for eid in list(s1.envs) + [e for e in s2.envs if e not in s1.envs]:
            e1, e2 = s1.envs.get(eid), s2.envs.get(eid)
            if e1 is None or e2 is None:
                out.envs[eid] = dict(e1 if e1 is not None else e2)
                continue
            env = {}
            for k in list(e1) + [k for k in e2 if k not in e1]:
                v1, v2 = e1.get(k), e2.get(k)
                if v1 is None:
                    env[k] = v2
                elif v2 is None:
                    env[k] = v1
                elif v1 is v2:
                    env[k] = v1
                else:
                    env[k] = self.phi(cond, v1, v2)
            out.envs[eid] = env
        for i in list(s1.heap) + [i for i in s2.heap if i not in s1.heap]:
            h1, h2 = s1.heap.get(i), s2.heap.get(i)
            if h1 is None or h2 is None or h1 is h2:
                out.heap[i] = h1 if h1 is not None else h2
            else:
                out.heap[i] = self.merge_obj(cond, h1, h2)
        n = 0
        while n < len(s1.facts) and n < len(s2.facts) and s1.facts[n][0].cid == s2.facts[n][0].cid and s1.facts[n][1] == s2.facts[n][1]:
            n += 1
        out.facts = s1.facts[:n]
        # facts holding on both sides
        keys = {(f.cid, p) for f, p in s2.facts[n:]}
        for f, p in s1.facts[n:]:
            if (f.cid, p) in keys:
                out.facts.append((f, p))
        return out

    def merge_obj(self, cond, h1, h2):
        h = h1.copy()
        if h1.kind == "obj":
            for k in list(h1.attrs) + [k for k in h2.attrs if k not in h1.attrs]:
                v1, v2 = h1.attrs.get(k), h2.attrs.get(k)
                if v1 is None or v2 is None:
                    h.attrs[k] = v1 if v1 is not None else v2
                else:
                    h.attrs[k] = self.phi(cond, v1, v2)
            return h
        if h1.kind == "dict":
            items = [list(x) for x in h1.items]
            index = {(x[0].cid if x[0] is not None else ("s", x[1].cid)): x for x in items}
            for x in h2.items:
                key = x[0].cid if x[0] is not None else ("s", x[1].cid)
                if key in index:
                    y = index[key]
                    y[1] = self.phi(cond, y[1], x[1])
                else:
                    c, p = norm_cond(cond)
                    items.append([x[0], self.phi(cond, mk("absent"), x[1]), x[2]])
            keys2 = {(x[0].cid if x[0] is not None else ("s", x[1].cid)) for x in h2.items}
            for x in items:
                key = x[0].cid if x[0] is not None else ("s", x[1].cid)
                if key not in keys2:
                    x[1] = self.phi(cond, x[1], mk("absent"))
            h.items = items
            h.unknown = h1.unknown or h2.unknown
            return h
        # lists
        if len(h1.items) == len(h2.items):
            h.items = [self.phi(cond, a, b) for a, b in zip(h1.items, h2.items)]
        else:
            n = min(len(h1.items), len(h2.items))
            h.items = [self.phi(cond, a, b) for a, b in zip(h1.items[:n], h2.items[:n])]
            c, p = norm_cond(cond)
            for x in h1.items[n:]:
                h.summ.append(((), ((c, p),), x))
            for x in h2.items[n:]:
                h.summ.append(((), ((c, not p),), x))
        seen = {(tuple(c.cid for c in ctx), tuple((f.cid, p) for f, p in cs), v.cid) for ctx, cs, v in h.summ}
        for ctx, cs, v in h2.summ:
            key = (tuple(c.cid for c in ctx), tuple((f.cid, p) for f, p in cs), v.cid)
            if key not in seen:
                h.summ.append((ctx, cs, v))
        h.unknown = h1.unknown or h2.unknown
        return h

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """Returns (state after the block or None, list of exits)."""
        exits = []
        for s in stmts:
            if st is None:
                break
            st, ex = self.exec_stmt(s, st)
            exits += ex
        return st, exits

    def exec_stmt(self, s, st):
        self.n_stmts += 1
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return st, []
        return m(s, st)

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st, []
        v, st = self.ev(s.value, st)
        return st, []

    def st_Pass(self, s, st):
        return st, []

    def st_Assign(self, s, st):
        v, st = self.ev(s.value, st)
        for tgt in s.targets:
            st = self.assign(tgt, v, st)
        return st, []

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return st, []
        v, st = self.ev(s.value, st)
        return self.assign(s.target, v, st), []

    def st_AugAssign(self, s, st):
        op = _BIN[type(s.op)]
        load = _as_load(s.target)
        cur, st = self.ev(load, st)
        v, st = self.ev(s.value, st)
        cur = self.simp(cur, st)
        if cur.op == "ref" and op == "+" and st.heap[cur.args[0]].kind == "list":
            if not _arrayish(v):
                st = self.list_extend(cur, v, st, s)
                return st, []
            # list += array: the operator of the array is used (a new array)
            return self.assign(s.target, mk("bin", op, self.freeze(cur, st), self.freeze(v, st), site=self.site(s)), st), []
        self.emit("augassign", (cur, op, v, isinstance(s.target, ast.Name)), st, s)
        new = self.binop(op, cur, v, st, s)
        new.sub = cur  # in-place update of the previous value
        return self.assign(s.target, new, st), []

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                eid = self.frames[-1].env
                st.envs[eid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base, st = self.ev(t.value, st)
                key, st = self.ev(t.slice, st)
                base = self.simp(base, st)
                self.emit("delitem", (base, key), st, t)
                if base.op == "ref" and st.heap[base.args[0]].kind == "dict":
                    h = st.heap[base.args[0]].copy()
                    h.items = [e for e in h.items if e[0] is None or e[0].cid != key.cid]
                    st.heap[base.args[0]] = h
        return st, []

    def st_Return(self, s, st):
        if s.value is None:
            v = NONE
        else:
            v, st = self.ev(s.value, st)
        return None, [Exit("return", v, st)]

    def st_Break(self, s, st):
        return None, [Exit("break", None, st)]

    def st_Continue(self, s, st):
        return None, [Exit("continue", None, st)]

    def st_Raise(self, s, st):
        if s.exc is not None:
            v, st = self.ev(s.exc, st)
            v = self.freeze(v, st)
        else:
            v = mk("reraise")
        self.emit("raise", (v,), st, s)
        return None, [Exit("raise", v, st)]

    def st_Assert(self, s, st):
        c, st = self.ev(s.test, st)
        k = self.known(c, st)
        if k is not True:
            bad = st.copy()
            self.assume(bad, c, False)
            self.emit("raise", (mk("call", ext("builtins.AssertionError"), (), ()),), bad, s)
        self.assume(st, c, True)
        return st, []

    def st_Global(self, s, st):
        self.frames[-1].globals.update(s.names)
        return st, []

    def st_Nonlocal(self, s, st):
        self.frames[-1].nonlocals.update(s.names)
        return st, []

    def st_Import(self, s, st):
        for a in s.names:
            if a.name.split(".")[0] == "pypeec":
                st = self.load(a.name.split(".")[0], self.load(a.name, st))
                t = self.module_term(a.name)
                top = self.module_term(a.name.split(".")[0])
            else:
                self.emit("import", (a.name,), st, s)
                t = ext(a.name)
                top = ext(a.name.split(".")[0])
            if a.asname:
                self.bind(a.asname, t, st)
            else:
                self.bind(a.name.split(".")[0], top, st)
        return st, []

    def load(self, name, st):
        """Execute the body of a module at its first import."""
        if name not in self.repo.modules or name in self.initialized:
            return st
        saved, self.frames = self.frames, []
        facts, st.facts = st.facts, []
        self.state = st
        self.init_module(name)
        self.frames = saved
        self.state.facts = facts
        return self.state

    def module_term(self, name):
        if name in self.repo.modules:
            self.init_module(name) if name not in self.initialized else None
        return mk("mod", name)

    def st_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            mod = self.frames[-1].fv.module
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            name = a.asname or a.name
            if base.split(".")[0] == "pypeec":
                full = base + "." + a.name
                if full in self.repo.modules:
                    st = self.load(full, st)
                    self.bind(name, self.module_term(full), st)
                else:
                    st = self.load(base, st)
                    if a.name == "*":
                        for k, v in st.envs.get(base, {}).items():
                            if not k.startswith("_"):
                                self.bind(k, v, st)
                        continue
                    env = st.envs.get(base, self.state.envs.get(base, {}))
                    self.bind(name, env.get(a.name, mk("attr", mk("mod", base), a.name)), st)
            else:
                self.emit("import", (base + "." + a.name,), st, s)
                self.bind(name, ext(base + "." + a.name), st)
        return st, []

    def st_FunctionDef(self, s, st):
        fv, st = self.make_func(s, st)
        self.bind(s.name, fv, st)
        return st, []

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, node, st, name=None, cls=None):
        fr = self.frames[-1]
        qual = name or node.name
        if fr.fv.node.__class__ is ast.Module:
            full = fr.fv.module.name + "." + (cls.node.name + "." if cls else "") + qual
        else:
            full = fr.qual + ".<locals>." + (cls.node.name + "." if cls else "") + qual
        fv = FuncVal(node, fr.fv.module, list(fr.fv.envs if fr.env == fr.fv.envs[0] else [fr.env] + [e for e in fr.fv.envs if e != fr.env]), full, cls)
        a = node.args
        for d in a.defaults:
            v, st = self.ev(d, st)
            fv.defaults.append(v)
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v, st = self.ev(d, st)
                fv.kw_defaults[k.arg] = v
        if not isinstance(node, ast.Lambda):
            fv.is_gen = _has_yield(node)
        t = mk("func", full, self.new_id(), extra=fv)
        for dec in reversed(getattr(node, "decorator_list", [])):
            d, st = self.ev(dec, st)
            if d.op == "ext" and d.args[0] == "builtins.staticmethod":
                fv.static = True
            elif d.op == "ext" and d.args[0] == "builtins.classmethod":
                fv.static = "class"
            elif d.op == "ext" and d.args[0] == "builtins.property":
                fv.static = "property"
            elif d.op == "func":
                t, st = self.apply(d, [t], {}, st, node)
        return t, st

    def st_ClassDef(self, s, st):
        fr = self.frames[-1]
        bases = []
        for b in s.bases:
            v, st = self.ev(b, st)
            bases.append(v)
        qual = (fr.fv.module.name if fr.fv.node.__class__ is ast.Module else fr.qual) + "." + s.name
        cv = ClassVal(s, fr.fv.module, qual, bases)
        t = mk("class", qual, self.new_id(), extra=cv)
        self.bind(s.name, t, st)
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f, st = self.make_func(x, st, cls=cv)
                cv.members[x.name] = f
            elif isinstance(x, ast.Assign):
                v, st = self.ev(x.value, st)
                for tgt in x.targets:
                    if isinstance(tgt, ast.Name):
                        cv.members[tgt.id] = v
        return st, []

    def st_If(self, s, st):
        c, st = self.ev(s.test, st)
        return self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def branch(self, c, st, fa, fb):
        c = self.freeze_cond(c, st)
        k = self.known(c, st)
        if k is not None and self.keep_const and is_const(c):
            # decided by a constant (option of the configuration): recorded for the events of the branch
            st = st.copy()
            f = (c, k)
            st.facts.append(f)
            r, ex = (fa if k else fb)(st)
            if r is not None:
                r.facts = [x for x in r.facts if x is not f]
            return r, ex
        if k is True:
            return fa(st)
        if k is False:
            return fb(st)
        s1, s2 = st, st.copy()
        s1 = st.copy()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        r1, e1 = fa(s1)
        r2, e2 = fb(s2)
        ex = e1 + e2
        if r1 is None and r2 is None:
            return None, ex
        if r1 is None:
            return r2, ex
        if r2 is None:
            return r1, ex
        return self.merge(c, r1, r2), ex

    def freeze_cond(self, c, st):
        if c.op in ("ref",):
            return c
        return self.freeze(c, st)

    def st_Match(self, s, st):
        v, st = self.ev(s.subject, st)

        def pat(p, st):
            if isinstance(p, ast.MatchValue):
                x, _ = self.ev(p.value, st)
                return self.compare("==", v, x, st)
            if isinstance(p, ast.MatchSingleton):
                return self.compare("is", v, const(p.value), st)
            if isinstance(p, ast.MatchOr):
                return mk("or", tuple(pat(q, st) for q in p.patterns))
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return TRUE
            return mk("opaque", "match", self.new_id())

        def rec(cases, st):
            if not cases:
                return st, []
            c = cases[0]
            cond = pat(c.pattern, st)
            if c.guard is not None:
                g, st = self.ev(c.guard, st)
                cond = g if cond == TRUE else mk("and", (cond, g))

            def body(x):
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                    self.bind(c.pattern.name, v, x)
                return self.exec_block(c.body, x)
            return self.branch(cond, st, body, lambda x: rec(cases[1:], x))
        return rec(s.cases, st)

    def st_With(self, s, st):
        swallow = False
        for item in s.items:
            v, st = self.ev(item.context_expr, st)
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].endswith("contextlib.suppress"):
                swallow = True
            if item.optional_vars is not None:
                st = self.assign(item.optional_vars, mk("enter", v), st)
        if not swallow:
            return self.exec_block(s.body, st)
        tid = mk("trybody", self.new_id())
        entry = st.copy()
        st.facts.append((tid, True))
        r, ex = self.exec_block(s.body, st)
        ex = [e for e in ex if e.kind != "raise"]
        if r is None:
            return entry, ex
        return self.merge(tid, r, entry), ex

    st_AsyncWith = st_With

    def st_Try(self, s, st):
        entry = st.copy()
        tid = mk("trybody", self.new_id())
        always_raise = all(_always_raises(h.body) for h in s.handlers) if s.handlers else True
        body_st = st
        if not always_raise:
            body_st.facts.append((tid, True))
        n0 = len(self.events)
        r, ex = self.exec_block(s.body, body_st)
        raised = [e for e in ex if e.kind == "raise"]
        others = [e for e in ex if e.kind != "raise"]
        if not s.handlers:
            others += raised
        if r is not None and s.orelse:
            r, e2 = self.exec_block(s.orelse, r)
            others += e2
        states = []
        if r is not None:
            states.append((tid, r))
        for h in s.handlers:
            hs = entry.copy()
            hs.facts.append((tid, False))
            hs.facts.append((mk("handler", h.lineno, len(states)), True))
            if h.type is not None:
                ht, hs = self.ev(h.type, hs)
            else:
                ht = ext("builtins.BaseException")
            if h.name:
                self.bind(h.name, mk("exc", ht, tid), hs)
            # values possibly produced by a partial execution of the body
            hr, he = self.exec_block(h.body, hs)
            others += he
            if hr is not None:
                states.append((mk("handler", h.lineno, len(states)), hr))
        out = None
        for c, x in states:
            if out is None:
                out = x
                first = c
            else:
                out = self.merge(first, out, x)
        if s.finalbody:
            base = out if out is not None else (others[0].st.copy() if others else entry.copy())
            f, fe = self.exec_block(s.finalbody, base)
            others += fe
            if out is not None:
                out = f
        return out, others

    st_TryStar = st_Try

    # ------------------------------------------------------------------ loops
    def st_For(self, s, st):
        it, st = self.ev(s.iter, st)
        return self.loop_over(it, st, s,
                              lambda el, x: self.exec_block(s.body, self.assign(s.target, el, x)),
                              s.orelse)

    st_AsyncFor = st_For

    def loop_over(self, it, st, node, body, orelse=()):
        it = self.simp(it, st)
        if it.op == "phi" and self._phi_iter(it, st):
            def part(alt):
                return lambda x: self.loop_over(alt, x, node, body, orelse)
            return self.branch(it.args[0], st, part(it.args[1]), part(it.args[2]))
        groups = self.iter_groups(it, st)
        exits = []
        broke = []
        for g in groups:
            if st is None:
                break
            if g[0] == "one":
                st, ex = body(g[1], st)
                conts = [e.st for e in ex if e.kind == "continue"]
                broke += [e.st for e in ex if e.kind == "break"]
                exits += [e for e in ex if e.kind not in ("continue", "break")]
                for c in conts:
                    st = c if st is None else self.merge_exits(st, c)
            else:
                st, ex = self.abstract_loop(g[1], g[2], st, node, body)
                exits += ex
        for b in broke:
            st = b if st is None else self.merge_exits(st, b)
        if orelse and st is not None:
            st, ex = self.exec_block(orelse, st)
            exits += ex
        return st, exits

    def merge_exits(self, s1, s2):
        """Merge two states reached under different facts."""
        n = 0
        while n < len(s1.facts) and n < len(s2.facts) and s1.facts[n][0].cid == s2.facts[n][0].cid and s1.facts[n][1] == s2.facts[n][1]:
            n += 1
        rest = s2.facts[n:]
        if rest:
            c = self.conj(rest)
            return self.merge(mk("un", "not", c), s1, s2) if False else self.merge_neg(c, s1, s2)
        rest = s1.facts[n:]
        if rest:
            return self.merge(self.conj(rest), s1, s2)
        return self.merge(mk("opaque", "join", self.new_id()), s1, s2)

    def merge_neg(self, c, s1, s2):
        return self.merge(c, s2, s1)

    def conj(self, facts):
        parts = tuple(f if p else mk("un", "not", f) for f, p in facts)
        return parts[0] if len(parts) == 1 else mk("and", parts)

    def _phi_iter(self, it, st):
        def ok(t):
            t = self.simp(t, st)
            if t.op == "phi":
                return ok(t.args[1]) or ok(t.args[2])
            return t.op in ("ref", "tuple", "list", "dict") or is_const(t)
        return ok(it)

    def iter_groups(self, it, st):
        """Iteration space: list of ("one", element) or ("gen", iterable ctx, element)."""
        items = self.iter_known(it, st)
        if items is not None and len(items) <= MAX_UNROLL:
            return [("one", x) for x in items]
        if it.op == "ref":
            h = st.heap[it.args[0]]
            out = []
            if h.kind in ("list", "set"):
                out += [("one", x) for x in h.items]
                for ctx, conds, v in h.summ:
                    out.append(("gen", ctx if ctx else (mk("maybe", self.conj(conds)),), v))
                if h.unknown:
                    f = self.freeze(it, st)
                    out.append(("gen", (f,), self.elem(f)))
                return out
            if h.kind == "dict":
                for k, v, ctx in h.items:
                    if k is None:
                        out.append(("gen", (v,), self.elem(v)))
                    elif ctx:
                        out.append(("gen", ctx, k))
                    else:
                        out.append(("one", k))
                return out
        if it.op == "call" and it.args[0].op == "bmeth" and it.args[0].args[0].op == "ref":
            base, name = it.args[0].args
            h = st.heap[base.args[0]]
            if h.kind == "dict" and name in ("items", "values", "keys"):
                out = []
                for k, v, ctx in h.items:
                    if k is None:
                        key = self.elem(v)
                        val = self.getitem(v, key, st, None)
                    else:
                        key, val = k, v
                    el = {"items": mk("tuple", (key, val)), "values": val, "keys": key}[name]
                    if k is None:
                        out.append(("gen", (v,), el))
                    elif ctx:
                        out.append(("gen", ctx, el))
                    else:
                        out.append(("one", el))
                return out
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.enumerate" and it.args[1]:
            inner = it.args[1][0]
            sub = self.iter_groups(self.simp(inner, st), st)
            out = []
            for i, g in enumerate(sub):
                if g[0] == "one":
                    idx = const(i) if all(x[0] == "one" for x in sub[:i]) else mk("opaque", "enum", self.new_id())
                    out.append(("one", mk("tuple", (idx, g[1]))))
                else:
                    out.append(("gen", g[1], mk("tuple", (mk("pos", *g[1]), g[2]))))
            return out
        inner = self.indexed(it)
        if inner is not None:
            sub = self.iter_groups(self.simp(inner, st), st)
            if all(g[0] == "gen" and len(g[1]) == 1 for g in sub):
                return [("gen", g[1], mk("pos", *g[1])) for g in sub]
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.zip":
            subs = [self.iter_groups(self.simp(x, st), st) for x in it.args[1]]
            if subs and all(len(x) == len(subs[0]) for x in subs):
                out = []
                for gs in zip(*subs):
                    ctx = [g[1] for g in gs if g[0] == "gen"]
                    els = tuple(g[1] if g[0] == "one" else g[2] for g in gs)
                    if ctx:
                        out.append(("gen", ctx[0], mk("tuple", els)))
                    else:
                        out.append(("one", mk("tuple", els)))
                return out
        f = self.freeze(it, st)
        if f.op == "map":
            return [("gen", (f.args[0],), f.args[1])]
        return [("gen", (f,), self.elem(f))]

    def indexed(self, it):
        """The sequence whose positions are enumerated by range(len(x))."""
        if it.op != "call" or it.args[0].op != "ext" or it.args[0].args[0] != "builtins.range" or it.args[2]:
            return None
        a = list(it.args[1])
        if len(a) == 2 and is_const(a[0]) and cval(a[0]) == 0:
            a = a[1:]
        if len(a) != 1:
            return None
        x = a[0]
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "builtins.len" and len(x.args[1]) == 1 and not x.args[2]:
            return x.args[1][0]
        if x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == 0 and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
            return x.args[0].args[0]
        return None

    def elem(self, it):
        """Generic element of an unknown iterable."""
        x = self.indexed(it)
        if x is not None:
            return mk("pos", x)
        if it.op == "call":
            fn, a, kw = it.args
            if fn.op == "ext" and fn.args[0] in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.reversed") and len(a) == 1:
                return self.elem(a[0])
            if fn.op == "attr" and fn.args[1] in ("items", "values", "keys") and not a:
                d = fn.args[0]
                key = self.elem(d)
                val = mk("item", d, key)
                return {"items": mk("tuple", (key, val)), "values": val, "keys": key}[fn.args[1]]
            if fn.op == "ext" and fn.args[0] == "builtins.enumerate" and a:
                return mk("tuple", (mk("pos", a[0]), self.elem(a[0])))
            if fn.op == "ext" and fn.args[0] == "builtins.zip":
                return mk("tuple", tuple(self.elem(x) for x in a))
        if it.op == "map":
            return it.args[1]
        level = sum(1 for l in self.loops if l.cid == it.cid)
        return mk("elem", it, level)

    def iter_known(self, it, st):
        """List of the elements of a completely known iterable (or None)."""
        it = self.simp(it, st)
        if it.op in ("tuple", "list"):
            return list(it.args[0])
        if it.op == "dict":
            return [k for k, _ in it.args[0]]
        if is_const(it):
            v = cval(it)
            if isinstance(v, (str, tuple)):
                return [const(x) for x in v]
            if isinstance(v, range):
                return [const(x) for x in v] if len(v) <= MAX_UNROLL else None
            return None
        if it.op == "ref":
            h = st.heap[it.args[0]]
            if h.unknown:
                return None
            if h.kind in ("list", "set"):
                return None if h.summ else list(h.items)
            if h.kind == "dict":
                if any(e[0] is None or e[2] for e in h.items):
                    return None
                return [e[0] for e in h.items]
            return None
        if it.op == "call":
            fn, a, kw = it.args
            if fn.op == "bmeth" and fn.args[0].op == "ref":
                base, name = fn.args
                h = st.heap[base.args[0]]
                if h.kind == "dict" and name in ("items", "values", "keys") and not h.unknown:
                    if any(e[0] is None or e[2] for e in h.items):
                        return None
                    return [{"items": mk("tuple", (e[0], e[1])), "values": e[1], "keys": e[0]}[name] for e in h.items]
            if fn.op == "attr" and fn.args[0].op == "dict" and fn.args[1] in ("items", "values", "keys"):
                return [{"items": mk("tuple", (k, v)), "values": v, "keys": k}[fn.args[1]] for k, v in fn.args[0].args[0]]
            if fn.op == "ext" and not kw:
                n = fn.args[0]
                if n == "builtins.range" and all(is_const(x) for x in a):
                    try:
                        r = range(*[cval(x) for x in a])
                    except TypeError:
                        return None
                    return [const(x) for x in r] if len(r) <= MAX_UNROLL else None
                if n == "builtins.zip":
                    subs = [self.iter_known(x, st) for x in a]
                    if any(x is None for x in subs):
                        return None
                    return [mk("tuple", tuple(x)) for x in zip(*subs)]
                if n == "builtins.enumerate" and a:
                    sub = self.iter_known(a[0], st)
                    start = cval(a[1]) if len(a) > 1 and is_const(a[1]) else 0
                    return None if sub is None else [mk("tuple", (const(i + start), x)) for i, x in enumerate(sub)]
                if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) == 1:
                    return self.iter_known(a[0], st)
                if n == "builtins.reversed" and len(a) == 1:
                    sub = self.iter_known(a[0], st)
                    return None if sub is None else list(reversed(sub))
                if n == "itertools.product":
                    subs = [self.iter_known(x, st) for x in a]
                    if any(x is None for x in subs):
                        return None
                    import itertools
                    return [mk("tuple", tuple(x)) for x in itertools.product(*subs)]
        return None

    def abstract_loop(self, ctx, el, st, node, body):
        """One generic iteration of a loop over an unknown iterable."""
        env_id = self.frames[-1].env
        env = st.envs[env_id]
        names = [n for n in _assigned_names(node) if n in env]
        entry_facts = list(st.facts)
        inits = {}
        used = {}
        for n in names:
            init = env[n]
            if init.op in ("ref", "func", "class", "mod", "ext"):
                continue
            init = self.freeze(init, st)
            key = init.cid
            lv = mk("lv", tuple(ctx), init, used.get(key, 0))
            used[key] = used.get(key, 0) + 1
            inits[n] = (env[n], lv)
            env[n] = lv
        for c in ctx:
            self.loops.append(c)
            st.facts.append((mk("inloop", c), True))
        n_in = len(st.facts)
        heap_before = st.heap
        st.heap = dict(st.heap)
        r, ex = body(el, st)
        for c in ctx:
            self.loops.pop()
        exits = [e for e in ex if e.kind not in ("continue", "break")]
        for e in ex:
            if e.kind in ("continue", "break"):
                r = e.st if r is None else self.merge_exits(r, e.st)
        if r is None:
            # no normal completion of the iteration: the loop is left with the entry values
            r = State()
            r.envs = {k: dict(v) for k, v in st.envs.items()}
            r.heap = heap_before
            r.facts = list(entry_facts)
            for n, (init, lv) in inits.items():
                r.envs[env_id][n] = init
            return r, exits
        # facts established by guards inside the loop hold for every element
        guards = [f for f in r.facts[n_in:]]
        r.facts = entry_facts + guards
        env = r.envs[env_id]
        for n, (init, lv) in inits.items():
            new = env.get(n)
            if new is None:
                continue
            if new.cid == lv.cid:
                env[n] = init
            else:
                env[n] = mk("loop", tuple(ctx), self.freeze(init, r), self.freeze(new, r), lv)
                self.emit("carry", (n, env[n]), r, node)
        return r, exits

    def st_While(self, s, st):
        wid = mk("while", self.new_id())

        def body(el, x):
            c, x = self.ev(s.test, x)
            c = self.freeze_cond(c, x)
            k = self.known(c, x)
            self.emit("while", (c,), x, s)
            if k is None:
                self.assume(x, c, True)
            return self.exec_block(s.body, x)
        # constant false test
        st2, ex = self.abstract_loop((wid,), NONE, st, s, body)
        if st2 is not None and s.orelse:
            st2, e2 = self.exec_block(s.orelse, st2)
            ex += e2
        return st2, ex

    # ------------------------------------------------------------------ binding
    def bind(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals:
            eid = fr.fv.envs[-1]
            self.emit_global(name, v, st)
        elif name in fr.nonlocals:
            eid = next((e for e in fr.fv.envs if e != fr.env and name in st.envs.get(e, {})), fr.env)
        else:
            eid = fr.env
        st.envs.setdefault(eid, {})[name] = v

    def emit_global(self, name, v, st):
        fr = self.frames[-1]
        self.emit("global", (fr.fv.module.name, name, v), st, fr.fv.node)

    def lookup(self, name, st):
        fr = self.frames[-1]
        chain = [fr.env] + [e for e in fr.fv.envs if e != fr.env]
        if name in fr.globals:
            chain = [fr.fv.envs[-1]]
        for e in chain:
            env = st.envs.get(e)
            if env is not None and name in env:
                return env[name]
        return ext("builtins." + name)

    def assign(self, tgt, v, st):
        if isinstance(tgt, ast.Name):
            self.bind(tgt.id, v, st)
            return st
        if isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            v = self.simp(v, st)
            items = self.iter_known(v, st)
            if items is not None and not star and len(items) == n:
                vals = items
            elif items is not None and star:
                i = star[0]
                m = n - i - 1
                vals = items[:i] + [self.new_list(st, items[i:len(items) - m])] + items[len(items) - m:]
            else:
                self.emit("unpack", (self.freeze(v, st), n), st, tgt)
                if star:
                    vals = [self.getitem(v, const(i), st, tgt) for i in range(n)]
                else:
                    vals = [self.getitem(v, const(i), st, tgt) for i in range(n)]
            for e, x in zip(tgt.elts, vals):
                st = self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
            return st
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, v, st)
        if isinstance(tgt, ast.Attribute):
            base, st = self.ev(tgt.value, st)
            base = self.simp(base, st)
            self.emit("setattr", (base, tgt.attr, v), st, tgt)
            if base.op == "ref":
                h = st.heap[base.args[0]].copy()
                h.attrs[tgt.attr] = v
                st.heap[base.args[0]] = h
            elif base.op == "mod":
                st.envs.setdefault(base.args[0], {})[tgt.attr] = v
            else:
                new = mk("setattr", self.freeze(base, st), tgt.attr, self.freeze(v, st), site=self.site(tgt))
                self.replace_object(base, new, st)
            return st
        if isinstance(tgt, ast.Subscript):
            base, st = self.ev(tgt.value, st)
            key, st = self.ev(tgt.slice, st)
            return self.setitem(base, key, v, st, tgt)
        return st

    def setitem(self, base, key, v, st, node):
        base = self.simp(base, st)
        key = self.simp(key, st)
        self.emit("setitem", (base, key, v), st, node)
        if base.op == "phi":
            # weak update of both alternatives
            for alt, pol in ((base.args[1], True), (base.args[2], False)):
                if alt.op == "ref":
                    old = self.getitem(alt, key, st, None)
                    c, p = norm_cond(base.args[0])
                    new = self.phi(base.args[0], v, old) if pol else self.phi(base.args[0], old, v)
                    st = self.set_ref(alt, key, new, st)
            if base.args[1].op == "ref" and base.args[2].op == "ref":
                return st
        if base.op == "ref":
            return self.set_ref(base, key, v, st)
        new = mk("setitem", self.freeze(base, st), self.freeze(key, st), self.freeze(v, st), site=self.site(node))
        new.sub = base
        self.replace_object(base, new, st)
        return st

    def set_ref(self, base, key, v, st):
        h = st.heap[base.args[0]].copy()
        st.heap[base.args[0]] = h
        if h.kind == "obj":
            h.attrs["[]"] = v
            return st
        if h.kind == "list":
            if is_const(key) and isinstance(cval(key), int) and not h.unknown and -len(h.items) <= cval(key) < len(h.items):
                h.items[cval(key)] = v
            else:
                h.summ.append((tuple(self.loops[h.depth:]), (), v))
            return st
        key = self.freeze(key, st)
        for e in h.items:
            if e[0] is not None and e[0].cid == key.cid:
                e[1] = v
                return st
        h.items.append([key, v, () if is_const(key) else (tuple(self.loops[h.depth:]) or (mk("symkey", key),))])
        return st

    def replace_object(self, old, new, st):
        """In-place update of an array-like object: every holder of the same object sees it."""
        if old.op in ("const", "ext", "mod", "func", "class"):
            return
        for eid, env in st.envs.items():
            if eid in self.repo.modules and eid not in [f.fv.module.name for f in self.frames]:
                continue
            for k, x in env.items():
                if x is old:
                    env[k] = new
                elif x.op == "tuple" and any(y is old for y in x.args[0]):
                    env[k] = mk("tuple", tuple(new if y is old else y for y in x.args[0]))
        for i, h in list(st.heap.items()):
            hit = any(x is old for x in h.attrs.values())
            if h.kind == "dict":
                hit = hit or any(e[1] is old for e in h.items)
            else:
                hit = hit or any(x is old for x in h.items)
            if hit:
                h = h.copy()
                h.attrs = {k: (new if x is old else x) for k, x in h.attrs.items()}
                if h.kind == "dict":
                    h.items = [[k, new if x is old else x, c] for k, x, c in h.items]
                else:
                    h.items = [new if x is old else x for x in h.items]
                st.heap[i] = h

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return mk("opaque", type(e).__name__, self.new_id(), site=self.site(e)), st
        return m(e, st)

    def ev_list(self, es, st):
        out = []
        for e in es:
            v, st = self.ev(e, st)
            out.append(v)
        return out, st

    def ex_Constant(self, e, st):
        return const(e.value), st

    def ex_Name(self, e, st):
        v = self.lookup(e.id, st)
        return self.simp(v, st), st

    def ex_NamedExpr(self, e, st):
        v, st = self.ev(e.value, st)
        st = self.assign(e.target, v, st)
        return v, st

    def ex_Tuple(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v, st = self.ev(x.value, st)
                sub = self.iter_known(v, st)
                if sub is None:
                    return mk("opaque", "startuple", self.freeze(v, st)), st
                items += sub
            else:
                v, st = self.ev(x, st)
                items.append(v)
        return mk("tuple", tuple(items), site=self.site(e)), st

    def ex_List(self, e, st):
        h = HObj("list", len(self.loops))
        ref = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v, st = self.ev(x.value, st)
                sub = self.iter_known(v, st)
                if sub is None:
                    f = self.freeze(v, st)
                    h.summ.append(((f,), (), self.elem(f)))
                else:
                    h.items += sub
            else:
                v, st = self.ev(x, st)
                h.items.append(v)
        return self.alloc(st, h), st

    def ex_Set(self, e, st):
        vals, st = self.ev_list(e.elts, st)
        h = HObj("set", len(self.loops))
        h.items = vals
        return self.alloc(st, h), st

    def ex_Dict(self, e, st):
        h = HObj("dict", len(self.loops))
        for k, v in zip(e.keys, e.values):
            if k is None:
                val, st = self.ev(v, st)
                self.dict_spread(h, val, st)
            else:
                kk, st = self.ev(k, st)
                vv, st = self.ev(v, st)
                self.dict_put(h, self.freeze(kk, st), vv)
        return self.alloc(st, h), st

    def dict_put(self, h, key, v):
        for ent in h.items:
            if ent[0] is not None and ent[0].cid == key.cid:
                # a later entry overrides
                i = h.items.index(ent)
                if any(x[0] is None for x in h.items[i + 1:]):
                    continue
                ent[1] = v
                return
        h.items.append([key, v, () if is_const(key) else (tuple(self.loops[h.depth:]) or (mk("symkey", key),))])

    def dict_spread(self, h, val, st):
        val = self.simp(val, st)
        if val.op == "ref" and st.heap[val.args[0]].kind == "dict":
            for k, v, ctx in st.heap[val.args[0]].items:
                if k is None:
                    h.items.append([None, v, ctx])
                else:
                    self.dict_put(h, k, v)
                    if ctx:
                        h.items[-1][2] = ctx
            h.unknown = h.unknown or st.heap[val.args[0]].unknown
        elif val.op == "dict":
            for k, v in val.args[0]:
                self.dict_put(h, k, v)
        else:
            h.items.append([None, self.freeze(val, st), ()])

    def ex_Attribute(self, e, st):
        base, st = self.ev(e.value, st)
        return self.getattr(base, e.attr, st, e), st

    def getattr(self, base, name, st, node):
        base = self.simp(base, st)
        if base.op == "ext":
            if base.args[0] == "numpy" and name == "newaxis":
                return const(None)
            return ext(base.args[0] + "." + name)
        if base.op == "mod":
            env = st.envs.get(base.args[0])
            if env is not None and name in env:
                return env[name]
            full = base.args[0] + "." + name
            if full in self.repo.modules:
                return self.module_term(full)
            return mk("attr", base, name)
        if base.op == "ref":
            h = st.heap[base.args[0]]
            if h.kind == "obj":
                if name in h.attrs:
                    return self.simp(h.attrs[name], st)
                m = self.find_member(h.cls, name)
                if m is not None and m.op == "func":
                    if m.extra.static == "property":
                        v, _ = self.apply(self.bind_method(m, base), [], {}, st, node)
                        return v
                    return self.bind_method(m, base)
                if m is not None:
                    return m
                return mk("attr", base, name)
            return mk("bmeth", base, name)
        if base.op == "class":
            m = self.find_member(base.extra, name)
            if m is not None:
                return m
            return mk("attr", base, name)
        if base.op == "phi":
            a = self.getattr(base.args[1], name, st, node)
            b = self.getattr(base.args[2], name, st, node)
            if a.op in ("func", "bmeth") or b.op in ("func", "bmeth"):
                return mk("phi", base.args[0], a, b)
            return self.phi(base.args[0], a, b)
        if base.op == "setattr":
            if base.args[1] == name:
                return base.args[2]
        return mk("attr", self.freeze(base, st), name, site=self.site(node) if node is not None else None)

    def find_member(self, cls, name):
        if cls is None:
            return None
        if name in cls.members:
            return cls.members[name]
        for b in cls.bases:
            if b.op == "class":
                m = self.find_member(b.extra, name)
                if m is not None:
                    return m
        return None

    def bind_method(self, m, base):
        fv = m.extra
        if fv.static is True:
            return m
        new = FuncVal(fv.node, fv.module, fv.envs, fv.qual, fv.cls)
        new.defaults, new.kw_defaults, new.is_gen = fv.defaults, fv.kw_defaults, fv.is_gen
        new.bound = base
        return mk("func", fv.qual, m.args[1], base, extra=new)

    def ex_Subscript(self, e, st):
        base, st = self.ev(e.value, st)
        key, st = self.ev(e.slice, st)
        return self.getitem(base, key, st, e), st

    def ex_Slice(self, e, st):
        parts = []
        for x in (e.lower, e.upper, e.step):
            if x is None:
                parts.append(NONE)
            else:
                v, st = self.ev(x, st)
                parts.append(v)
        return mk("slice", *parts), st

    def getitem(self, base, key, st, node):
        base = self.simp(base, st)
        key = self.simp(key, st)
        if base.op == "phi":
            a = self.getitem(base.args[1], key, st, None)
            b = self.getitem(base.args[2], key, st, None)
            return self.phi(base.args[0], a, b)
        if base.op == "lv" and False:
            pass
        k = cval(key) if is_const(key) else None
        isint = isinstance(k, int) and not isinstance(k, bool)
        if base.op in ("tuple", "list"):
            items = base.args[0]
            if isint and -len(items) <= k < len(items):
                return items[k]
            if key.op == "slice" and all(is_const(x) for x in key.args):
                sub = items[slice(*[cval(x) for x in key.args])]
                return mk(base.op, sub)
        if base.op == "dict" and is_const(key):
            for kk, v in base.args[0]:
                if kk.cid == key.cid:
                    return v
        if base.op == "const" and is_const(key):
            try:
                return const(cval(base)[k])
            except Exception:
                pass
        if base.op == "ref":
            h = st.heap[base.args[0]]
            if h.kind == "list" and not h.unknown:
                if isint and not h.summ and -len(h.items) <= k < len(h.items):
                    return self.simp(h.items[k], st)
                if key.op == "slice" and not h.summ and all(is_const(x) for x in key.args):
                    return self.new_list(st, h.items[slice(*[cval(x) for x in key.args])])
                if not h.items and len(h.summ) == 1 and key.op != "slice":
                    return h.summ[0][2]
            if h.kind == "dict":
                r = self.dict_get(h, key, st)
                if r is not None:
                    if node is not None:
                        self.emit("getitem", (base, self.freeze(key, st)), st, node)
                    return self.simp(r, st)
            if h.kind == "obj":
                return mk("item", self.freeze(base, st), self.freeze(key, st))
        fb, fk = self.freeze(base, st), self.freeze(key, st)
        if node is not None:
            self.emit("getitem", (fb, fk), st, node)
        if fb.op == "setitem" and fb.args[1].cid == fk.cid and not _is_maskish(fk):
            return fb.args[2]
        if fb.op == "setitem" and is_const(fk) and is_const(fb.args[1]):
            return self.getitem(fb.args[0], fk, st, None)
        if fb.op == "map" and fk.op != "slice" and fk.op != "tuple":
            if fk.op == "pos" and fk.args and fk.args[0].cid == fb.args[0].cid:
                return fb.args[1]
        # positional element of an iterable
        if fk.op == "pos" and len(fk.args) == 1 and fk.args[0].cid == fb.cid:
            return mk("elem", fb, 0)
        t = mk("item", fb, fk, site=self.site(node) if node is not None else None)
        return self.fixed.get(t.cid, t)

    def dict_get(self, h, key, st):
        key = self.freeze(key, st)
        sym = [e for e in h.items if e[0] is not None and not is_const(e[0])]
        for i in range(len(h.items) - 1, -1, -1):
            e = h.items[i]
            if e[0] is None:
                keys = self.oracle(e[1]) if self.oracle else None
                if keys is not None and is_const(key):
                    if cval(key) in keys:
                        return mk("item", e[1], key)
                    continue
                rest = [x for x in h.items[:i] if x[0] is None or x[0].cid == key.cid]
                if not rest:
                    return mk("item", e[1], key)
                return mk("item", mk("dictc", tuple((NONE if x[0] is None else x[0], self.freeze(x[1], st), mk("ctx", (), const(x[0] is None))) for x in h.items), FALSE), key)
            if e[0].cid == key.cid:
                return e[1]
        if not is_const(key):
            if len(sym) == 1 and len(h.items) == 1:
                return sym[0][1]
            if h.items and not sym and not any(e[0] is None for e in h.items):
                # symbolic key over known entries: merge of the alternatives
                if len(h.items) <= 12:
                    out = h.items[-1][1]
                    for e in reversed(h.items[:-1]):
                        out = self.phi(mk("cmp", "==", key, e[0]), e[1], out)
                    return out
        return None

    def ex_Starred(self, e, st):
        return self.ev(e.value, st)

    def ex_JoinedStr(self, e, st):
        parts = []
        allc = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v, st = self.ev(x.value, st)
                v = self.freeze(v, st)
                if is_const(v) and x.format_spec is None and x.conversion == -1:
                    v = const(str(cval(v)))
                else:
                    allc = False
                parts.append(v)
        if allc:
            return const("".join(str(cval(p)) for p in parts)), st
        return mk("fstr", tuple(parts)), st

    def ex_UnaryOp(self, e, st):
        v, st = self.ev(e.operand, st)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~"}[type(e.op)]
        return self.unop(op, v, st, e), st

    def unop(self, op, v, st, node):
        if op == "not":
            k = self.known(v, st)
            if k is not None:
                return const(not k)
        v = self.freeze(v, st) if op != "not" else self.freeze_cond(v, st)
        if is_const(v) and isinstance(cval(v), (int, float, complex)) and op in ("-", "+"):
            return const(-cval(v) if op == "-" else +cval(v))
        if op == "+":
            return v
        if op == "not" and v.op == "un" and v.args[0] == "not":
            return v.args[1]
        return mk("un", op, v, site=self.site(node))

    def ex_BinOp(self, e, st):
        a, st = self.ev(e.left, st)
        b, st = self.ev(e.right, st)
        return self.binop(_BIN[type(e.op)], a, b, st, e), st

    def binop(self, op, a, b, st, node):
        a, b = self.simp(a, st), self.simp(b, st)
        if is_const(a) and is_const(b) and op in _PY:
            try:
                return const(_PY[op](cval(a), cval(b)))
            except Exception:
                pass
        # list operations
        if op == "+" and a.op == "ref" and b.op == "ref":
            ha, hb = st.heap[a.args[0]], st.heap[b.args[0]]
            if ha.kind == "list" and hb.kind == "list":
                h = HObj("list", len(self.loops))
                h.items = ha.items + (hb.items if not ha.summ else [])
                h.summ = list(ha.summ) + list(hb.summ)
                if ha.summ:
                    h.summ += [((), (), x) for x in hb.items]
                h.unknown = ha.unknown or hb.unknown
                return self.alloc(st, h)
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if x.op == "ref" and st.heap[x.args[0]].kind == "list":
                    hx = st.heap[x.args[0]]
                    if is_const(y) and isinstance(cval(y), int) and not hx.summ and len(hx.items) * cval(y) <= 1000:
                        return self.new_list(st, hx.items * cval(y))
                    if not hx.summ and len(hx.items) == 1:
                        h = HObj("list", len(self.loops))
                        h.summ = [((self.freeze(y, st),), (), hx.items[0])]
                        return self.alloc(st, h)
                if x.op == "tuple" and is_const(y) and isinstance(cval(y), int) and len(x.args[0]) * cval(y) <= 1000:
                    return mk("tuple", x.args[0] * cval(y))
        if op == "|" and a.op == "ref" and st.heap[a.args[0]].kind == "dict":
            h = st.heap[a.args[0]].copy()
            self.dict_spread(h, b, st)
            return self.alloc(st, h)
        return mk("bin", op, self.freeze(a, st), self.freeze(b, st), site=self.site(node))

    def ex_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        base = list(st.facts)
        for x in e.values:
            v, st = self.ev(x, st)
            v = self.freeze_cond(v, st)
            k = self.known(v, st)
            if op == "and":
                if k is False:
                    st.facts = base
                    if not vals:
                        return v if is_const(v) else FALSE, st
                    return FALSE, st
                if k is True:
                    if is_const(v) and x is e.values[-1] and not isinstance(cval(v), bool):
                        vals.append(v)
                    continue
                self.assume(st, v, True)
            else:
                if k is True:
                    st.facts = base
                    return (v if is_const(v) else TRUE), st
                if k is False:
                    if x is e.values[-1] and not vals:
                        st.facts = base
                        return v, st
                    if x is e.values[-1] and not (is_const(v) and isinstance(cval(v), bool)):
                        vals.append(v)
                    continue
                self.assume(st, v, False)
            vals.append(v)
        st.facts = base
        if not vals:
            return const(op == "and"), st
        if len(vals) == 1:
            return vals[0], st
        flat = []
        for v in vals:
            if v.op == op:
                flat += list(v.args[0])
            else:
                flat.append(v)
        return mk(op, tuple(flat), site=self.site(e)), st

    def ex_Compare(self, e, st):
        left, st = self.ev(e.left, st)
        parts = []
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
               ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        for op, r in zip(e.ops, e.comparators):
            right, st = self.ev(r, st)
            parts.append(self.compare(ops[type(op)], left, right, st, e))
            left = right
        if len(parts) == 1:
            return parts[0], st
        return mk("and", tuple(parts), site=self.site(e)), st

    def compare(self, op, a, b, st, node=None):
        a, b = self.simp(a, st), self.simp(b, st)
        if op in ("in", "not in") and is_const(a):
            r = None
            if b.op == "ref" and not st.heap[b.args[0]].unknown:
                h = st.heap[b.args[0]]
                if h.kind == "dict":
                    keys = set()
                    ok = True
                    for k, v, ctx in h.items:
                        if k is None:
                            ks = self.oracle(v) if self.oracle else None
                            if ks is None:
                                ok = False
                            else:
                                keys |= set(ks)
                        elif is_const(k):
                            keys.add(cval(k))
                        else:
                            ok = False
                    if cval(a) in keys:
                        r = True
                    elif ok:
                        r = False
                elif all(is_const(x) for x in h.items) and not h.summ:
                    r = cval(a) in [cval(x) for x in h.items]
            if r is not None:
                return const(r if op == "in" else not r)
        if op in ("is", "is not") and is_const(b) and cval(b) is None and (a.op == "call" and a.args[0].op == "ext" and a.args[0].args[0] in NEVER_NONE or a.op in ("ref", "tuple", "func", "class", "bin", "ext", "mod", "setitem", "list", "dict", "map")):
            return const(op == "is not")
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if is_const(fa) and is_const(fb):
            x, y = cval(fa), cval(fb)
            try:
                r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                     ">": lambda: x > y, ">=": lambda: x >= y, "is": lambda: x is y or (x == y and type(x) is type(y)),
                     "is not": lambda: not (x is y or (x == y and type(x) is type(y))),
                     "in": lambda: x in y, "not in": lambda: x not in y}[op]()
                return const(bool(r))
            except Exception:
                pass
        if op in ("in", "not in") and is_const(fa):
            vals = self._const_list(fb)
            if vals is not None:
                return const((cval(fa) in vals) == (op == "in"))
        if op in ("==", "!=", "is", "is not") and fa.op == "phi" and is_const(fb):
            # comparison of a selected constant
            alts = []

            def leaf(t):
                if t.op == "phi":
                    leaf(t.args[1])
                    leaf(t.args[2])
                else:
                    alts.append(t)
            leaf(fa)
            if all(is_const(x) for x in alts):
                def rb(t):
                    if t.op == "phi":
                        return self.phi(t.args[0], rb(t.args[1]), rb(t.args[2]))
                    return self.compare(op, t, fb, st)
                return rb(fa)
        c = mk("cmp", op, fa, fb, site=self.site(node) if node is not None else None)
        k = self.known(c, st)
        if k is not None:
            return const(k)
        n, pol = norm_cond(c)
        n.site = c.site
        return n if pol else mk("un", "not", n, site=c.site)

    def ex_IfExp(self, e, st):
        c, st = self.ev(e.test, st)
        c = self.freeze_cond(c, st)
        k = self.known(c, st)
        if k is True:
            return self.ev(e.body, st)
        if k is False:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        a, s1 = self.ev(e.body, s1)
        b, s2 = self.ev(e.orelse, s2)
        return self.phi(c, a, b), self.merge(c, s1, s2)

    def ex_Lambda(self, e, st):
        return self.make_func(e, st, name="<lambda>")

    def ex_Yield(self, e, st):
        v, st = self.ev(e.value, st) if e.value is not None else (NONE, st)
        fr = self.frames[-1]
        if fr.yields is not None:
            st = self.list_append(fr.yields, v, st)
        return mk("opaque", "yield", self.new_id()), st

    def ex_YieldFrom(self, e, st):
        v, st = self.ev(e.value, st)
        fr = self.frames[-1]
        if fr.yields is not None:
            st = self.list_extend(fr.yields, v, st, e)
        return NONE, st

    def ex_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def comp(self, e, st, kind):
        h = HObj(kind, len(self.loops))
        ref = self.alloc(st, h)
        fr = self.frames[-1]
        eid = ("comp", self.new_id())
        st.envs[eid] = {}
        inner = Frame(FuncVal(fr.fv.node, fr.fv.module, [eid] + [fr.env] + [x for x in fr.fv.envs if x != fr.env], fr.qual), eid, fr.qual)
        inner.globals = fr.globals
        inner.yields = fr.yields

        def rec(gens, st):
            if not gens:
                if kind == "dict":
                    k, st = self.ev(e.key, st)
                    v, st = self.ev(e.value, st)
                    st = self.set_ref(ref, k, v, st)
                else:
                    v, st = self.ev(e.elt, st)
                    st = self.list_append(ref, v, st)
                return st, []
            g = gens[0]
            it, st = self.ev(g.iter, st)

            def body(el, x):
                x = self.assign(g.target, el, x)

                def ifs(conds, y):
                    if not conds:
                        return rec(gens[1:], y)
                    c, y = self.ev(conds[0], y)
                    return self.branch(c, y, lambda z: ifs(conds[1:], z), lambda z: (z, []))
                return ifs(list(g.ifs), x)
            return self.loop_over(it, st, ast.Pass(), body)

        self.frames.append(inner)
        try:
            st, _ = rec(list(e.generators), st)
        finally:
            self.frames.pop()
        st.envs.pop(eid, None)
        return ref, st

    def ex_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ex_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def ex_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ex_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def list_append(self, ref, v, st):
        h = st.heap[ref.args[0]].copy()
        st.heap[ref.args[0]] = h
        ctx = tuple(self.loops[h.depth:])
        if ctx or h.summ:
            conds = []
            if ctx:
                # conditions established since the entry of the outermost loop of the context
                pos = max((i for i, (f, p) in enumerate(st.facts) if f.op == "inloop" and f.args[0].cid == ctx[0].cid), default=-1)
                conds = [(f, p) for f, p in st.facts[pos + 1:] if f.op != "inloop"]
            h.summ.append((ctx, tuple(conds), v))
        else:
            h.items.append(v)
        return st

    def list_extend(self, ref, v, st, node):
        items = self.iter_known(v, st)
        if items is not None:
            for x in items:
                st = self.list_append(ref, x, st)
            return st
        for g in self.iter_groups(self.simp(v, st), st):
            h = st.heap[ref.args[0]].copy()
            st.heap[ref.args[0]] = h
            if g[0] == "one":
                h.summ.append((tuple(self.loops[h.depth:]), (), g[1]))
            else:
                h.summ.append((tuple(self.loops[h.depth:]) + tuple(g[1]), (), g[2]))
        return st

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return mk("super", self.frames[-1].qual), st
        fn, st = self.ev(e.func, st)
        args = []
        kwargs = {}
        extra = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v, st = self.ev(a.value, st)
                sub = self.iter_known(v, st)
                if sub is None:
                    f = self.freeze(v, st)
                    args.append(mk("star", f))
                else:
                    args += sub
            else:
                v, st = self.ev(a, st)
                args.append(v)
        for k in e.keywords:
            v, st = self.ev(k.value, st)
            if k.arg is None:
                v = self.simp(v, st)
                if v.op == "ref" and st.heap[v.args[0]].kind == "dict" and all(x[0] is not None and is_const(x[0]) for x in st.heap[v.args[0]].items):
                    for x in st.heap[v.args[0]].items:
                        kwargs[cval(x[0])] = x[1]
                elif v.op == "dict" and all(is_const(x) for x, _ in v.args[0]):
                    for x, y in v.args[0]:
                        kwargs[cval(x)] = y
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.apply(fn, args, kwargs, st, e)

    def apply(self, fn, args, kwargs, st, node):
        fn = self.simp(fn, st)
        if fn.op == "phi":
            c = fn.args[0]
            s1, s2 = st.copy(), st.copy()
            self.assume(s1, c, True)
            self.assume(s2, c, False)
            a, s1 = self.apply(fn.args[1], args, kwargs, s1, node)
            b, s2 = self.apply(fn.args[2], args, kwargs, s2, node)
            if s1 is None:
                return b, s2
            if s2 is None:
                return a, s1
            return self.phi(c, a, b), self.merge(c, s1, s2)
        if fn.op == "func":
            if fn.extra.qual in self.opaque:
                return self.opaque_call(fn, args, kwargs, st, node)
            return self.inline(fn, args, kwargs, st, node)
        if fn.op == "class":
            return self.instantiate(fn, args, kwargs, st, node)
        if fn.op == "bmeth":
            return self.ref_method(fn.args[0], fn.args[1], args, kwargs, st, node)
        if fn.op == "ext":
            m = _BUILTINS.get(fn.args[0])
            if m is not None:
                r = m(self, args, kwargs, st, node)
                if r is not None:
                    return r
            m = self.call_models.get(fn.args[0])
            if m is not None:
                r = m(self, args, kwargs, st, node)
                if r is not None:
                    return r
        if fn.op == "dcallable":
            return mk("dcall", fn.args[0], tuple(args), extra=(fn.args[0], args)), st
        if fn.op == "parallel":
            return self.run_parallel(args, st, node)
        return self.opaque_call(fn, args, kwargs, st, node)

    def opaque_call(self, fn, args, kwargs, st, node):
        if fn.op == "attr" and fn.args[1] in self.method_models:
            r = self.method_models[fn.args[1]](self, fn.args[0], args, kwargs, st, node)
            if r is not None:
                return r
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted(((k, self.freeze(v, st)) for k, v in kwargs.items()), key=lambda x: x[0]))
        ffn = self.freeze(fn, st)
        if ffn.op == "ext" and ffn.args[0].startswith(("numpy.random.", "random.", "secrets.")):
            # two draws are different
            fk += (("#draw", const(str(self.site(node)))),)
        t = mk("call", ffn, fa, fk, site=self.site(node))
        self.emit("call", (t, tuple(args), dict(kwargs)), st, node)
        return t, st

    def dynamic_globals(self):
        """Module-level names which are rebound at run time (global statement)."""
        out = []
        for name, mod in self.repo.modules.items():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Global):
                    out += [(name, x) for x in n.names]
        return sorted(set(out))

    def make_stale(self, prefix, st):
        """Process state left by something else: the values of the rebound names are unknown."""
        old = {}
        for mod, name in self.dynamic_globals():
            env = st.envs.setdefault(mod, {})
            old[(mod, name)] = env.get(name)
            env[name] = mk("sym", f"{prefix}:{mod}.{name}")
        return old

    def worker_apply(self, el, st, node):
        """Call executed by a worker: the process state of the worker is not the one of the caller."""
        if not self.track_state:
            return self.apply(el.extra[0], list(el.extra[1]), {}, st, node)
        old = self.make_stale("stale-worker", st)
        self.emit("worker", ("enter", dict(st.heap), el.extra), st, node)
        v, st = self.apply(el.extra[0], list(el.extra[1]), {}, st, node)
        self.emit("worker", ("leave", dict(st.heap), el.extra), st, node)
        for (mod, name), x in old.items():
            if x is None:
                st.envs[mod].pop(name, None)
            else:
                st.envs[mod][name] = x
        return v, st

    def run_parallel(self, args, st, node):
        """Execution of the delayed calls given to the parallel executor (in order)."""
        it = self.simp(args[0], st)
        items = self.iter_known(it, st)
        out = HObj("list", len(self.loops))
        ref = self.alloc(st, out)
        if items is None:
            groups = self.iter_groups(it, st)
            for g in groups:
                el = g[1] if g[0] == "one" else g[2]
                if el.op != "dcall":
                    return mk("opaque", "parallel", self.new_id()), st
                v, st = self.worker_apply(el, st, node)
                h = st.heap[ref.args[0]].copy()
                st.heap[ref.args[0]] = h
                if g[0] == "one" and not h.summ:
                    h.items.append(v)
                else:
                    h.summ.append((tuple(g[1]) if g[0] == "gen" else (), (), v))
            return ref, st
        for el in items:
            if el.op != "dcall":
                return mk("opaque", "parallel", self.new_id()), st
            v, st = self.worker_apply(el, st, node)
            st = self.list_append(ref, v, st)
        return ref, st

    def bind_args(self, fv, args, kwargs, st):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if fv.bound is not None:
            args = [fv.bound] + args
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                # unknown number of positional values
                for j, n in enumerate(names[i:]):
                    vals[n] = mk("item", v.args[0], const(j))
                rest = None
                break
            if i < len(names):
                vals[names[i]] = v
            else:
                rest.append(v)
        kw = dict(kwargs)
        unknown = kw.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                vals[n] = kw.pop(n)
        nd = len(fv.defaults)
        for n, d in zip(names[len(names) - nd:], fv.defaults):
            if n not in vals:
                if unknown is not None:
                    vals[n] = self.phi(mk("cmp", "in", const(n), self.freeze(unknown, st)), mk("item", self.freeze(unknown, st), const(n)), d)
                else:
                    vals[n] = d
        for n, d in fv.kw_defaults.items():
            if n not in vals:
                vals[n] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if unknown is not None:
                    vals[n] = mk("item", self.freeze(unknown, st), const(n))
                else:
                    vals[n] = mk("opaque", "missing-arg", fv.qual, n)
        if a.vararg:
            if rest is None:
                vals[a.vararg.arg] = mk("opaque", "varargs", self.new_id())
            else:
                vals[a.vararg.arg] = mk("tuple", tuple(rest))
        if a.kwarg:
            ref = self.new_dict(st, list(kw.items()))
            if unknown is not None:
                self.dict_spread(st.heap[ref.args[0]], unknown, st)
            vals[a.kwarg.arg] = ref
        return vals

    def inline(self, fn, args, kwargs, st, node):
        fv = fn.extra
        depth = sum(1 for f in self.frames if f.fv.node is fv.node)
        if len(self.frames) > MAX_DEPTH or depth > 12:
            return self.opaque_call(fn, args, kwargs, st, node)
        self.n_calls += 1
        self.seen_funcs.add(fv.qual)
        vals = self.bind_args(fv, args, kwargs, st)
        self.emit("enter", (fv.qual, vals, fn), st, node)
        eid = ("f", self.new_id())
        st.envs[eid] = vals
        fr = Frame(fv, eid, fv.qual)
        fr.fv = FuncVal(fv.node, fv.module, [eid] + list(fv.envs), fv.qual, fv.cls)
        n_facts = len(st.facts)
        if fv.is_gen:
            fr.yields = self.alloc(st, HObj("list", len(self.loops)))
        self.frames.append(fr)
        try:
            if isinstance(fv.node, ast.Lambda):
                v, st = self.ev(fv.node.body, st)
                exits = [Exit("return", v, st)]
                end = None
            else:
                end, exits = self.exec_block(fv.node.body, st)
        finally:
            self.frames.pop()
        rets = [e for e in exits if e.kind == "return"]
        if end is not None:
            rets.append(Exit("return", NONE, end))
        raises = [e for e in exits if e.kind == "raise"]
        if not rets:
            # no normal return: the caller does not continue; keep the state for the analysis
            dead = raises[0].st if raises else st
            dead.facts = dead.facts[:n_facts]
            val = mk("noreturn", fv.qual)
            self.emit("noreturn", (fv.qual,), dead, node)
            dead.envs.pop(eid, None)
            return val, dead
        val, out = self.join_returns(rets, n_facts)
        if fv.is_gen:
            val = fr.yields
        if not self._escapes(fv.node):
            out.envs.pop(eid, None)
        self.emit("leave", (fv.qual, val), out, node)
        return val, out

    @staticmethod
    def _escapes(node):
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                return True
        return False

    def join_returns(self, rets, n_facts):
        if len(rets) == 1:
            e = rets[0]
            return e.value, e.st
        conds = []
        seen = set()
        for e in rets:
            mine = []
            for f, p in e.st.facts[n_facts:]:
                if f.op == "inloop":
                    mine.append((f, p))
                    continue
                if (f.cid, p) in seen:
                    continue
                mine.append((f, p))
            conds.append(mine)
            # the later exits are reached only if this one was not taken
            if len(mine) == 1:
                seen.add((mine[0][0].cid, not mine[0][1]))
        val, st = rets[-1].value, rets[-1].st
        for e, mine in zip(reversed(rets[:-1]), reversed(conds[:-1])):
            if not mine:
                c = mk("opaque", "exit", self.new_id())
            else:
                c = self.conj(mine)
            val = self.phi_ret(c, e.value, val)
            st = self.merge(c, e.st, st)
        return val, st

    def phi_ret(self, c, a, b):
        if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
            return mk("tuple", tuple(self.phi_ret(c, x, y) for x, y in zip(a.args[0], b.args[0])))
        return self.phi(c, a, b)

    def instantiate(self, fn, args, kwargs, st, node):
        cv = fn.extra
        h = HObj("obj", len(self.loops))
        h.cls = cv
        ref = self.alloc(st, h)
        init = self.find_member(cv, "__init__")
        if init is not None:
            self.n_calls += 1
            _, st = self.inline(self.bind_method(init, ref), args, kwargs, st, node)
        else:
            h.attrs["args"] = mk("tuple", tuple(args))
        self.emit("new", (cv.qual, ref, tuple(self.freeze(a, st) for a in args)), st, node)
        return ref, st

    def ref_method(self, base, name, args, kwargs, st, node):
        h = st.heap[base.args[0]]
        if h.kind in ("list", "set"):
            if name in ("append", "add") and len(args) == 1:
                return NONE, self.list_append(base, args[0], st)
            if name in ("extend", "update") and len(args) == 1:
                return NONE, self.list_extend(base, args[0], st, node)
            if name == "copy":
                return self.alloc(st, h.copy()), st
            if name == "pop" and not args and h.items and not h.summ:
                h = h.copy()
                v = h.items.pop()
                st.heap[base.args[0]] = h
                return v, st
            if name == "insert" and len(args) == 2 and is_const(args[0]) and not h.summ:
                h = h.copy()
                h.items.insert(cval(args[0]), args[1])
                st.heap[base.args[0]] = h
                return NONE, st
            if name == "index" and len(args) == 1 and not h.summ and is_const(args[0]):
                vals = [cval(x) if is_const(x) else None for x in h.items]
                if cval(args[0]) in vals:
                    return const(vals.index(cval(args[0]))), st
            if name in ("sort", "reverse", "clear", "remove", "pop", "insert", "discard"):
                h = h.copy()
                h.unknown = True
                st.heap[base.args[0]] = h
                return mk("opaque", name, self.new_id()), st
        if h.kind == "dict":
            if name in ("items", "keys", "values") and not args:
                return mk("call", mk("bmeth", base, name), (), ()), st
            if name == "get" and args:
                r = self.dict_get(h, args[0], st)
                if r is not None:
                    return self.simp(r, st), st
                if is_const(args[0]) and not h.unknown and all(e[0] is not None and is_const(e[0]) for e in h.items):
                    return (args[1] if len(args) > 1 else NONE), st
            if name == "copy":
                return self.alloc(st, h.copy()), st
            if name == "update" and (args or kwargs):
                h = h.copy()
                if args:
                    self.dict_spread(h, args[0], st)
                for k, v in kwargs.items():
                    self.dict_put(h, const(k), v)
                st.heap[base.args[0]] = h
                return NONE, st
            if name == "setdefault" and args:
                r = self.dict_get(h, args[0], st)
                if r is not None:
                    return r, st
                v = args[1] if len(args) > 1 else NONE
                return v, self.set_ref(base, args[0], v, st)
            if name == "pop" and args:
                r = self.dict_get(h, args[0], st)
                h = h.copy()
                h.items = [e for e in h.items if e[0] is None or e[0].cid != args[0].cid]
                st.heap[base.args[0]] = h
                return (r if r is not None else mk("opaque", "pop", self.new_id())), st
        return self.opaque_call(mk("attr", self.freeze(base, st), name), args, kwargs, st, node)


class Result:
    def __init__(self, eng, value, state):
        self.eng = eng
        self.value = value
        self.state = state

    def frozen(self):
        return self.eng.freeze(self.value, self.state)

    def get(self, *keys):
        v = self.value
        for k in keys:
            v = self.eng.getitem(v, const(k) if not isinstance(k, T) else k, self.state, None)
        return v

    def fget(self, *keys):
        return self.eng.freeze(self.get(*keys), self.state)


# ---------------------------------------------------------------------- helpers
def _as_load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t


def _arrayish(t):
    """Result of an arithmetic operation that a list does not have."""
    if t.op == "bin":
        return t.args[0] in ("-", "/", "//", "**", "@") or _arrayish(t.args[1]) or _arrayish(t.args[2])
    return t.op == "un" and t.args[0] == "-"


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _always_raises(body):
    for s in reversed(body):
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse:
            return _always_raises(s.body) and _always_raises(s.orelse)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Pass)):
            # the last effective statement decides
            if s is body[-1] and not isinstance(s, ast.Pass):
                return False
            continue
        return False
    return False


def _assigned_names(node):
    out = []

    def add(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                add(e)
        elif isinstance(t, ast.Starred):
            add(t.value)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            # in-place update of the object held by a variable
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            add(b)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if n is not node and not isinstance(n, ast.Lambda) and n.name not in out:
                out.append(n.name)
            if n is not node:
                return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                add(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            add(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            if n is not node:
                add(n.target)
        elif isinstance(n, ast.NamedExpr):
            add(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            add(n.optional_vars)
        for c in ast.iter_child_nodes(n):
            rec(c)
    rec(node)
    return out


def _is_maskish(k):
    return False


# ---------------------------------------------------------------------- builtins
def _b_len(eng, args, kwargs, st, node):
    if len(args) != 1:
        return None
    t = eng.simp(args[0], st)
    items = eng.iter_known(t, st)
    if items is not None:
        return const(len(items)), st
    return None


def _b_list(eng, args, kwargs, st, node):
    if not args:
        return eng.new_list(st, []), st
    items = eng.iter_known(args[0], st)
    if items is not None:
        return eng.new_list(st, items), st
    t = eng.simp(args[0], st)
    if t.op == "ref":
        h = st.heap[t.args[0]]
        if h.kind == "dict":
            out = HObj("list", len(eng.loops))
            for k, v, ctx in h.items:
                if k is None:
                    out.summ.append(((v,), (), eng.elem(v)))
                elif ctx:
                    out.summ.append((ctx, (), k))
                else:
                    out.items.append(k)
            return eng.alloc(st, out), st
        return eng.alloc(st, h.copy()), st
    if t.op in ("call", "sym", "item", "attr"):
        out = HObj("list", len(eng.loops))
        for g in eng.iter_groups(t, st):
            if g[0] == "one":
                out.items.append(g[1])
            else:
                out.summ.append((tuple(g[1]), (), g[2]))
        return eng.alloc(st, out), st
    return None


def _b_tuple(eng, args, kwargs, st, node):
    if not args:
        return mk("tuple", ()), st
    items = eng.iter_known(args[0], st)
    if items is not None:
        return mk("tuple", tuple(items)), st
    return None


def _b_dict(eng, args, kwargs, st, node):
    h = HObj("dict", len(eng.loops))
    if args:
        t = eng.simp(args[0], st)
        items = None
        if not (t.op == "ref" and st.heap[t.args[0]].kind == "dict") and t.op != "dict":
            items = eng.iter_known(t, st)
        if items is not None and all(x.op == "tuple" and len(x.args[0]) == 2 for x in items):
            for x in items:
                eng.dict_put(h, eng.freeze(x.args[0][0], st), x.args[0][1])
        else:
            eng.dict_spread(h, t, st)
    for k, v in kwargs.items():
        if k == "**":
            eng.dict_spread(h, v, st)
        else:
            eng.dict_put(h, const(k), v)
    return eng.alloc(st, h), st


def _b_zip(eng, args, kwargs, st, node):
    return mk("call", ext("builtins.zip"), tuple(args), ()), st


def _b_enum(eng, args, kwargs, st, node):
    return mk("call", ext("builtins.enumerate"), tuple(args), ()), st


def _b_getattr(eng, args, kwargs, st, node):
    if len(args) >= 2 and is_const(args[1]):
        return eng.getattr(args[0], cval(args[1]), st, node), st
    return None


def _fold_minmax(name):
    def f(eng, args, kwargs, st, node):
        if len(args) > 1 and all(is_const(x) for x in args) and not kwargs:
            return const((max if name == "max" else min)(*[cval(x) for x in args])), st
        return None
    return f


def _b_anyall(name):
    def f(eng, args, kwargs, st, node):
        if len(args) != 1 or kwargs:
            return None
        items = eng.iter_known(args[0], st)
        if items is None:
            return None
        ks = [eng.known(x, st) for x in items]
        rest = [eng.freeze_cond(x, st) for x, k in zip(items, ks) if k is None]
        if name == "all":
            if any(k is False for k in ks):
                return FALSE, st
            if not rest:
                return TRUE, st
            return (rest[0] if len(rest) == 1 else mk("and", tuple(rest))), st
        if any(k is True for k in ks):
            return TRUE, st
        if not rest:
            return FALSE, st
        return (rest[0] if len(rest) == 1 else mk("or", tuple(rest))), st
    return f


def _b_sum(eng, args, kwargs, st, node):
    if len(args) != 1 or kwargs:
        return None
    items = eng.iter_known(args[0], st)
    if items is None:
        return None
    out = const(0)
    for x in items:
        out = x if out == const(0) else eng.binop("+", out, x, st, node)
    return out, st


def _b_map(eng, args, kwargs, st, node):
    if len(args) != 2:
        return None
    h = HObj("list", len(eng.loops))
    ref = eng.alloc(st, h)

    def body(el, x):
        v, x = eng.apply(args[0], [el], {}, x, node)
        return eng.list_append(ref, v, x), []
    st, _ = eng.loop_over(args[1], st, ast.Pass(), body)
    return ref, st


def _b_conv(name, fn):
    def f(eng, args, kwargs, st, node):
        if len(args) == 1 and is_const(args[0]) and not kwargs:
            try:
                return const(fn(cval(args[0]))), st
            except Exception:
                return None
        return None
    return f


def _b_bool(eng, args, kwargs, st, node):
    if len(args) == 1:
        k = eng.known(args[0], st)
        if k is not None:
            return const(k), st
    return None


def _b_sorted(eng, args, kwargs, st, node):
    """Order of a known list of constants (constant keys)."""
    if len(args) != 1 or set(kwargs) - {"key", "reverse"}:
        return None
    items = eng.iter_known(args[0], st)
    rev = kwargs.get("reverse", FALSE)
    if items is None or not is_const(rev):
        return None
    keys = []
    for x in items:
        k = x
        if "key" in kwargs and kwargs["key"] != NONE:
            k, st = eng.apply(kwargs["key"], [x], {}, st, node)
            k = eng.simp(k, st)
        if not is_const(k):
            return None
        keys.append(cval(k))
    try:
        idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(cval(rev)))
    except TypeError:
        return None
    return eng.new_list(st, [items[i] for i in idx]), st


def _m_delayed(eng, args, kwargs, st, node):
    return mk("dcallable", args[0]), st


def _m_parallel(eng, args, kwargs, st, node):
    t = mk("parallel", eng.new_id())
    eng.emit("call", (mk("call", ext("joblib.Parallel"), tuple(eng.freeze(a, st) for a in args),
                         tuple(sorted((k, eng.freeze(v, st)) for k, v in kwargs.items()))), (), {}), st, node)
    return t, st


def _copy_value(eng, t, st, deep, memo):
    t = eng.simp(t, st) if t.op not in ("const", "tuple", "ref") else t
    if t.op in ("const", "func", "class", "ext", "mod"):
        return t
    if t.op == "tuple":
        return mk("tuple", tuple(_copy_value(eng, x, st, deep, memo) if deep else x for x in t.args[0]))
    if t.op == "ref":
        i = t.args[0]
        if i in memo:
            return memo[i]
        h = st.heap[i].copy()
        new = eng.alloc(st, h)
        memo[i] = new
        if deep:
            rec = lambda x: _copy_value(eng, x, st, True, memo) if isinstance(x, T) else x
            if h.kind == "dict":
                h.items = [[k, rec(v), ctx] for k, v, ctx in h.items]
            else:
                h.items = [rec(x) for x in h.items]
            h.summ = [(c, q, rec(v)) for c, q, v in h.summ]
            h.attrs = {k: rec(v) for k, v in h.attrs.items()}
        return new
    if eng.strip_copy:
        return t
    return mk("call", ext("copy.deepcopy" if deep else "copy.copy"), (t,), ())


def _m_deepcopy(deep):
    def f(eng, args, kwargs, st, node):
        if len(args) != 1 or kwargs:
            return None
        eng.emit("call", (mk("call", ext("copy.deepcopy" if deep else "copy.copy"), (args[0],), ()), (args[0],), {}), st, node)
        return _copy_value(eng, args[0], st, deep, {}), st
    return f


_BUILTINS = {
    "builtins.len": _b_len,
    "builtins.list": _b_list,
    "builtins.tuple": _b_tuple,
    "builtins.dict": _b_dict,
    "builtins.zip": _b_zip,
    "builtins.enumerate": _b_enum,
    "builtins.getattr": _b_getattr,
    "builtins.max": _fold_minmax("max"),
    "builtins.min": _fold_minmax("min"),
    "builtins.any": _b_anyall("any"),
    "builtins.all": _b_anyall("all"),
    "builtins.sum": _b_sum,
    "builtins.sorted": _b_sorted,
    "builtins.map": _b_map,
    "builtins.int": _b_conv("int", int),
    "builtins.float": _b_conv("float", float),
    "builtins.str": _b_conv("str", str),
    "builtins.abs": _b_conv("abs", abs),
    "builtins.bool": _b_bool,
    "copy.deepcopy": _m_deepcopy(True),
    "copy.copy": _m_deepcopy(False),
    "joblib.delayed": _m_delayed,
    "joblib.Parallel": _m_parallel,
}
