"""Convergence and status of the solver, segregated coupling, relation of DC and AC."""

from sa import nf
from sa.nf import part
from sa.laws import HALF, equal, add, sub, mul, neg, cat, poly, atom, vlen, take, ZERO, ONE, Poly, Stack, _ATOMS, fmt, where, vsum
from sa.model import Model, View, vsym, ssym, dget
from sa.repo import AnalysisBroken
from sa.term import T, NONE, TRUE, FALSE, is_const, cval, walk, sym, children
from checks.solver import BASE, VARIANTS, EXTRA, FREQ, views, per_model, rows_of, model, repo

FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NOT = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
ITER = (".gmres", ".gcrotmk")


# ---------------------------------------------------------------- conditions

def _n(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "ext" else None


def lits(t, neg_=False):
    """Conjuncts of a condition (None: not a conjunction)."""
    if is_const(t):
        return [] if bool(cval(t)) != neg_ else [FALSE]
    n = _n(t)
    if n in ("builtins.bool", "numpy.bool_") and len(t.args[1]) == 1:
        return lits(t.args[1][0], neg_)
    if n in ("builtins.all", "numpy.all") and len(t.args[1]) == 1 and t.args[1][0].op in ("list", "tuple") and not neg_:
        return [x for a in t.args[1][0].args[0] for x in lits(a)]
    if n == "numpy.logical_not" or (t.op == "un" and t.args[0] == "not"):
        return lits(t.args[1][0] if n else t.args[1], not neg_)
    conj, disj = None, None
    if t.op == "and" or t.op == "or":
        conj, disj = (t.args[0], None) if t.op == "and" else (None, t.args[0])
    elif n in ("numpy.logical_and", "numpy.logical_or"):
        conj, disj = (t.args[1], None) if n.endswith("and") else (None, t.args[1])
    elif t.op == "bin" and t.args[0] in ("&", "|"):
        conj, disj = (t.args[1:], None) if t.args[0] == "&" else (None, t.args[1:])
    if neg_:
        conj, disj = disj, conj
    if conj is not None:
        return [x for a in conj for x in lits(a, neg_)]
    if t.op == "phi" and t.args[0].op != "trybody":
        c, a, b = t.args
        if is_const(b) and bool(cval(b)) == neg_:
            return lits(c) + lits(a, neg_)
        if is_const(a) and bool(cval(a)) == neg_:
            return lits(c, True) + lits(b, neg_)
    if t.op == "loop" and not neg_:
        return lits(t.args[2])
    if t.op == "cmp":
        return [T("cmp", (NOT[t.args[0]] if neg_ and t.args[0] in NOT else t.args[0], t.args[1], t.args[2]), t.site)] \
            if not neg_ or t.args[0] in NOT else [T("un", ("not", t))]
    return [T("un", ("not", t))] if neg_ else [t]


def alternatives(t):
    """Alternatives of a disjunction, as lists of conjuncts (None: another term)."""
    if t.op == "un" and t.args[0] == "not":
        t = t.args[1]
        n = _n(t)
        if t.op == "and" or n == "numpy.logical_and" or (t.op == "bin" and t.args[0] == "&"):
            return [lits(x, True) for x in (t.args[0] if t.op == "and" else t.args[1] if n else t.args[1:])]
        return None
    n = _n(t)
    if n in ("builtins.bool", "numpy.bool_") and len(t.args[1]) == 1:
        return alternatives(t.args[1][0])
    if t.op == "or":
        return [lits(x) for x in t.args[0]]
    if n == "numpy.logical_or":
        return [lits(x) for x in t.args[1]]
    if n in ("builtins.any", "numpy.any") and len(t.args[1]) == 1 and t.args[1][0].op in ("list", "tuple"):
        return [lits(x) for x in t.args[1][0].args[0]]
    if t.op == "bin" and t.args[0] == "|":
        return [lits(x) for x in t.args[1:]]
    if t.op == "phi" and t.args[0].op != "trybody":
        c, a, b = t.args
        return [lits(c) + lits(a), lits(c, True) + lits(b)]
    return None


def open_terms(ls, pred):
    """Conjuncts which may imply the searched literal (which is not a conjunct itself)."""
    res = []
    for x in ls:
        if x.op in ("cmp", "const", "loop") or pred(x):
            continue
        alt = alternatives(x)
        if alt is None or not any(not any(pred(y) for y in a) and not open_terms(a, pred) for a in alt):
            res.append(x)
    return res


def has_call(t, names):
    return any(_n(x) is not None and _n(x).endswith(names) for x in walk(t))


def has_sym(t, name):
    return any(x.op == "sym" and x.args[0] == name for x in walk(t))


def site(t, d="(solver status)"):
    for x in walk(t):
        if x.site is not None:
            return f"{x.site[0]}:{x.site[1]} in {x.site[2]}()"
    return d


# ---------------------------------------------------------------- convergence

CONF = [dict(BASE, check=True), dict(BASE, check=False), dict(BASE, check=True, ignore_res=True), dict(BASE, check=True, ignore_status=True),
        dict(coupling="segregated", check=True), dict(BASE, check=True, solver="gcrot")]
MORE = [dict(coupling="segregated", check=False, solver="gcrot"), dict(BASE, check=True, orient="anisotropic", var="distributed", src_var="distributed"),
        dict(coupling="segregated", orient="anisotropic", src_var="distributed")]


def convergence(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _convergence, CONF, MORE)
    _sweeps(chk)


def _convergence(chk, kw):
    for lab, v in views(chk, kw):
        out = lambda *k: v.m.output(*k)
        has, sok, cok = out("has_converged"), out("solver_ok"), out("condition_ok")
        ls, lc, lh = lits(sok), lits(cok), lits(has)
        for k, a, b in (("solver", sok, out("solver_status", "status")), ("condition", cok, out("condition_status", "status"))):
            chk.ob(same(a, b), f"the {k} flag is the one of the {k} status ({lab})", site(b), "two different conditions")
        ids = {x.cid for x in lh}
        for nm, x in (("solver", ls), ("condition", lc)):
            miss = [y for y in x if y.cid not in ids]
            chk.ob(not miss, f"convergence implies the {nm} flag ({lab})", site(has), f"not implied: {[str(y)[:150] for y in miss]}")
        ref = direct(v, kw)
        sysx, rhs = ref
        v.ev.known = set(v.ev.known) | ids_of(sysx, rhs)
        # residual
        res = v.ev.ev(out("res"))
        equal(chk, f"residual is system times solution minus excitation ({lab})", signed(res, sub(sysx, rhs)), sub(sysx, rhs), v.ev, out("res"))
        want_norm = poly(atom(("norm", sub(sysx, rhs)), vec=False))
        thr = mk_max(mul(ssym("tol.rel_tol"), poly(atom(("norm", rhs), vec=False))), ssym("tol.abs_tol"))
        for k, w in (("res_val", want_norm), ("res_thr", thr)):
            t = out("solver_status", k)
            equal(chk, f"{'residual norm' if k == 'res_val' else 'residual threshold'} in the status ({lab})", norm_sign(v.ev.ev(t), sub(sysx, rhs)), w, v.ev, t)
        _residual(chk, lab, v, [x for x in ls], kw, sysx, rhs, thr, want_norm)
        # iterative solver
        _flag(chk, lab, v, ls, kw)
        # condition number
        _condition(chk, lab, v, lc, kw, out)
    _segregated(chk, kw) if kw["coupling"] == "segregated" else _options(chk, kw)


def ids_of(*ps):
    """Atoms of the reference values."""
    return {i for p in ps if isinstance(p, Poly) for i in nf.atoms_in(p)}


def same(a, b):
    return sorted(x.cid for x in lits(a)) == sorted(x.cid for x in lits(b))


def mk_max(x, y):
    return poly(atom(("max", tuple(sorted((x, y), key=str))), vec=False))


def signed(got, want):
    """A residual may be given with the opposite sign."""
    return neg(got) if isinstance(got, Poly) and got != want and neg(got) == want else got


def norm_sign(p, want, split=()):
    """Norm of a residual: the sign and the blocking of the residual are irrelevant."""
    if not isinstance(p, Poly):
        return p
    m = p.mono()
    a = _ATOMS[m[0][0][0]] if m and len(m[0]) == 1 else None
    if a is not None and a.key[0] == "norm" and a.key[1] == neg(want):
        return poly(atom(("norm", want), vec=False))
    if a is not None and a.key[0] == "norm" and split:
        for q in (want, neg(want)):
            if all(part(a.key[1], o, n) == part(q, o, n) for o, n in split):
                return poly(atom(("norm", want), vec=False))
    return p


def _residual(chk, lab, v, ls, kw, sysx, rhs, thr, want):
    name = f"convergence implies that the residual is below the threshold ({lab})"
    found = [x for x in ls if x.op == "cmp" and (has_sym(x, "tol.rel_tol") or has_sym(x, "tol.abs_tol"))]
    if kw.get("ignore_res"):
        return
    if not found:
        other = open_terms([x for x in ls if not (x.op == "phi" and x.args[0].op == "trybody")],
                           lambda x: x.op == "cmp" and (has_sym(x, "tol.rel_tol") or has_sym(x, "tol.abs_tol")))
        chk.ob(None if other else False, name, site(ls[0]) if ls else None, "no condition on the residual: " + "; ".join(str(x)[:150] for x in ls))
        return
    for x in found:
        op, a, b = x.args
        if has_sym(a, "tol.rel_tol") or has_sym(a, "tol.abs_tol"):
            op, a, b = FLIP.get(op, op), b, a
        chk.ob(op in ("<", "<="), name, site(x), f"residual {op} threshold")
        equal(chk, f"residual compared with the threshold ({lab})", norm_sign(v.ev.ev(a), sub(sysx, rhs)), want, v.ev, a)
        equal(chk, f"threshold of the residual ({lab})", v.ev.ev(b), thr, v.ev, b)


def _flags(ls):
    """Comparisons with the exit flag of an iterative solver."""
    out = []
    for x in ls:
        if x.op == "cmp":
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if a.op == "item" and (_n(a.args[0]) or "").endswith(ITER) and is_const(a.args[1]) and cval(a.args[1]) == 1:
                    out.append((x, a.args[0], b))
    return out


def _flag(chk, lab, v, ls, kw):
    if kw.get("ignore_status"):
        return
    name = f"convergence implies a successful exit of the iterative solver ({lab})"
    body, handlers = list(ls), []
    for x in ls:
        if x.op == "phi" and x.args[0].op == "trybody":
            body += lits(x.args[1])
            handlers.append(x.args[2])
    fl = _flags(body)
    n = 2 if kw["coupling"] == "segregated" else 1
    calls = {f[1].cid for f in fl}
    bad = [f for f in fl if not (f[0].args[0] == "==" and is_const(f[2]) and cval(f[2]) == 0)]
    for f in bad:
        chk.bad(name, site(f[0]), f"exit flag: {str(f[0])[:200]}")
    if not bad:
        rest = [x for x in body if not (x.op == "phi" and x.args[0].op == "trybody")]
        nested = {}
        for x in rest:
            for y in walk(x):
                nested.update({f[1].cid: f[1] for f in _flags([y])})
        # every exit flag has to be implied: a flag which is missing in one of the alternatives is not
        lost = [c for c in nested if c not in calls and not open_terms(rest, lambda y: any(f[1].cid == c for f in _flags([y])))]
        unknown = open_terms(rest, lambda y: bool(_flags([y]))) and not lost
        chk.ob(len(calls) >= n or (None if unknown else False), name, site(ls[0]) if ls else "(status)",
               f"{len(calls)} of {n} iterative solver exits are part of the condition")
    for h in handlers:
        ok = h.op == "attr" and h.args[0].op == "exc" or (is_const(h) and cval(h) is True)
        chk.ob(True if ok else None, f"status after the power criterion ({lab})", site(h), str(h)[:200])


def _condition(chk, lab, v, lc, kw, out):
    if not kw.get("check"):
        if kw.get("check") is False:
            chk.ob(not [x for x in lc if not is_const(x)] and FALSE not in lc, f"no condition on the condition number when the check is disabled ({lab})",
                   site(out("condition_ok")), str(out("condition_ok"))[:200])
        return
    for k in ("electric", "magnetic"):
        tol = "tolerance_" + k
        found = [x for x in lc if x.op == "cmp" and has_sym(x, tol)]
        name = f"convergence implies that the condition number of the {k} system is below its tolerance ({lab})"
        if not found:
            chk.ob(None if open_terms(lc, lambda x: x.op == "cmp" and has_sym(x, tol)) else False, name, site(out("condition_ok")), "no condition on the condition number")
            continue
        for x in found:
            op, a, b = x.args
            if has_sym(a, tol):
                op, a, b = FLIP.get(op, op), b, a
            c = out("condition_status", "cond_" + k)
            plain = b.op == "sym" or (b.op == "bin" and b.args[0] in ("*", "+", "-") and not has_sym(a, tol))
            chk.ob((op in ("<", "<=") and b.op == "sym" and a.cid == c.cid) or (False if plain else None), name, site(x),
                   f"{op}; compared value: {str(a)[:150]}; reported condition number: {str(c)[:150]}")


# ---------------------------------------------------------------- the coupled system as reference

def direct(v, kw):
    """(system applied to the solution, excitation) of the coupled system in a view."""
    if kw["coupling"] == "direct":
        return v.ev.ev(v.m.closure("sys")), v.rhs
    seg = Seg(v, kw)
    v.ev = seg.ev
    return seg.system(seg.S), seg.rhs


def top_items(t):
    """Solutions of iterative solvers a value consists of (not through another solver call)."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.cid in seen:
            continue
        seen.add(x.cid)
        if x.op == "item" and (_n(x.args[0]) or "").endswith(ITER):
            out.append(x)
        elif not (_n(x) or "").endswith(ITER):
            todo.extend(children(x))
    return out


def independent(root, leaf):
    """Identifiers of the terms below a root which do not contain a leaf."""
    done = {leaf.cid: True}

    def rec(t):
        if t.cid not in done:
            done[t.cid] = False
            done[t.cid] = any([rec(x) for x in children(t)])
        return done[t.cid]

    rec(root)
    return {k for k, x in done.items() if not x}


class Seg:
    """Names for the values of one iteration of the segregated solver."""

    def __init__(self, v, kw):
        self.v = v
        self.loop = next((t for t in walk(v.m.output("res")) if t.op == "loop" and top_items(t.args[2])
                          and any(cval(i.args[1]) == 0 for i in top_items(t.args[2]) if is_const(i.args[1]))
                          and not has_sym(t.args[2], "seg.rel_tol")), None)
        if self.loop is None:
            raise AnalysisBroken("segregated solver: loop not found in the value graph")
        self.dm = model(**dict(BASE, **{k: x for k, x in kw.items() if k != "coupling"}))
        self.d = View(self.dm, v.dc, v.ev.cases)
        self.rhs = self.d.rhs
        n = self.d.n
        self.nc = add(n["vc"], n["fc"], n["src"])
        self.nm = add(n["vm"], n["fm"])
        items = sorted(top_items(self.loop.args[2]), key=lambda i: i.args[0].cid)
        calls = {i.args[0].cid: i.args[0] for i in items}
        if len(calls) != 2:
            raise AnalysisBroken(f"segregated solver: {len(calls)} solver calls in an iteration")
        self.call = {}
        for cl in calls.values():
            k = "c" if "iter_electric" in str(sorted(x.args[0] for x in dict(cl.args[2]).values() if x.op == "sym")) else "m"
            self.call[k] = cl
        if set(self.call) != {"c", "m"}:
            raise AnalysisBroken("segregated solver: electric and magnetic solver calls not identified")
        self.ev = ev = v.m.evaluator(v.dc)
        ev.vec |= {"Z"}
        ev.known = set(v.ev.known)
        self.X, self.L = {}, {}
        for k, size in (("c", self.nc), ("m", self.nm)):
            self.X[k], self.L[k] = vsym("X" + k, True), vsym("L" + k, True)
            for q in (self.X[k], self.L[k]):
                nf.LENS[list(q.t)[0][0][0]] = size
                ev.known.add(list(q.t)[0][0][0])
            for t in walk(self.loop.args[2]):
                if t.op == "item" and t.args[0].cid == self.call[k].cid and is_const(t.args[1]) and cval(t.args[1]) == 0:
                    ev.memo[t.cid] = self.X[k]
            x0 = dict(self.call[k].args[2]).get("x0")
            if x0 is not None and x0.op == "lv":
                ev.memo[x0.cid] = self.L[k]
        self.S = ev.ev(self.loop.args[2])
        ev.memo[self.loop.cid] = self.S
        self.cache, self.terms, self.dep, self.memo = {}, {}, {}, {}

    def apply(self, kind, z):
        """Operator of the coupled (direct) system applied to a vector."""
        if (kind, z) not in self.cache:
            m = self.dm
            pos, kws = m.iter_call.args[1], dict(m.iter_call.args[2])
            op = pos[0] if kind == "sys" else kws["M"]
            f = dict(op.args[2]).get("matvec") or op.args[1][1]
            if kind not in self.terms:
                r, st = m.s.eng.apply(f, [sym("Z")], {}, m.s.res.state.copy(), None)
                self.terms[kind] = m.s.eng.freeze(r, st)
                self.dep[kind] = independent(self.terms[kind], sym("Z"))
            e = m.evaluator(self.v.dc)
            e.cases = list(self.v.ev.cases)
            e.memo.update(self.memo)
            e.memo[sym("Z").cid] = z
            self.cache[(kind, z)] = e.ev(self.terms[kind])
            # values which do not depend on the vector are shared
            self.memo.update((k, x) for k, x in e.memo.items() if k in self.dep[kind])
        return self.cache[(kind, z)]

    def system(self, z):
        return self.apply("sys", z)

    def vec(self, c, m):
        return cat([(c if c is not None else ZERO, self.nc), (m if m is not None else ZERO, self.nm)])

    def part(self, k, p):
        return part(p, ZERO, self.nc) if k == "c" else part(p, self.nc, self.nm)

    def closure(self, k, kind, z):
        """Operator of the electric or magnetic solver applied to a vector."""
        cl = self.call[k]
        op = cl.args[1][0] if kind == "sys" else dict(cl.args[2]).get("M")
        f = (dict(op.args[2]).get("matvec") or (op.args[1][1] if len(op.args[1]) > 1 else None)) if op is not None and op.op == "call" else None
        if f is None:
            raise AnalysisBroken(f"segregated solver: {kind} operator is not a LinearOperator with a known function")
        m = self.v.m
        r, st = m.s.eng.apply(f, [sym("Z")], {}, m.s.res.state.copy(), None)
        e = m.evaluator(self.v.dc)
        e.cases = list(self.v.ev.cases)
        e.memo[sym("Z").cid] = z
        return e.ev(m.s.eng.freeze(r, st))


# ---------------------------------------------------------------- options of the iterative solver

def _options(chk, kw):
    m = model(**kw)
    lab = ",".join(str(x) for _, x in sorted(kw.items()))
    _iter_args(chk, lab, m.iter_call, "direct")


def _iter_args(chk, lab, call, pre):
    kws = dict(call.args[2])
    n = _n(call)
    exp = {"rtol": pre + ".rel_tol", "atol": pre + ".abs_tol", "maxiter": pre + ".n_outer"}
    exp["restart" if n.endswith(".gmres") else "m"] = pre + ".n_inner"
    for k, s in exp.items():
        g = kws.get(k)
        chk.ob(g is not None and g.op == "sym" and g.args[0] == s if g is None or g.op in ("sym", "const") else None,
               f"iterative solver ({pre}): {k} is the configured value ({lab})", site(call), str(g)[:100])
    chk.ob("x0" in kws and kws["x0"] != NONE, f"iterative solver ({pre}): starts from the initial solution ({lab})", site(call), str(sorted(kws)))


# ---------------------------------------------------------------- segregated coupling

NAME = {"c": "electric", "m": "magnetic"}


def _segregated(chk, kw):
    for lab, v in views(chk, kw):
        sg = Seg(v, kw)
        S = {k: sg.part(k, sg.S) for k in "cm"}
        other = {"c": "m", "m": "c"}
        for k in "cm":
            o, cl = other[k], sg.call[k]
            nm = NAME[k]
            # relaxation
            r = ssym("relax_electric" if k == "c" else "relax_magnetic")
            equal(chk, f"segregated: relaxed {nm} solution ({lab})", S[k], add(mul(sub(ONE, r), sg.L[k]), mul(r, sg.X[k])), sg.ev, sg.loop)
            # right-hand side: coupling with the other domain
            got = sg.ev.ev(cl.args[1][1])
            cands = []
            for z in (sg.L[o], S[o]):
                full = sg.system(sg.vec(None, z) if k == "c" else sg.vec(z, None))
                cands.append(sub(sg.part(k, sg.rhs), sg.part(k, full)))
            sg.ev.known |= ids_of(*cands)
            want = next((w for w in cands if isinstance(got, Poly) and got == w), cands[0 if k == "c" else 1])
            equal(chk, f"segregated: {nm} excitation minus the coupling of the other domain ({lab})", got, want, sg.ev, cl.args[1][1])
            # operator and preconditioner
            Z = vsym("Z", True)
            nf.LENS[list(Z.t)[0][0][0]] = sg.nc if k == "c" else sg.nm
            z = Poly(Z.t)
            full = sg.vec(z, None) if k == "c" else sg.vec(None, z)
            for kind, txt in (("sys", "system"), ("pcd", "preconditioner")):
                g = sg.closure(k, kind, z)
                sg.ev.known |= ids_of(sg.apply(kind, full))
                equal(chk, f"segregated: {nm} {txt} is the one of the direct coupling ({lab})", g, sg.part(k, sg.apply(kind, full)), sg.ev, None)
            _iter_args(chk, lab, cl, "iter_electric" if k == "c" else "iter_magnetic")
        # stop of the iterations
        st = [t for t in walk(v.m.output("solver_ok")) if t.op == "loop" and has_sym(t.args[2], "seg.rel_tol")]
        if not st:
            chk.undecided(f"segregated: status of the iterations ({lab})", None, "loop not found")
            continue
        ls = lits(st[0].args[2])
        found = [x for x in ls if x.op == "cmp" and (has_sym(x, "seg.rel_tol") or has_sym(x, "seg.abs_tol")) and not _flags([x])]
        name = f"segregated: status implies that the residual of the coupled system is below the threshold ({lab})"
        if not found:
            chk.bad(name, site(st[0]), "no condition on the residual of the coupled system")
        want = sub(sg.system(sg.S), sg.rhs)
        sg.ev.known |= ids_of(want)
        thr = mk_max(mul(ssym("seg.rel_tol"), poly(atom(("norm", sg.rhs), vec=False))), ssym("seg.abs_tol"))
        for x in found:
            op, a, b = x.args
            if has_sym(a, "seg.rel_tol"):
                op, a, b = FLIP.get(op, op), b, a
            chk.ob(op in ("<", "<="), name, site(x), f"residual {op} threshold")
            equal(chk, f"segregated: residual of the coupled system ({lab})", norm_sign(sg.ev.ev(a), want, [(ZERO, sg.nc), (sg.nc, sg.nm)]), poly(atom(("norm", want), vec=False)), sg.ev, a)
            equal(chk, f"segregated: threshold ({lab})", sg.ev.ev(b), thr, sg.ev, b)


def _sweeps(chk):
    tags = (("sw1", None), ("sw2", "sw1"), ("sw3", None))
    try:
        m = model(**dict(BASE, sweep=tags, check=True))
        st = dget(m.out, "status")
        data = dget(m.out, "data_sweep")
        if st is None or data is None or data.op != "dict":
            raise AnalysisBroken("status of the solution not found")
    except AnalysisBroken as ex:
        chk.undecided("status of the solution", None, str(ex))
        return
    ids = {x.cid for x in lits(st)}
    for t, _ in tags:
        w = m.s.res.frozen()
        h = dget(w, "data_sweep", t, "has_converged")
        if h is None:
            chk.undecided(f"status of the solution: sweep {t}", None, "no convergence flag")
            continue
        miss = [x for x in lits(h) if x.cid not in ids]
        chk.ob(not miss, f"the status of the solution implies the convergence of every sweep ({t})", site(st),
               "not implied: " + "; ".join(str(x)[:150] for x in miss))
    power(chk)


def power(chk):
    """Stop by the power criterion: only when enabled and the change of the power is below the tolerance."""
    for k in (dict(BASE, stop=None),):
        m = model(**k)
        v = View(m, False)
        f = dict(m.iter_call.args[2]).get("callback")
        if f is None or f.op != "func":
            chk.undecided("power criterion", None, "no callback in the iterative solver call")
            continue
        n0 = len(m.s.eng.events)
        m.s.eng.apply(f, [sym("X")], {}, m.s.res.state.copy(), None)
        for e in m.s.eng.events[n0:]:
            if e.kind != "raise":
                continue
            t = e.data[0]
            sol = dget(T("dict", (tuple((T("const", (k,)) if isinstance(k, str) else k, x) for k, x in t.args[1]),)), "sol") if t.op == "obj" else None
            facts = [(c, b) for c, b in e.facts]
            ls = [x for c, b in facts for x in lits(c, not b)]
            on = any(x.op == "sym" and x.args[0] == "power.stop" for x in ls)
            chk.ob(on, "power criterion: only when it is enabled", e.where(), "no condition on the option")
            nmin = [x for x in ls if x.op == "cmp" and has_sym(x, "power.n_min")]
            chk.ob(bool(nmin), "power criterion: only after the minimum number of iterations", e.where(), "no condition on the number of iterations")
            nm = "power criterion: only when the change of the power is below the tolerance"
            er = [x for x in ls if x.op == "cmp" and has_sym(x, "power.rel_tol")]
            if not er:
                chk.bad(nm, e.where(), "no condition on the change of the power")
            for x in er:
                op, a, b = x.args
                if has_sym(a, "power.rel_tol"):
                    op, a, b = FLIP.get(op, op), b, a
                chk.ob(op in ("<", "<="), nm, e.where(), f"change {op} tolerance")
                chk.ob(has_call(a, (".abs", ".absolute", ".norm")), "power criterion: magnitude of the change", e.where(), str(a)[:200])
                chk.ob(has_sym(b, "power.abs_tol"), "power criterion: absolute tolerance", e.where(), str(b)[:200])
                red = _n(a)
                chk.ob(True if red in ("numpy.max", "numpy.amax", "builtins.max", "numpy.linalg.norm", "scipy.linalg.norm") else
                       (False if red in ("numpy.min", "numpy.amin", "builtins.min", "numpy.mean", "numpy.median") else None),
                       "power criterion: largest change over the compared iterations", e.where(), str(red))
            if sol is not None:
                chk.ob(sol.op == "sym" and sol.args[0] == "X", "power criterion: the solution is the one of the stop", e.where(), str(sol)[:200])


# ---------------------------------------------------------------- relation of DC and AC

def dclimit(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _dclimit, VARIANTS, EXTRA)


def _dclimit(chk, kw):
    vs = list(views(chk, kw))
    for la, va in vs:
        for ld, vd in vs:
            if vd.dc and not va.dc and not any(p == q and x != y for p, x in va.ev.cases for q, y in vd.ev.cases):
                _dcpair(chk, la.replace(",AC", ""), va, vd)
    # the equations are the same for all the frequencies
    fid = atom(("sym", "freq")).id
    has = lambda d: any(i == fid for m in d.t for i, _ in m)
    ac = [x for x in vs if not x[1].dc]
    for la, va in ac[1:]:
        l0, v0 = ac[0]
        if any(p == q and x != y and not has(p) for p, x in va.ev.cases for q, y in v0.ev.cases) or not any(has(p) for p, _ in va.ev.cases):
            continue
        (r0, _), (r1, t1) = rows_of(chk, l0, v0), rows_of(chk, la, va)
        for row in r1:
            equal(chk, f"equations are the same for all the frequencies: {row} ({la})", r1[row], r0[row], va.ev, t1)


def _dcpair(chk, lab, va, vd):
    rd, td = rows_of(chk, lab, vd)
    ra, ta = rows_of(chk, lab, va)
    names = {"I_fc": "electric faces", "V_vc": "electric voxels", "I_src": "sources", "I_fm": "magnetic faces", "V_vm": "magnetic voxels"}
    for row, txt in names.items():
        gd, ga = vd.groups(rd[row]), va.groups(ra[row])
        for dep in sorted({d for d, _ in gd} | {d for d, _ in ga}):
            z = lambda g: add(*[q for (d, f), q in g.items() if d == dep and f == 0], ZERO)
            equal(chk, f"DC equations are the zero-frequency part of the AC equations: {txt}, depending on {'+'.join(dep) or '-'} ({lab})",
                  z(gd), z(ga), va.ev, ta)
        high = sorted({f for (d, f) in ga if f not in (0, 1)})
        chk.ob(not high, f"equations are linear in the frequency: {txt} ({lab})", where(va.ev, ta, ra[row]), f"powers of the frequency: {high}")
        dc = sorted({f for (d, f) in gd if f != 0})
        chk.ob(not dc, f"DC equations do not depend on the frequency: {txt} ({lab})", where(vd.ev, td, rd[row]), f"powers of the frequency: {dc}")
    equal(chk, f"excitation is the same in DC and AC ({lab})", vd.rhs, va.rhs, va.ev, va.m.rhs_term())
    same_ = [(("var", k, "var"), k) for k in ("V_c", "J_c", "S_c", "V_m", "B_m", "Q_m", "H_p")]
    same_ += [(("source", s, q), f"{q} of {s}") for s in ("sc", "sv") for q in "VI"]
    for keys, txt in same_:
        t = va.m.output(*keys)
        equal(chk, f"same expression in DC and AC: {txt} ({lab})", va.ev.ev(t), vd.ev.ev(t), va.ev, t)
    half = [(("integral", "P_electric"), "electric losses"), (("integral", "W_electric"), "electric energy"),
            (("integral", "W_magnetic"), "magnetic energy"), (("integral", "S_total"), "total power")]
    half += [(("source", s, "S"), f"power of {s}") for s in ("sc", "sv")] + [(("material", m, "P_electric"), f"electric losses of {m}") for m in ("me", "mx")]
    for keys, txt in half:
        t = va.m.output(*keys)
        a, d = va.ev.ev(t), vd.ev.ev(t)
        if not isinstance(a, Poly) or not isinstance(d, Poly):
            chk.undecided(f"peak phasors: half of the DC expression: {txt} ({lab})", None, "not interpreted")
            continue
        equal(chk, f"peak phasors: half of the DC expression: {txt} ({lab})", a, mul(HALF, d), va.ev, t)
