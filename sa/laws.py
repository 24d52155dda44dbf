"""
Expected algebraic laws of the solver, compared with the normal form of the code.

The comparison has three outcomes: equal (discharged), different within the
vocabulary of the specification (violated), different with constructs that the
normal form does not interpret (undecided).
"""

from fractions import Fraction

from sa import nf
from sa.model import vsym, ssym, cat_parts
from sa.nf import (
    Poly, Mat, Stack, Seq, Opq, atom, poly, add, sub, mul, neg, inv, power, vlen, take, app, mtrans, cat, conj, real,
    vsum, ZERO, ONE, PI, MU0, C1, _ATOMS, fmt,
)
from sa.term import children

UNKNOWN = {"fn", "op", "opq", "phi", "m", "val", "inv0", "reshape", "msumax", "gather", "shape", "get", "lit", "arr"}
HALF = nf.const(Fraction(1, 2))
J = Poly({(): (Fraction(0), Fraction(1))})


def c(x):
    return nf.const(Fraction(x))


def is_kernel(a):
    """Transform of a tensor of the kernel (not of a vector of unknowns)."""
    return a.key[0] == "fftn" and a.key[2] is None


def unknown_atoms(p, known=()):
    """Atoms outside of the interpreted vocabulary (kernels and known atoms are not opened)."""
    stop = {a.id for a in _ATOMS if is_kernel(a)} | set(known)
    seen = {i: None for i in stop}
    out = nf.atoms_in(p, True, seen)
    return [a for a in out.values() if a is not None and (a.key[0] in UNKNOWN or any(isinstance(x, Opq) for x in a.key))]


def same_gather(d, want, known):
    """Selections of the specification, applied to another (interpreted) field."""
    sel = {a.key[2] for a in nf.atoms_in(want).values() if a.key[0] == "gather"}
    if not sel:
        return set()
    ga = [a for a in nf.atoms_in(d).values() if a.key[0] == "gather" and a.key[2] in sel]
    ok = set()
    for a in ga:
        cols = a.key[1].cols if isinstance(a.key[1], Stack) else [a.key[1]]
        inner = [x for q in cols if isinstance(q, Poly) for x in unknown_atoms(q, known) if not (x.key[0] == "gather" and x.key[2] in sel)]
        if not inner and all(isinstance(q, Poly) for q in cols):
            ok.add(a.id)
    return ok


def locate(ev, root, diff):
    """Innermost source construct whose value contains a differing monomial."""
    monos = list(diff.t.items())
    seen, order = set(), []
    stack = [(root, False)]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t.cid in seen:
            continue
        seen.add(t.cid)
        stack.append((t, True))
        for x in children(t):
            stack.append((x, False))
    for t in order:
        if t.site is not None and t.op in ("bin", "call", "setitem", "un", "item"):
            v = ev.memo.get(t.cid)
            vs = v.cols if isinstance(v, Stack) else [v]
            for x in vs:
                if isinstance(x, Poly) and any(x.t.get(m) == k for m, k in monos):
                    return f"{t.site[0]}:{t.site[1]} in {t.site[2]}()"
    return None


def where(ev, root, diff):
    r = locate(ev, root, diff) if root is not None else None
    if r is None and root is not None and root.site is not None:
        r = f"{root.site[0]}:{root.site[1]} in {root.site[2]}()"
    return r or "(value of the solver output)"


def equal(chk, name, got, want, ev=None, root=None, known=(), detail=None):
    """One obligation: the two normal forms are identical."""
    chk.count("normal_forms_compared")
    if got is None or want is None:
        chk.undecided(name, None, "value not available")
        return None
    if isinstance(got, Stack) and isinstance(want, Stack) and len(got.cols) == len(want.cols) and got.axis == want.axis:
        return all([equal(chk, f"{name} [{'xyz'[k]}]", g, w, ev, root, known, detail) for k, (g, w) in enumerate(zip(got.cols, want.cols))])
    if isinstance(got, Poly) and isinstance(want, Poly):
        d = sub(got, want)
        if d.is_zero():
            chk.ok(name)
            if len(chk.samples) < 6:
                chk.samples.append(f"{name}: {fmt(got, 6)[:300]}")
            return True
        known = set(known) | getattr(ev, "known", set())
        known |= same_gather(d, want, known)
        unk = unknown_atoms(d, known)
        w = where(ev, root, sub(got, want)) if ev is not None and root is not None else None
        extra, missing = [], []
        for m, k in d.t.items():
            (extra if m in got.t else missing).append(fmt(Poly({m: k}), 7)[:400])
        txt = (detail or "") + f"code - specification = {' ; '.join((extra + missing)[:4])}"
        if unk:
            chk.undecided(name, w, "not interpreted: " + fmt(poly(unk[0]), 2)[:120])
            return None
        chk.bad(name, w or "-", txt)
        return False
    if type(got) is type(want) and got == want:
        chk.ok(name)
        return True
    if isinstance(got, (Opq, Seq)) or isinstance(want, (Opq, Seq)) or unknown_atoms(got, known):
        chk.undecided(name, None, f"shape of the value not interpreted ({type(got).__name__})")
        return None
    chk.bad(name, "-", f"code: {fmt(got, 5)[:300]} / specification: {fmt(want, 5)[:300]}")
    return False


class Net:
    """Geometry of the electric (c) or magnetic (m) network in a view."""

    def __init__(self, view, k):
        self.v = view
        self.k = k
        self.idx_v = view.idx["v" + k]
        self.idx_f = view.idx["f" + k]
        self.I = view.state["I_f" + k]
        self.V = view.state["V_v" + k]
        self.d = [ssym("dx"), ssym("dy"), ssym("dz")]
        dx, dy, dz = self.d
        self.area = [mul(dy, dz), mul(dx, dz), mul(dx, dy)]
        self.vol = mul(dx, dy, dz)
        self.ind = [poly(atom(("ind", self.idx_f, a, view.nv), vec=True)) for a in range(3)]

    def scale(self, f):
        """Sum over the axes of mask * f(axis)."""
        return add(*[mul(self.ind[a], f(a)) for a in range(3)])

    def inc(self, absolute=False):
        a = self.v.incidence()
        if a is None:
            return None
        m = Mat([((a.id,), ONE)], nf._MSHAPE.get(a.id, (None, None)))
        return self.v.ev.mabs(m) if absolute else m

    def div(self, x, absolute=False):
        """Sum of the (signed) face values entering each voxel."""
        m = self.inc(absolute)
        if m is None:
            return None
        s = self.v.ev.selmat(self.idx_f, mul(c(3), self.v.nv))
        return take(app(m, app(s, x)), self.v.ev.mask_of(self.idx_v))

    def grad(self, y, absolute=False):
        """Transposed operator: difference (or sum) of the values of the two voxels of a face."""
        m = self.inc(absolute)
        if m is None:
            return None
        s = self.v.ev.selmat(self.idx_v, self.v.nv)
        return take(app(mtrans(m), app(s, y)), self.v.ev.mask_of(self.idx_f))


def kernels(p, seen=None):
    """Kernel transforms found in a value."""
    return [a for a in nf.atoms_in(p).values() if is_kernel(a)]
