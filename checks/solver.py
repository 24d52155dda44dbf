"""Algebraic properties of the solver, decided on the normal form of the value graph."""

import itertools

from sa import nf
from sa.laws import (
    Net, equal, c, J, HALF, add, sub, mul, neg, inv, power, vlen, take, app, conj, real, vsum, cat, poly, atom,
    ZERO, ONE, PI, MU0, Poly, Stack, Mat, _ATOMS, fmt, unknown_atoms, is_kernel,
)
from sa.model import Model, View, vsym, ssym
from sa.nf import part, is_vec
from sa.repo import Repo, AnalysisBroken
from sa.report import parallel
from sa.term import walk

FREQ = ssym("freq")
_REPO = []
_MODELS = {}


def repo():
    if not _REPO:
        _REPO.append(Repo())
    return _REPO[0]


def model(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _MODELS:
        _MODELS[k] = Model(repo(), **kw)
    return _MODELS[k]


def views(chk, kw):
    """(label, view) of a configuration, in DC and AC."""
    m = model(**kw)
    for dc in (False, True):
        lab = ",".join(str(x) for k, x in sorted(kw.items())) + (",DC" if dc else ",AC")
        chk.count("model_configurations")
        yield from cases(chk, lab, View(m, dc), m, dc)


def terms(m):
    """Output of the solver and its operators."""
    out = [m.out]
    for k in ("sys", "pcd"):
        try:
            out.append(m.closure(k))
        except AnalysisBroken:
            pass
    return out


def cases(chk, lab, v, m, dc, depth=0):
    """A view, or the views of the cases of a condition on the parameters which it leaves open."""
    seen = set()
    for t in terms(m):
        for x in walk(t, seen):
            if x.op == "phi":
                v.ev.cond(x.args[0])
    if depth >= 3 or not v.ev.open:
        yield lab, v
        return
    for d, signs in v.ev.open[:1]:
        for s in signs:
            chk.count("parameter_cases")
            new = View(m, dc, v.ev.cases + [(d, s)])
            yield from cases(chk, f"{lab}, {fmt(d, 3)} {'>=<'[1-s] if signs != (1, 0) else {1: '!=', 0: '='}[s]} 0", new, m, dc, depth + 1)


def per_model(chk, body, quick, thorough=None):
    """body(part, kw) for every configuration of the model, in parallel."""
    parallel(chk, body, quick + (thorough or [] if chk.thorough else []))


BASE = dict(coupling="direct")
VARIANTS = [
    dict(BASE, orient=o, var=v, src_var=w)
    for o, v, w in (("isotropic", "lumped", "lumped"), ("anisotropic", "lumped", "distributed"),
                    ("isotropic", "distributed", "lumped"), ("anisotropic", "distributed", "distributed"))
]
ALL_VARIANTS = [
    dict(BASE, orient=o, var=v, src_var=w) for o, v, w in itertools.product(
        ("isotropic", "anisotropic"), ("lumped", "distributed"), ("lumped", "distributed"))
]
EXTRA = [x for x in ALL_VARIANTS if x not in VARIANTS]


def s_of(v):
    return ZERO if v.dc else mul(c(2), J, PI, FREQ)


# ---------------------------------------------------------------- material / source parameters

def mat_value(v, tag, q, a):
    """Complex parameter of a material along an axis (as given by the user)."""
    m = v.m
    suf = "_v" if m.var == "distributed" else ""
    if m.orient == "anisotropic":
        suf += ("3" if m.var == "distributed" else "") + "." + "xyz"[a]
    dist = m.var == "distributed"
    re = vsym(f"{q}_re_{tag}{suf}") if dist else ssym(f"{q}_re_{tag}{suf}")
    im = vsym(f"{q}_im_{tag}{suf}") if dist else ssym(f"{q}_im_{tag}{suf}")
    return re, im


def dlen(d):
    return vlen(vsym("idx_" + d))


def rho_electric(v, a):
    parts = []
    for tag, d in (("me", "d1"), ("mx", "d3")):
        re, im = mat_value(v, tag, "rho", a)
        parts.append((add(re, mul(J, im)), dlen(d)))
    return cat(parts)


def rho_magnetic(v, a):
    parts = []
    for tag, d in (("mm", "d2"), ("mx", "d3")):
        re, im = mat_value(v, tag, "chi", a)
        parts.append((inv(mul(MU0, sub(re, mul(J, im)))), dlen(d)))
    return cat(parts)


def src_value(v, tag, q):
    m = v.m
    suf = "_v" if m.src_var == "distributed" else ""
    f = vsym if m.src_var == "distributed" else ssym
    return add(f(f"{q}_re_{tag}{suf}"), mul(J, f(f"{q}_im_{tag}{suf}")))


def resistance(v, net, rho):
    """Face resistance: length / area times the mean of the two voxel resistivities."""
    return net.scale(lambda a: mul(HALF, net.d[a], inv(net.area[a]), net.grad(rho(v, a), absolute=True)))


def pick(groups, dep, p=None):
    """Part of a row depending on exactly the given unknown (and power of the frequency)."""
    out = [q for (deps, f), q in groups.items() if deps == (dep,) and (p is None or f == p)]
    return add(*out) if out else ZERO


def rows_of(chk, lab, v, kind="sys"):
    r = v.rows(kind)
    if any(x is None for x in r.values()):
        raise AnalysisBroken(f"cannot split the rows of the {kind} operator ({lab})")
    return r, v.m.closure(kind)


# ---------------------------------------------------------------- topology of the voxel grid

def _boxed(p, n):
    """(shape, formula in the coordinates, order) of an index vector over a box of voxels."""
    shape, v = None, ZERO
    for m, k in p.t.items():
        co, x = [], None
        for i, e in m:
            a = _ATOMS[i]
            if a.key[0] in ("gflat", "arange") and x is None and e == 1:
                x = a
            elif a.vec:
                return None
            else:
                co.append((i, e))
        f = Poly({tuple(co): k})
        if x is None:
            v = add(v, f)
            continue
        if x.key[0] == "gflat":
            sh, q = (tuple(x.key[1]), x.key[3]), x.key[2]
        else:
            if not (x.key[1].is_zero() and x.key[2] == mul(*n)):
                return None
            sh, q = (tuple(n), "F"), add(nf.ax(0), mul(n[0], nf.ax(1)), mul(n[0], n[1], nf.ax(2)))
        if shape is None:
            shape = sh
        if sh != shape and not (sh[0] == shape[0] and x.key[0] == "arange"):
            return None
        v = add(v, mul(f, q))
    return None if shape is None else (shape, v)


def topology(chk, lab, v, nets):
    """Faces of the voxel grid: +1 at the voxel, -1 at its successor along the axis; faces shared by two voxels are kept."""
    a = v.incidence()
    if a is None:
        chk.undecided(f"incidence matrix ({lab})", None, "no unique incidence matrix behind the face indices")
        return
    n = [ssym(k) for k in ("nx", "ny", "nz")]
    stride = [ONE, n[0], mul(n[0], n[1])]
    lin = add(nf.ax(0), mul(n[0], nf.ax(1)), mul(n[0], n[1], nf.ax(2)))
    got = []
    mat = a.key[1]
    for ids, sc in mat.t.items() if isinstance(mat.t, dict) else mat.t:
        k = _ATOMS[ids[0]].key
        if len(ids) != 1 or k[0] != "coo" or not sc.is_const():
            chk.undecided(f"incidence matrix ({lab})", None, "entries not given as triplets")
            return
        r, cc = _boxed(k[2], n), _boxed(k[3], n)
        if r and cc and r[0] != cc[0]:
            chk.bad(f"incidence: rows and columns enumerate the same voxels in the same order ({lab})", "incidence matrix behind the face indices",
                    f"rows over {fmt(k[2], 3)[:150]}, columns over {fmt(k[3], 3)[:150]}")
            return
        if r is None or cc is None or not k[1].is_const():
            chk.undecided(f"incidence matrix ({lab})", None, "index vectors of the triplets not interpreted: " + fmt(k[2], 3)[:150])
            return
        got.append((r[0][0], r[1], cc[1], sc.cval()[0] * k[1].cval()[0]))
    want = []
    for q in range(3):
        off = mul(c(q), v.nv)
        want.append((tuple(n), lin, add(lin, off), 1))
        sh = tuple(sub(x, ONE) if k == q else x for k, x in enumerate(n))
        want.append((sh, add(lin, stride[q]), add(lin, off), -1))
    for w in want:
        q = (want.index(w)) // 2
        ok = any(g[0] == w[0] and g[1] == w[1] and g[2] == w[2] and g[3] == w[3] for g in got)
        chk.ob(ok, f"incidence: {'+1 at the voxel' if w[3] > 0 else '-1 at the next voxel'} of the faces along {'xyz'[q]} ({lab})",
               "incidence matrix behind the face indices", "code: " + fmt(poly(a), 6)[:500])
    chk.ob(len(got) == 6, f"incidence: no other entries ({lab})", "incidence matrix behind the face indices", fmt(poly(a), 6)[:500])
    import operator
    ops = {"==": operator.eq, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le, "!=": operator.ne}
    for k in nets:
        m = v.idx["f" + k].mono()
        key = _ATOMS[m[0][0][0]].key if m and len(m[0]) == 1 else None
        name = f"{'electric' if k == 'c' else 'magnetic'} faces: the faces shared by two voxels ({lab})"
        if not (key and key[0] == "nz" and isinstance(key[1], Poly)):
            chk.undecided(name, None, "face indices not a mask")
            continue
        mm = key[1].mono()
        kc = _ATOMS[mm[0][0][0]].key if mm and len(mm[0]) == 1 else None
        if kc and kc[0] == "cmp" and isinstance(kc[2], Poly) and kc[2].is_const():
            kc = ("cmp", {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(kc[1], kc[1]), kc[3], kc[2])
        cnt = kc[2].mono() if kc and kc[0] == "cmp" and isinstance(kc[2], Poly) else None
        ks = _ATOMS[cnt[0][0][0]].key if cnt and len(cnt[0]) == 1 else None
        if not (ks and ks[0] in ("msumax", "nnz") and isinstance(ks[1], Mat) and kc[1] in ops and isinstance(kc[3], Poly) and kc[3].is_const()):
            chk.undecided(name, None, "not a count of the voxels of a face")
            continue
        net = Net(v, k)
        inc = net.inc(True)
        sel = v.ev.selmat(net.idx_v, v.nv)
        want = [nf.mmul(nf.mtrans(sel), x) for x in ((inc, net.inc()) if ks[0] == "nnz" else (inc,))]
        kept = {j for j in (0, 1, 2) if ops[kc[1]](cnt[1][0] * j, kc[3].cval()[0])}
        good = any(ks[1] == w for w in want) and kept == {2} and ks[2] == 0
        chk.ob(good, name, "face selection", f"faces with {sorted(kept)} voxels are kept, counted with {fmt(ks[1], 4)[:200]} over axis {ks[2]}")


# ---------------------------------------------------------------- C01: electric network

def electric(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _electric, VARIANTS, EXTRA)
    from checks.couplings import long_range
    per_model(chk, long_range(("inductance",)), [dict(BASE, split=True)])


def _electric(chk, kw):
    for lab, v in views(chk, kw):
        net = Net(v, "c")
        r, root = rows_of(chk, lab, v)
        e = lambda n, g, w: equal(chk, f"{n} ({lab})", g, w, v.ev, root)
        gf, gv = v.groups(r["I_fc"]), v.groups(r["V_vc"])
        if net.inc() is None:
            chk.undecided(f"incidence matrix ({lab})", None, "no unique incidence matrix behind the face indices")
            continue
        topology(chk, lab, v, "c")
        e("indices of the electric voxels follow the materials", v.idx["vc"], cat([(vsym("idx_d1"), dlen("d1")), (vsym("idx_d3"), dlen("d3"))]))
        e("KVL: minus transposed incidence times potential", pick(gf, "V_vc"), neg(net.grad(net.V)))
        e("KCL: incidence times face current", pick(gv, "I_fc"), net.div(net.I))
        e("KVL: resistance = resistivity * length / area", pick(gf, "I_fc", 0), mul(resistance(v, net, rho_electric), net.I))
        e("KVL: no source current in the face equations", pick(gf, "I_src"), ZERO)
        e("KVL: no magnetic potential in the face equations", pick(gf, "V_vm"), ZERO)
        e("KCL: no potential in the current balance", pick(gv, "V_vc"), ZERO)
        for k in ("I_fm", "V_vm"):
            e(f"KCL: current balance independent of {k}", pick(gv, k), ZERO)


def magnetic(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _magnetic, VARIANTS, EXTRA)
    from checks.couplings import long_range
    per_model(chk, long_range(("potential",)), [dict(BASE, split=True)])


def _magnetic(chk, kw):
    for lab, v in views(chk, kw):
        net = Net(v, "m")
        r, root = rows_of(chk, lab, v)
        e = lambda n, g, w: equal(chk, f"{n} ({lab})", g, w, v.ev, root)
        gf, gv = v.groups(r["I_fm"]), v.groups(r["V_vm"])
        if net.inc() is None:
            chk.undecided(f"incidence matrix ({lab})", None, "no unique incidence matrix behind the face indices")
            continue
        topology(chk, lab, v, "m")
        e("indices of the magnetic voxels follow the materials", v.idx["vm"], cat([(vsym("idx_d2"), dlen("d2")), (vsym("idx_d3"), dlen("d3"))]))
        e("flux law: minus transposed incidence times potential", pick(gf, "V_vm"), neg(net.grad(net.V)))
        e("flux law: reluctance = length / area / (mu0 * chi)", pick(gf, "I_fm", 0), mul(resistance(v, net, rho_magnetic), net.I))
        e("flux law: no inductive term", pick(gf, "I_fm", 1), ZERO)
        e("flux law: no electric potential", pick(gf, "V_vc"), ZERO)
        e("flux law: no source current", pick(gf, "I_src"), ZERO)
        e("potential law: identity on the potential", pick(gv, "V_vm"), net.V)
        for k in ("I_fc", "V_vc", "I_src"):
            e(f"potential law: independent of {k}", pick(gv, k), ZERO)


# ---------------------------------------------------------------- sources

def sources(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _sources, VARIANTS, EXTRA)


def _sources(chk, kw):
    for lab, v in views(chk, kw):
        net = Net(v, "c")
        r, root = rows_of(chk, lab, v)
        e = lambda n, g, w, rt=root: equal(chk, f"{n} ({lab})", g, w, v.ev, rt)
        gv, gs = v.groups(r["V_vc"]), v.groups(r["I_src"])
        nc, nvv = dlen("d4"), dlen("d5")
        off_c, off_v = ZERO, nc
        pos = {d: v.position(d) for d in ("d4", "d5")}
        lump = v.m.src_var == "lumped"
        Y = src_value(v, "sc", "Y")
        Z = src_value(v, "sv", "Z")
        I = src_value(v, "sc", "I")
        U = src_value(v, "sv", "V")
        if lump:
            Y, I, Z = mul(Y, inv(nc)), mul(I, inv(nc)), mul(Z, nvv)
        rng = {"d4": nf.arange(ZERO, nc), "d5": nf.arange(nc, add(nc, nvv))}
        Is = v.state["I_src"]
        co = lambda data, row, col, x: app(v.ev.coo(data, row, col, (None, None)), x)
        e("current balance: the source current is injected in its voxel", pick(gv, "I_src"),
          neg(add(co(ONE, pos["d4"], rng["d4"], Is), co(ONE, pos["d5"], rng["d5"], Is))))
        e("source law: admittance of the current sources, potential of the voltage sources", pick(gs, "V_vc"),
          add(co(Y, rng["d4"], pos["d4"], net.V), co(ONE, rng["d5"], pos["d5"], net.V)))
        e("source law: current of the current sources, impedance of the voltage sources", pick(gs, "I_src"),
          add(co(ONE, rng["d4"], rng["d4"], Is), co(Z, rng["d5"], rng["d5"], Is)))
        for k in ("I_fc", "I_fm", "V_vm"):
            e(f"source law: independent of {k}", pick(gs, k), ZERO)
        rhs = v.split(v.rhs)
        rr = v.m.rhs_term()
        e("right hand side: source values in the source rows", rhs["I_src"], cat([(I, nc), (U, nvv)]), rr)
        for k in ("I_fc", "V_vc", "I_fm", "V_vm"):
            e(f"right hand side: no excitation in the {k} rows", rhs[k], ZERO, rr)


# ---------------------------------------------------------------- preconditioner

def _find_inverse(p):
    """Multi-term polynomials appearing as an inverse vector factor."""
    out = {}
    for m in p.t:
        for i, e in m:
            a = _ATOMS[i]
            if e < 0 and a.vec and a.key[0] == "poly":
                out[i] = nf._POLYVAL[i]
    return out


def _minv(p):
    """Inverse matrices applied in a value."""
    out = {}
    for a in nf.atoms_in(p).values():
        if a.key[0] == "app" and _ATOMS[a.key[1]].key[0] == "minv":
            out[a.key[1]] = (_ATOMS[a.key[1]].key[1], a.key[2])
    return out


def precond(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _precond, VARIANTS[:2], VARIANTS[2:])


def _precond(chk, kw):
    for lab, v in views(chk, kw):
        r, root = rows_of(chk, lab, v, "pcd")
        sysr, _ = rows_of(chk, lab, v)
        gk = set()
        e = lambda n, g, w: equal(chk, f"{n} ({lab})", g, w, v.ev, root, gk)
        # electric
        net = Net(v, "c")
        R = resistance(v, net, rho_electric)
        gvals = []
        if v.dc:
            Z = R
        else:
            invs = _find_inverse(r["I_fc"])
            if len(invs) != 1:
                chk.undecided(f"impedance of the faces ({lab})", None, f"{len(invs)} inverse factors")
                continue
            z = list(invs.values())[0]
            lead = None
            # the stored polynomial is normalised: find the scale with the resistive part
            for m, k in z.t.items():
                if not any(_ATOMS[i].key == ("sym", "freq") for i, _ in m) and m in R.t:
                    lead = nf._cmul(R.t[m], nf._cinv(k))
                    break
            if lead is None:
                chk.bad(f"preconditioner: resistance of the faces in the impedance ({lab})", where_of(v, root), "code: " + fmt(z, 6)[:300])
                continue
            z = nf.scale(z, lead)
            e("preconditioner: resistive part of the impedance", Poly({m: k for m, k in z.t.items() if not any(_ATOMS[i].key == ("sym", "freq") for i, _ in m)}), R)
            ind = Poly({m: k for m, k in z.t.items() if any(_ATOMS[i].key == ("sym", "freq") for i, _ in m)})
            # common self coefficient
            for a in range(3):
                key = list(net.ind[a].t)[0][0]
                part_a = Poly({tuple(x for x in m if x != key): k for m, k in ind.t.items() if key in m})
                gvals.append(mul(part_a, inv(mul(s_of(v), MU0)), power(net.area[a], 2)))
            g = gvals[0]
            gk = {i for q in gvals for i, x in nf.atoms_in(q).items() if x.key[0] != "sym"}
            if is_vec(g) or any(i in v.sid for q in gvals for i in nf.atoms_in(q)):
                chk.undecided(f"preconditioner: self coefficient ({lab})", None, "not a scalar: " + fmt(g, 3)[:200])
                continue
            e("preconditioner: same self coefficient along x and y", gvals[1], g)
            e("preconditioner: same self coefficient along x and z", gvals[2], g)
            e("preconditioner: impedance = R + s * mu0 * g / area^2", z, add(R, mul(s_of(v), MU0, net.scale(lambda a: mul(g, power(net.area[a], -2))))))
            Z = z
        Y = inv(Z)
        sb = (r["V_vc"], r["I_src"])
        xs = v.state
        e("preconditioner: face currents solve the face equations", r["I_fc"], mul(Y, add(xs["I_fc"], net.grad(sb[0]))))
        mi = _minv(add(sb[0], sb[1]))
        if len({x[0] for x in mi.values()}) != 1 or len(mi) != 1:
            chk.undecided(f"preconditioner: Schur complement ({lab})", None, "potentials are not the solution of one factorised system: " + fmt(sb[0], 2)[:150])
        else:
            i, (S, _) = list(mi.items())[0]
            y = cat([(xs["V_vc"], v.n["vc"]), (xs["I_src"], v.n["src"])])
            sy = v_split2(app(S, y), v.n["vc"], v.n["src"])
            gv, gs = v.groups(sysr["V_vc"]), v.groups(sysr["I_src"])
            e("preconditioner: Schur complement of the current balance", sy[0], add(net.div(mul(Y, net.grad(net.V))), pick(gv, "I_src")))
            e("preconditioner: Schur complement of the sources", sy[1], add(pick(gs, "V_vc"), pick(gs, "I_src")))
            for nm, off, q in (("potential", ZERO, sb[0]), ("source current", v.n["vc"], sb[1])):
                t = unapply(q, i, off)
                if t is None:
                    chk.undecided(f"preconditioner: electric {nm} from the reduced right hand side ({lab})", None, fmt(q, 2)[:200])
                    continue
                t = v_split2(t, v.n["vc"], v.n["src"])
                e(f"preconditioner: electric {nm}: reduced right hand side of the current balance", t[0], sub(xs["V_vc"], net.div(mul(Y, xs["I_fc"]))))
                e(f"preconditioner: electric {nm}: reduced right hand side of the sources", t[1], xs["I_src"])
        # magnetic
        net = Net(v, "m")
        Rm = resistance(v, net, rho_magnetic)
        Y = inv(Rm)
        e("preconditioner: face fluxes solve the flux equations", r["I_fm"], mul(Y, add(xs["I_fm"], net.grad(r["V_vm"]))))
        found = {i: x for i, x in _minv(r["V_vm"]).items()}
        if len(found) != 1 and len({id(x[0]) for x in found.values()}) != 1:
            chk.undecided(f"preconditioner: magnetic Schur complement ({lab})", None, f"{len(found)} factorised systems")
            continue
        i = list(found)[0]
        S = found[i][0]
        # P = g / (mu0 * vol^2)
        sy = app(S, net.V)
        rest = sub(sy, net.V)
        base = net.div(mul(Y, net.grad(net.V)))
        p_m = ratio(rest, base)
        if p_m is None:
            chk.bad(f"preconditioner: magnetic Schur complement = 1 + p A Y A^T ({lab})", where_of(v, root), "code: " + fmt(sy, 6)[:300])
            continue
        chk.ok(f"preconditioner: magnetic Schur complement = 1 + p A Y A^T ({lab})")
        gk |= {i for i, x in nf.atoms_in(p_m).items() if x.key[0] != "sym"}
        if gvals:
            e("preconditioner: magnetic self coefficient g / (mu0 * vol^2)", p_m, mul(gvals[0], inv(mul(MU0, net.vol, net.vol))))
        rhs = sub(xs["V_vm"], mul(p_m, net.div(mul(Y, xs["I_fm"]))))
        e("preconditioner: magnetic potential", r["V_vm"], nf.linear(rhs, lambda w: nf.app_atom(i, w)))


def unapply(p, i, off):
    """Right hand side t such that p is the part (at an offset) of the solution of the factorised system i."""
    t = ZERO
    for m, k in p.t.items():
        rest, w = [], None
        for j, e in m:
            key = _ATOMS[j].key
            if key[0] == "part" and w is None and e == 1 and isinstance(key[1], Poly) and key[2] == off:
                mm = key[1].mono()
                kk = _ATOMS[mm[0][0][0]].key if mm and len(mm[0]) == 1 and mm[1] == nf.C1 else None
                if kk and kk[0] == "app" and kk[1] == i:
                    w = kk[2]
                    continue
            rest.append((j, e))
        if w is None or any(_ATOMS[j].vec for j, _ in rest):
            return None
        t = add(t, mul(Poly({tuple(rest): k}), w))
    return t


def where_of(v, root):
    from sa.laws import where
    return where(v.ev, root, ZERO)


def v_split2(p, n1, n2):
    return part(p, ZERO, n1), part(p, n1, n2)


def ratio(p, q):
    """Scalar c with p = c * q (both non-zero)."""
    if not p.t or not q.t:
        return None
    qm, qk = list(q.t.items())[0]
    vq = nf.split(qm)[1]
    tot = ZERO
    for m, k in p.t.items():
        s, w = nf.split(m)
        if w == vq:
            tot = add(tot, Poly({s: k}))
    den = ZERO
    for m, k in q.t.items():
        s, w = nf.split(m)
        if w == vq:
            den = add(den, Poly({s: k}))
    if tot.is_zero() or den.mono() is None:
        return None
    r = mul(tot, inv(den))
    return r if sub(p, mul(r, q)).is_zero() else None
