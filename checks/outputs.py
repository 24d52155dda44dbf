"""Extracted quantities: losses, energies, densities, terminal quantities, fields, solution layout."""

from sa import nf
from sa.laws import (
    Net, equal, c, J, HALF, add, sub, mul, neg, inv, power, vlen, take, app, mtrans, conj, real, vsum, cat, poly, atom,
    ZERO, ONE, PI, MU0, Poly, Stack, _ATOMS, fmt, where,
)
from sa.model import vsym, ssym
from sa.nf import Seq, Opq
from sa.repo import AnalysisBroken
from checks.solver import (
    BASE, VARIANTS, EXTRA, FREQ, views, per_model, rows_of, s_of, pick, resistance, rho_electric, rho_magnetic, View,
)


class Out:
    """Output of a sweep in a view, compared with a law."""

    def __init__(self, chk, lab, v):
        self.chk, self.lab, self.v = chk, lab, v

    def get(self, *keys):
        t = self.v.m.output(*keys)
        return self.v.ev.ev(t), t

    def eq(self, name, keys, want, conv=None):
        try:
            g, t = self.get(*keys)
        except AnalysisBroken as ex:
            self.chk.bad(f"{name} ({self.lab})", "solver output", str(ex))
            return None
        if conv is not None:
            g = conv(g)
        return equal(self.chk, f"{name} ({self.lab})", g, want, self.v.ev, t)


def _facts(v):
    return (ONE, HALF) if v.dc else (HALF, c("1/4"))


def _operators(v):
    """Inductance and coupling operators applied to the unknowns (as used in the system; taken from the AC rows)."""
    ac = v if not v.dc else View(v.m, False, v.ev.cases)
    g = ac.groups(ac.rows()["I_fc"])
    s = mul(c(2), J, PI, FREQ)
    return mul(pick(g, "I_fc", 1), inv(s)), mul(pick(g, "I_fm", 1), inv(s))


# ---------------------------------------------------------------- losses and energies

def power(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _power, VARIANTS, EXTRA)


def face_losses(v):
    cn, mn = Net(v, "c"), Net(v, "m")
    f, _ = _facts(v)
    s = s_of(v)
    pc = real(mul(f, conj(cn.I), resistance(v, cn, rho_electric), cn.I))
    pm = real(mul(f, conj(mul(s, mn.I)), resistance(v, mn, rho_magnetic), mn.I))
    return cn, mn, pc, pm


def voxel_mean(net, x):
    return mul(HALF, net.div(x, absolute=True))


def _power(chk, kw):
    for lab, v in views(chk, kw):
        o = Out(chk, lab, v)
        cn, mn, pc, pm = face_losses(v)
        _, w = _facts(v)
        lop, kop = _operators(v)
        wc, wm = real(mul(w, conj(cn.I), lop)), real(mul(w, conj(cn.I), kop))
        o.eq("electric losses: resistance times squared current, summed over the faces", ("integral", "P_electric"), vsum(pc))
        o.eq("magnetic losses: reluctance times flux times its time derivative, summed over the faces", ("integral", "P_magnetic"), vsum(pm))
        o.eq("electric energy: inductance operator of the system", ("integral", "W_electric"), vsum(wc))
        o.eq("magnetic energy: coupling operator of the system", ("integral", "W_magnetic"), vsum(wm))
        o.eq("total losses are the sum of the electric and magnetic losses", ("integral", "P_total"), add(vsum(pc), vsum(pm)))
        o.eq("total energy is the sum of the electric and magnetic energies", ("integral", "W_total"), add(vsum(wc), vsum(wm)))
        # losses per material: half of the losses of each face to each of its voxels
        vc, vm = voxel_mean(cn, pc), voxel_mean(mn, pm)
        for tag, d in (("me", "d1"), ("mm", "d2"), ("mx", "d3")):
            x = vsym("idx_" + d)
            want = []
            for net, p in ((cn, vc), (mn, vm)):
                want.append(vsum(take(p, poly(atom(("isin", net.idx_v, x), vec=True)))))
            o.eq(f"losses of material {tag}: electric part", ("material", tag, "P_electric"), want[0])
            o.eq(f"losses of material {tag}: magnetic part", ("material", tag, "P_magnetic"), want[1])
            o.eq(f"losses of material {tag}: total", ("material", tag, "P_total"), add(*want))


# ---------------------------------------------------------------- densities

def density(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _density, VARIANTS[:2], VARIANTS[2:] + EXTRA)


def _density(chk, kw):
    for lab, v in views(chk, kw):
        o = Out(chk, lab, v)
        cn, mn, pc, pm = face_losses(v)
        vec = lambda net: Stack([mul(HALF, inv(net.area[k]), net.div(mul(net.ind[k], net.I), absolute=True)) for k in range(3)], 1)
        sca = lambda net, p: mul(inv(net.vol), voxel_mean(net, p))
        dvg = lambda net: mul(inv(net.vol), net.div(net.I))
        o.eq("current density: mean of the two face currents over the cross-section", ("var", "J_c", "var"), vec(cn))
        o.eq("flux density: mean of the two face fluxes over the cross-section", ("var", "B_m", "var"), vec(mn))
        o.eq("electric loss density: half of the losses of the faces over the volume", ("var", "P_c", "var"), sca(cn, pc))
        o.eq("magnetic loss density: half of the losses of the faces over the volume", ("var", "P_m", "var"), sca(mn, pm))
        o.eq("current divergence: net face current over the volume", ("var", "S_c", "var"), dvg(cn))
        o.eq("magnetic charge: net face flux over the volume", ("var", "Q_m", "var"), dvg(mn))
        o.eq("electric potential is the solution", ("var", "V_c", "var"), cn.V)
        o.eq("magnetic potential is the solution", ("var", "V_m", "var"), mn.V)
        for var, cat_ in (("V_c", "scalar_electric"), ("P_c", "scalar_electric"), ("S_c", "scalar_electric"), ("J_c", "vector_electric"),
                          ("V_m", "scalar_magnetic"), ("P_m", "scalar_magnetic"), ("Q_m", "scalar_magnetic"), ("B_m", "vector_magnetic"), ("H_p", "cloud")):
            try:
                t = v.m.output("var", var, "cat")
            except AnalysisBroken as ex:
                chk.bad(f"category of {var} ({lab})", "solver output", str(ex))
                continue
            chk.ob(t.op == "const" and t.args[0] == cat_ if t.op == "const" else None, f"category of {var} ({lab})", "solver output", str(t)[:80])
        # the voxel coordinates and index sets which accompany the fields
        n = [ssym(k) for k in ("nx", "ny", "nz")]
        for k, net in (("c", cn), ("m", mn)):
            pts = v.ev.ev(v.m.init("pts_net_" + k))
            want = Stack([_coord(v, a, net.idx_v) for a in range(3)], 1)
            equal(chk, f"voxel coordinates of the {'electric' if k == 'c' else 'magnetic'} fields ({lab})", pts, want, v.ev, v.m.init("pts_net_" + k))


def _coord(v, a, idx):
    """Center of the voxels along an axis."""
    n = [ssym(k) for k in ("nx", "ny", "nz")]
    d = [ssym(k) for k in ("dx", "dy", "dz")][a]
    o = [ssym(k) for k in ("cx", "cy", "cz")][a]
    x = take(nf.gflat(n, nf.ax(a), "F"), idx)
    return add(o, mul(d, add(x, HALF, neg(mul(HALF, n[a])))))


# ---------------------------------------------------------------- terminal quantities

def terminal(chk):
    chk.floor("model_configurations", 2)
    per_model(chk, _terminal, VARIANTS, EXTRA)


def _kind(sel, idx_all, idx):
    """Order in which a selection lists the voxels of a source: 'source', 'sorted', 'container', or None."""
    try:
        m = sel.mono()
        a = _ATOMS[m[0][0][0]]
    except Exception:
        return None
    if len(m[0]) != 1:
        return None
    if a.key[0] == "isin" and a.key[1] == idx_all and a.key[2] == idx:
        return "container"
    if a.key[0] == "nz":
        return _kind(a.key[1], idx_all, idx)
    if a.key[0] == "fn" and a.key[1] in ("numpy.sort", "numpy.unique") and len(a.key[2]) == 1 and not a.key[3]:
        # the positions in ascending order
        b = a.key[2][0] if isinstance(a.key[2][0], Poly) else poly(a.key[2][0])
        return "container" if _kind(b, idx_all, idx) in ("container", "sorted", "source") else None
    if a.key[0] == "pos" and a.key[1] == idx_all and a.key[2] == idx:
        return "source"
    if a.key[0] == "take":
        b = a.key[1] if isinstance(a.key[1], Poly) else poly(a.key[1])
        s = a.key[2] if isinstance(a.key[2], Poly) else poly(a.key[2])
        if _kind(b, idx_all, idx) == "container":
            sm = s.mono()
            k = _ATOMS[sm[0][0][0]] if sm and len(sm[0]) == 1 else None
            if k is not None and k.key[0] == "argsort" and _kind_values(k.key[1], idx_all, idx):
                return "sorted"
    return None


def _kind_values(p, idx_all, idx):
    """take(idx_all, isin(idx_all, idx))"""
    want = take(idx_all, poly(atom(("isin", idx_all, idx), vec=True)))
    return p == want


def _sels(p, x):
    """Selections applied to a vector in a value."""
    out = set()
    for a in nf.atoms_in(p).values():
        if a.key[0] == "take":
            b = a.key[1] if isinstance(a.key[1], Poly) else poly(a.key[1])
            if b == x:
                out.add(a.key[2] if isinstance(a.key[2], Poly) else poly(a.key[2]))
    return out


def _terminal(chk, kw):
    for lab, v in views(chk, kw):
        o = Out(chk, lab, v)
        f, _ = _facts(v)
        idx_all = {"V": v.idx["vc"], "I": v.idx["src"]}
        xs = {"V": v.state["V_vc"], "I": v.state["I_src"]}
        total, okay = [], True
        for tag, d in (("sc", "d4"), ("sv", "d5")):
            idx = vsym("idx_" + d)
            try:
                s, ts = o.get("source", tag, "S")
            except AnalysisBroken as ex:
                chk.bad(f"power of source {tag} ({lab})", "solver output", str(ex))
                okay = False
                continue
            if not isinstance(s, Poly):
                chk.undecided(f"power of source {tag} ({lab})", None, "value not interpreted")
                okay = False
                continue
            chk.ok(f"power of source {tag} is found in the output ({lab})", where(v.ev, ts, s))
            sel, order = {}, {}
            for k in "VI":
                found = _sels(s, xs[k])
                if len(found) == 1:
                    sel[k] = found.pop()
                    order[k] = _kind(sel[k], idx_all[k], idx)
            name = f"source {tag}: voltages and currents of the terminal voxels are taken in the same order ({lab})"
            if len(sel) != 2 or None in order.values():
                bad = [k for k in sel if order.get(k) is None]
                txt = "; ".join(f"{k}: {fmt(sel[k], 4)[:150]}" for k in bad)
                other = [k for k in bad if _other(sel[k], idx_all[k], idx)]
                if other:
                    chk.bad(f"source {tag}: uses the voxels of its own terminal ({lab})", where(v.ev, ts, s), txt)
                else:
                    chk.undecided(name, None, txt or "selection of the terminal voxels not found")
                okay = False
                continue
            good = order["V"] == order["I"] and order["V"] in ("source", "sorted")
            chk.ob(good, name, where(v.ev, ts, s), f"voltages in the order of the {_LONG[order['V']].format('electric voxels')}, "
                   f"currents in the order of the {_LONG[order['I']].format('sources')}")
            V, I = take(xs["V"], sel["V"]), take(xs["I"], sel["I"])  # noqa: E741
            S = vsum(mul(f, V, conj(I)))
            total.append(S)
            o.eq(f"source {tag}: power is voltage times conjugated current, summed over the terminal", ("source", tag, "S"), S)
            o.eq(f"source {tag}: current is the sum over the terminal", ("source", tag, "I"), vsum(I))
            o.eq(f"source {tag}: voltage is the mean over the terminal", ("source", tag, "V"), vsum(V), lambda g: mul(g, dmean(v, g, sel["V"])))
            for k in ("source_type", "var_type"):
                t = v.m.output("source", tag, k)
                want = {"source_type": {"sc": "current", "sv": "voltage"}[tag], "var_type": v.m.src_var}[k]
                chk.ob(None if t.op != "const" else t.args[0] == want, f"source {tag}: {k} is the one of the input ({lab})", "solver output", str(t)[:80])
        if okay:
            o.eq("total power is the sum over all sources", ("integral", "S_total"), add(*total))
            try:
                cv, tc = o.get("conv")
                p = _final_power(cv)
            except AnalysisBroken:
                p, tc = None, None
            if p is None:
                chk.undecided(f"power used for the convergence ({lab})", None, "convergence data not interpreted")
            else:
                equal(chk, f"power used for the convergence is the total power of the sources ({lab})", p, add(*total), v.ev, tc)


_LONG = {"source": "source domains", "sorted": "voxel indices", "container": "{}"}


def _other(sel, idx_all, idx):
    """Selection of the voxels of another index set than the one of the source."""
    a = sel.mono()
    a = _ATOMS[a[0][0][0]] if a and len(a[0]) == 1 else None
    if a is None or a.key[0] not in ("isin", "pos"):
        return False
    return isinstance(a.key[1], Poly) and isinstance(a.key[2], Poly) and all(
        _ATOMS[i].key[0] in ("sym", "cat", "nz") for p in a.key[1:3] for m in p.t for i, _ in m)


def dmean(v, g, sel):
    """Number of terminal voxels, as counted in the mean."""
    for m in g.t:
        for i, e in m:
            if _ATOMS[i].key[0] == "len" and e == -1:
                return poly(_ATOMS[i])
    return vlen(sel) if vlen(sel) is not None else ONE


def _final_power(cv):
    a = cv.mono() if isinstance(cv, Poly) else None
    a = _ATOMS[a[0][0][0]] if a and len(a[0]) == 1 else None
    if a is None or a.key[0] != "op" or a.key[1] != "dict":
        return None
    for kv in a.key[2]:
        if "power_final" in str(kv[0]) and isinstance(kv[1], Poly):
            return kv[1]
    return None


# ---------------------------------------------------------------- field on the point cloud

def cloud(chk):
    chk.floor("model_configurations", 2)
    base = [dict(BASE, biot=b) for b in ("voxel", "face")]
    per_model(chk, _cloud, base, [dict(x, orient="anisotropic", var="distributed", src_var="distributed") for x in base])


def _cloud(chk, kw):
    for lab, v in views(chk, kw):
        o = Out(chk, lab, v)
        try:
            got, t = o.get("var", "H_p", "var")
        except AnalysisBroken as ex:
            chk.bad(f"field of the point cloud ({lab})", "solver output", str(ex))
            continue
        pt = {a.id: a for a in nf.atoms_in(got).values() if a.key[0] == "op" and a.key[1] == "elem"} if isinstance(got, Stack) else {}
        if len(pt) != 1:
            chk.undecided(f"field of the point cloud ({lab})", None, "points not interpreted")
            continue
        el = list(pt.values())[0]
        chk.ob(el.key[2] == vsym("pts_cloud") if isinstance(el.key[2], Poly) else None, f"field at each point of the cloud ({lab})",
               where(v.ev, t, ZERO), fmt(poly(el), 3)[:100])
        pnt = [nf.comp(poly(el), k) for k in range(3)]
        cn, mn = Net(v, "c"), Net(v, "m")
        # currents
        if kw["biot"] == "voxel":
            src = [_coord(v, a, cn.idx_v) for a in range(3)]
            cur = [mul(cn.d[a], voxel_mean(cn, mul(cn.ind[a], cn.I))) for a in range(3)]
        else:
            src = [mul(HALF, cn.grad(_coord(v, a, cn.idx_v), absolute=True)) for a in range(3)]
            cur = [mul(cn.d[a], cn.ind[a], cn.I) for a in range(3)]
        r = [sub(pnt[a], src[a]) for a in range(3)]
        n3 = inv(nf.power(nf.sqrt(add(*[mul(x, x) for x in r])), 3))
        hc = []
        for a in range(3):
            p, q = (a + 1) % 3, (a + 2) % 3
            hc.append(mul(inv(mul(c(4), PI)), vsum(mul(n3, sub(mul(cur[p], r[q]), mul(cur[q], r[p]))))))
        # magnetic charges
        src = [_coord(v, a, mn.idx_v) for a in range(3)]
        r = [sub(src[a], pnt[a]) for a in range(3)]
        n3 = inv(nf.power(nf.sqrt(add(*[mul(x, x) for x in r])), 3))
        hm = [mul(inv(mul(c(4), PI, MU0)), vsum(mul(n3, mn.div(mn.I), r[a]))) for a in range(3)]
        equal(chk, f"field: Biot-Savart of the currents plus field of the magnetic charges ({lab})", got,
              Stack([add(hc[a], hm[a]) for a in range(3)], got.axis), v.ev, t, known={el.id})
