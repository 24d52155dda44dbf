"""Entries of the long-range operators: integrals of 1/(4 pi r) between voxels (analytical and approximated)."""

from fractions import Fraction

from sa import kernel as K
from sa.laws import poly
from sa.report import parallel
from sa.engine import Engine
from sa.scenario import to_term
from sa.term import walk, sym
from checks import couplings as cp
from checks.couplings import Site
from checks.solver import BASE, views, repo

D = ("dx", "dy", "dz")
STEP = {Fraction(-1): 1, Fraction(0): -2, Fraction(1): 1}


class _Quiet:
    """The kernels are located through the rules of the couplings; these are decided elsewhere."""
    thorough = False
    samples = []

    def ob(self, cond, *a):
        return cond

    def __getattr__(self, k):
        return lambda *a, **q: None


def kernels(chk):
    """Kernels of all the long-range operators."""
    conf = [dict(BASE, split=False)]
    if chk.thorough:
        conf += [dict(BASE, split=True), dict(BASE, mult_type="direct"), dict(BASE, orient="anisotropic", var="distributed")]
    parallel(chk, _body, conf)
    chk.floor("kernels", 2)


def _body(part, kw):
    for lab, v in views(part, kw):
        if v.dc:
            continue
        found = _located(v, lab)
        part.ob(len(found) >= 2 or None, f"kernels of the inductances, the potentials and the coupling ({lab})", None, f"{len(found)} kernels")
        for name, nd, k in found:
            # the array of the kernel in the value graph
            want = poly(k)
            ts = [t for t in walk(v.m.closure("sys")) if t.op in ("call", "setitem", "bin", "item") and v.ev.memo.get(t.cid) == want]
            where = Site(v.ev, v.m.closure("sys"), want)
            if not ts:
                part.undecided(f"{name} kernel", None, "no construct of the value graph")
                continue
            part.count("kernels")
            near = decide(part, name, ts, nd, where)
            if name == "inductance" and near is not None:
                _self(part, near)


def _self(chk, near):
    """The self coefficient of the preconditioner is the integral of a voxel with itself."""
    rep = repo()
    mod, fn = "pypeec.lib_solver.system_tensor", "get_green_self"
    if (mod, fn) not in {(m.name, q) for m, q, _ in rep.functions()}:
        return
    eng = Engine(rep)
    st = eng.state.copy()
    try:
        p = K.Eval().sc(eng.run(mod, fn, [to_term(eng, st, [sym(d) for d in D])], state=st).frozen())

        def origin(key):
            if key[0] == "lin":
                return K.pmul(K.num(key[2]), K.at("s", D[key[1]]))
            return None
        want = K.rename(near, origin)
    except (K.Unparsed, K.Mismatch, AttributeError, TypeError, ValueError, KeyError, IndexError) as ex:
        chk.undecided("self coefficient", fn, str(ex))
        return
    chk.ob(p == want, "self coefficient: exact integral between a voxel and itself", f"{fn}()", f"code: {K.show(p)[:300]} / specification: {K.show(want)[:300]}")


def _located(v, lab):
    out, seen = [], set()
    keep = cp._shape_of_kernel

    def hook(chk, name, k, where, signed):
        if k is not None and (signed, k.id) not in seen:
            seen.add((signed, k.id))
            out.append((name.split(" kernel")[0].split(" operator")[0], 3 if signed else 1, k))
        return keep(chk, name, k, where, signed)
    cp._shape_of_kernel = hook
    try:
        cp._coupling(_Quiet(), lab, v)
    finally:
        cp._shape_of_kernel = keep
    return out


# ---------------------------------------------------------------- values

def _r2(shift=None):
    """Squared distance, shifted along an axis."""
    p = K.ZERO
    for a in range(3):
        x = K.at("lin", a, shift[1] if shift and shift[0] == a else Fraction(0))
        p = K.padd(p, K.pmul(x, x))
    return p


def _inv4pi(r2):
    return K.pmul(K.pmul(K.num(Fraction(1, 4)), K.pinv(K.at("s", "pi"))), K.pinv(K.psqrt(r2)))


def _dd(*pows):
    p = K.ONE
    for a, e in enumerate(pows):
        p = K.pmul(p, K.ppow(K.at("s", D[a]), Fraction(e)))
    return p


def remote(nd, n):
    """Approximation for remote voxels, and the scale of the exact integral."""
    if nd == 1:
        return K.pmul(_dd(2, 2, 2), _inv4pi(_r2())), K.ONE
    sign = K.num(-1 if n == 1 else 1)
    scale = K.pmul(sign, _dd(*[-2 if a == n else -1 for a in range(3)]))
    h = Fraction(1, 2)
    diff = K.padd(_inv4pi(_r2((n, -h))), K.pmul(K.num(-1), _inv4pi(_r2((n, h)))))
    pw = K.pmul(scale, _dd(*[1 if a == n else 2 for a in range(3)]))
    return K.pmul(pw, diff), scale


def _offsets(p, m):
    off = {}
    for a in K.atoms(K.P({m: Fraction(1)})):
        k = K.key_of(a)
        if k[0] == "lin":
            off.setdefault(k[1], set()).add(k[2])
        elif k[0] == "i":
            raise K.Unparsed("index without the voxel size")
    return off


def _primitive(p):
    """{offsets: function of x, y, z}"""
    groups = {}
    cache = {}
    for m, k in p.t.items():
        off = _offsets(p, m)
        if set(off) != {0, 1, 2} or any(len(x) > 1 for x in off.values()):
            raise K.Unparsed("a term mixes several positions")
        o = tuple(next(iter(off[a])) for a in range(3))
        groups.setdefault(o, {})[m] = k

    def name(key):
        if key[0] == "lin":
            return K.at("v", "xyz"[key[1]])
        return None
    for o, t in groups.items():
        r = K.ZERO
        for m, k in t.items():
            x = K.P({(): k})
            for a, e in m:
                if a not in cache:
                    cache[a] = K.rename(K.P({((a, 1),): Fraction(1)}), name)
                x = K.pmul(x, K.ppow(cache[a], Fraction(e)))
            r = K.padd(r, x)
        groups[o] = r
    return groups


def exact(p, nd, n):
    """Text of the difference with the exact integral, or None."""
    far, scale = remote(nd, n)
    g = _primitive(p)
    one = (Fraction(1),) * 3
    if one not in g:
        return f"the integral is not a second difference over the voxels: offsets {sorted(str(x) for x in {o[0] for o in g})}"
    f = g[one]
    for o in {o for o in g} | {(a, b, c) for a in STEP for b in STEP for c in STEP}:
        w = 1
        for x in o:
            w *= STEP.get(x, 0)
        if g.get(o, K.ZERO) != K.pmul(K.num(w), f):
            return f"weight of the primitive at the offset ({', '.join(str(x) for x in o)})"
    x = [K.at("v", c) for c in "xyz"]
    r2 = K.padd(K.padd(K.pmul(x[0], x[0]), K.pmul(x[1], x[1])), K.pmul(x[2], x[2]))
    want = K.pmul(scale, _inv4pi(r2))
    orders = [2, 2, 2]
    if nd == 3:
        orders[n] = 1
        want = K.pmul(K.num(-1), want)
    if not K.derivative_is(f, orders, want):
        d = " ".join(f"d{'xyz'[a]}^{o}" for a, o in enumerate(orders))
        return f"{d} of the primitive is not {K.show(want)}"
    return None


def _singular(p, safe):
    """Functions which are not finite where two voxels are aligned, without a replacement."""
    out = []
    for a in sorted(K.atoms(p)):
        k = K.key_of(a)
        v = K.P({((a, 1),): Fraction(1)})
        kind = {"log": "inf", "atan": "nan", "inv": "inf"}.get(k[0])
        if kind and (v, kind) not in safe:
            out.append(v)
    for m in p.t:
        for a, e in m:
            if e < 0 and K.key_of(a)[0] == "sqrt":
                v = K.P({((a, -1),): Fraction(1)})
                if (v, "inf") not in safe:
                    out.append(v)
    return out


# ---------------------------------------------------------------- regions

def _side(c):
    """Regions (L: closer than the threshold, E: at the threshold, G: farther) where a condition holds."""
    dist = K.pmul(K.psqrt(_r2()), K.pinv(K.at("max", tuple(sorted(K.at("s", d).key() for d in D)))))
    thr = K.at("s", "integral_simplify")
    if c.op not in ("<", "<="):
        raise K.Unparsed("condition " + c.op)
    if not c.q.t or not c.p.t:
        raise K.Unparsed("condition")
    x, w = K.pmul(c.p, K.pinv(c.q)), K.pmul(dist, K.pinv(thr))
    if x in (w, K.pmul(w, w)):
        r = {"L"} | ({"E"} if c.op == "<=" else set())
    elif K.pinv(x) in (w, K.pmul(w, w)) and len(x.t) == 1:
        r = {"G"} | ({"E"} if c.op == "<=" else set())
    else:
        return None
    return set("LEG") - r if c.neg else r


def decide(chk, name, ts, nd, where):
    val, ev, why = None, None, ""
    for t in ts:
        ev = K.Eval()
        try:
            val = ev.ev(t)
            break
        except K.Mismatch as ex:
            chk.bad(f"{name} kernel: arrangement of the values", where, ex.args[0])
            return
        except (K.Unparsed, AttributeError, TypeError, ValueError, KeyError, IndexError, ZeroDivisionError) as ex:
            why = str(ex)
    if not isinstance(val, K.Arr) or val.vox() != ["g"] and [d for d in val.dims if not isinstance(d, int)] != ["g"]:
        chk.undecided(f"{name} kernel", None, why or "not an array of the voxel grid")
        return
    if not chk.ob(len(val.vals) == nd, f"{name} kernel: number of components", where, str(len(val.vals))):
        return
    chk.ob(val.perm in (None, (0, 1, 2)), f"{name} kernel: axes of the array", where, str(val.perm))
    near = None
    for n, v in enumerate(val.vals):
        lab = f"{name} kernel" + (f", component {n}" if nd > 1 else "")
        try:
            near = _component(chk, lab, v, nd, n, where, ev.safe)
        except (K.Unparsed, RecursionError) as ex:
            chk.undecided(lab, None, str(ex))
            near = None
    return near if nd == 1 else None


def _component(chk, lab, v, nd, n, where, safe):
    parts = v.parts if isinstance(v, K.PW) else [(None, v)]
    reg = dict.fromkeys("LEG")
    for c, p in parts:
        s = set("LEG") if c is None else _side(c)
        if s is None:
            chk.bad(f"{lab}: choice of the approximation", where,
                    f"code: {K.show(c.p)} {c.op} {K.show(c.q)} / specification: distance between the centers over the largest voxel dimension, compared with integral_simplify")
            return
        for x in s:
            if c is None or p is not None:
                reg[x] = p
    names = {"L": "closer than the threshold", "E": "at the threshold", "G": "beyond the threshold"}
    far, _ = remote(nd, n)
    done = {}
    for x in "LEG":
        p = reg[x]
        if not chk.ob(p is not None, f"{lab}: every voxel has a value ({names[x]})", where, "not set"):
            continue
        if p.key() in done and done[p.key()]:
            chk.ok(f"{lab}: value {names[x]}", where)
            continue
        if p == far:
            chk.ob(x == "G", f"{lab}: value {names[x]}", where, "the approximation is used (it is singular for the self term)")
            continue
        if len(p.t) <= 8 and not any(K.key_of(a)[0] in ("log", "atan") for a in K.atoms(p)):
            chk.bad(f"{lab}: value {names[x]}", where, f"code: {K.show(p)[:400]} / specification: {K.show(far)}")
            continue
        why = exact(p, nd, n)
        done[p.key()] = why is None
        chk.ob(why is None, f"{lab}: value {names[x]}", where, why or "exact integral")
        if why is None:
            sing = _singular(p, safe)
            chk.ob(not sing, f"{lab}: the terms of the primitive are finite for aligned voxels", where, "not replaced: " + (K.show(sing[0])[:200] if sing else ""))
    return reg["L"] if reg["L"] is not None and done.get(reg["L"].key()) else None
