"""Voxelization: which voxels belong to the domains, for each type of mesher."""

from fractions import Fraction

from sa import nf
from sa.nf import add, sub, mul, inv, neg, const
from sa.arrays import Eval, Unknown, Mismatch, Part, Arr, Seq, coll, linear, compare, S, key, poly, atom, f_and, f_or, f_not, var, is_f, scalar, Poly, _reduce, unkey
from sa import arrays
from sa.term import sym, cval, is_const, mk, walk
from checks.mesher import Mesh, T3, S3, HALF, XYZ, attempt, entries
from checks.flow import Guards
from checks.inputs import opaque
from sa import sets

OPAQUE = {"term", "method", "attr", "item", "phi", "value", "ext", "unravel", "truth", "cmp", "at", "len", "elem"}


# ---------------------------------------------------------------- canonical form

class Canon:
    """Canonical form of the values and of the formulas: the bound variables are named after their range."""

    def __init__(self, ev):
        self.ev = ev
        self.opaque = set()

    def __call__(self, x):
        if isinstance(x, Poly):
            x = x.key()
        if isinstance(x, frozenset):
            return ("set",) + tuple(sorted((self(y) for y in x), key=repr))
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "P":
            return self.poly(x[1])
        if x and x[0] == "ix" and len(x) == 3:
            return ("v", self(x[2]))
        if x and x[0] == "range" and len(x) == 3:
            return ("v", self(x[2]))
        if x and x[0] == "el" and len(x) == 2 and x[1] in self.ev.extents:
            return ("v", self(self.ev.extents[x[1]]))
        if x and x[0] in OPAQUE:
            self.opaque.add(x[0])
        if x and x[0] == "zero" and len(x) == 2:
            p = self(x[1])
            q = ("P", tuple((m, (-c[0], -c[1])) for m, c in p[1])) if p[0] == "P" else p
            return ("zero", min(p, q, key=repr))
        if x and x[0] in ("all", "any") and len(x) == 3:
            return (x[0], self(x[1]), tuple(sorted((tuple(sorted(a, key=repr)) for a in absorb(self.cond(x[2]))), key=repr)))
        if x and x[0] in ("and", "or") and len(x) == 2:
            return (x[0], tuple(sorted({repr(y): y for y in (self(y) for y in x[1])}.values(), key=repr)))
        return tuple(self(y) for y in x)

    def poly(self, items):
        out = {}
        for mono, c in items:
            fs = {}
            for n, e in mono:
                a = self(nf._ATOMS[n].key)
                fs[a] = fs.get(a, 0) + e
            k = tuple(sorted(((a, e) for a, e in fs.items() if e), key=repr))
            old = out.get(k, (0, 0))
            out[k] = (old[0] + c[0], old[1] + c[1])
        return ("P", tuple(sorted(((k, c) for k, c in out.items() if c[0] or c[1]), key=repr)))

    def cond(self, f):
        """Disjunctive form."""
        if f is True:
            return {frozenset()}
        if f is False:
            return set()
        if f[0] == "or":
            return set().union(*[self.cond(x) for x in f[1]])
        if f[0] == "and":
            out = {frozenset()}
            for x in f[1]:
                out = {a | b for a in out for b in self.cond(x)}
            return out
        h = distance(f)
        if h is not f:
            return self.cond(h)
        g = boolean(f)
        return self.cond(g) if isinstance(g, bool) else {frozenset([self(g)])}

    def elements(self, a):
        """Elements of a collection: {value: alternatives}."""
        out = {}
        for _, v, c in a.gen():
            out.setdefault(self(v), set()).update(self.cond(c))
        return {k: absorb(v) for k, v in out.items() if v}


def distance(f):
    """Comparisons of an absolute value: |x| > d is x > d or -x > d."""
    if f[0] in ("pos", "nneg") and isinstance(f[1], Poly):
        for mono, c in f[1].t.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in arrays.ABS and not c[1]:
                x = arrays.ABS[mono[0][0]]
                rest = sub(f[1], mul(const(c[0]), poly(nf._ATOMS[mono[0][0]])))
                r = [(f[0], add(rest, mul(const(s * c[0]), x))) for s in (1, -1)]
                return f_or(*r) if c[0] > 0 else f_and(*r)
    return f


def boolean(f):
    """Comparisons of a mask (zero or one)."""
    n, g = False, f
    while g[0] == "not":
        n, g = not n, g[1]
    if g[0] not in ("zero", "pos", "nneg") or not isinstance(g[1], Poly):
        return f
    c0, c1, mask = 0, 0, None
    for mono, c in g[1].t.items():
        if c[1]:
            return f
        if not mono:
            c0 = c[0]
        elif len(mono) == 1 and mono[0][1] == 1 and mask is None and nf._ATOMS[mono[0][0]].key[0] == "cover":
            mask, c1 = poly(nf._ATOMS[mono[0][0]]), c[0]
        else:
            return f
    if mask is None:
        return f
    r = [{"zero": x == 0, "pos": x > 0, "nneg": x >= 0}[g[0]] != n for x in (c0, c0 + c1)]
    return r[0] if r[0] == r[1] else ("zero", mask) if r[0] else ("not", ("zero", mask))


def absorb(alts):
    return {a for a in alts if not any(b < a for b in alts)}


def text(k):
    """Readable form of a canonical value."""
    if isinstance(k, tuple) and k and k[0] == "P":
        out = []
        for m, c in k[1]:
            fs = [text(a) + (f"^{e}" if e != 1 else "") for a, e in m]
            n = c[0] if not c[1] else f"({c[0]}+{c[1]}j)"
            out.append("*".join(([str(n)] if n != 1 or not fs else []) + fs))
        return " + ".join(out) or "0"
    if isinstance(k, tuple) and k and k[0] == "sym":
        return str(k[1])
    if isinstance(k, tuple) and k and k[0] == "v":
        return f"i[{text(k[1])}]"
    if isinstance(k, tuple):
        return f"{k[0]}<{', '.join(text(x) for x in k[1:])}>" if k and isinstance(k[0], str) else "(" + ", ".join(text(x) for x in k) + ")"
    return str(k)


def compare_sets(chk, can, have, want):
    """Differences between two collections."""
    bad = []
    chk.count("voxel_sets")
    for v in want:
        if v not in have:
            bad.append(f"missing voxels: {text(v)}")
        elif have[v] != want[v]:
            bad.append(f"condition of the voxels {text(v)}: {' or '.join(sorted(' and '.join(sorted(text(x) for x in a)) for a in have[v]))[:220]}")
    bad += [f"unexpected voxels: {text(v)}" for v in have if v not in want]
    if bad and can.opaque:
        raise Unknown(f"{bad[0][:200]} ({', '.join(sorted(can.opaque))})")
    return bad


def vectors(chk, m, ev, can, want, lab, site):
    for tag, exp in want.items():
        def fct(tag=tag, exp=exp):
            chk.count("geometry_identities", 3)
            can.opaque.clear()
            have = [can(scalar(x)) for x in ev.items(ev.ev(m.geom[tag]))]
            out = [f"{tag}[{k}] = {text(have[k])[:150]}, expected {text(can(exp[k]))[:150]}" for k in range(3) if len(have) != 3 or have[k] != can(exp[k])]
            if out and can.opaque:
                raise Unknown(out[0])
            return out
        attempt(chk, f"{NAMES[tag]} ({lab})", site, fct)


NAMES = {"n": "number of voxels", "d": "size of the voxels", "c": "center of the voxel structure", "s": "size of the voxel structure"}


def members(chk, m, ev, can, want, lab, site):
    """Voxels of the domains: want = {domain: [(value, condition)]}."""
    def tags():
        have = set(entries(m.geom["domain_def"]))
        return [] if have == set(want) else [f"domains: {sorted(have)}, expected {sorted(want)}"]
    attempt(chk, f"domains of the voxel structure ({lab})", site, tags)
    for a, exp in want.items():
        def fct(a=a, exp=exp):
            v = ev.ev(entries(m.geom["domain_def"])[a])
            can.opaque.clear()
            have = can.elements(v)
            seen = set(can.opaque)
            w = {}
            for val, c in exp:
                w.setdefault(can(val), set()).update(can.cond(c))
            w = {k: absorb(x) for k, x in w.items() if x}
            can.opaque = seen
            return compare_sets(chk, can, have, w)
        attempt(chk, f"voxels of the domain {a} ({lab})", site, fct)


def raised(m, ev, can, site, skip=()):
    """Conditions of the errors of a module: [(event, formula)]."""
    out = []
    for e in m.raises():
        if not e.where().startswith(site) or not e.facts:
            continue
        c, p = e.facts[-1]
        t = m.eng.freeze(c, m.res.state)
        if t.op == "handler" or any(s(t) for s in skip):
            continue
        f = ev.formula(t)
        out.append((e, f if p else f_not(f)))
    return out


def spread(f):
    """Bounds of reductions: min > x is all > x."""
    if isinstance(f, bool):
        return f
    if f[0] in ("and", "or"):
        return (f_and if f[0] == "and" else f_or)(*[spread(x) for x in f[1]])
    if f[0] == "not":
        return f_not(spread(f[1]))
    if f[0] in ("pos", "nneg"):
        for mono, c in f[1].t.items():
            if len(mono) == 1 and mono[0][1] == 1 and nf._ATOMS[mono[0][0]].key[0] in ("min", "max"):
                a = nf._ATOMS[mono[0][0]]
                kind = a.key[0]
                one = poly(a)
                rest = sub(f[1], mul(const(c[0]), one))
                up = (c[0] > 0) == (kind == "min")
                out = []
                for v, cond, b in a.key[1]:
                    g = (f[0], add(rest, mul(const(c[0]), unkey(v))))
                    if cond is not True:
                        return f
                    out.append((("all" if up else "any"), (b, cond), g) if b else g)
                return f_and(*out) if up else f_or(*out)
    return f


def rejected(chk, m, ev, can, site, exact, lab, skip=()):
    """Every expected condition leads to an error: exact = {name: formula}."""
    def fct(name, f):
        def run():
            chk.count("rejections")
            can.opaque.clear()
            want = absorb(can.cond(f))
            for g in have():
                if absorb(can.cond(g)) == want:
                    return []
            rest = [g for g in have()]
            alts = set().union(*[absorb(can.cond(g)) for g in rest]) if rest else set()
            if want <= alts:
                return []
            if can.opaque:
                raise Unknown("condition of the errors")
            return [f"not rejected: {name}"]
        return run

    def have():
        return [spread(f) for _, f in raised(m, ev, can, site, skip)]
    for name, f in exact.items():
        attempt(chk, f"{name} ({lab})", site, fct(name, f))


# ---------------------------------------------------------------- indices

def indices(chk):
    chk.count("model_configurations")
    site = "pypeec/lib_mesher/mesher_voxel.py"
    m = Mesh("voxel", {"param": {"n": T3("n"), "d": T3("d"), "c": T3("c")}, "domain_index": {"a": sym("ia"), "b": sym("ib")}})
    ev = Eval({f"i{k}": Arr((S("N" + k),), lambda ix, k=k: poly(atom(("index", k, ix[0].key())))) for k in "ab"})
    can = Canon(ev)
    n = S3("n")
    vectors(chk, m, ev, can, {"n": n, "d": S3("d"), "c": S3("c"), "s": [mul(S("n" + k), S("d" + k)) for k in XYZ]}, "voxel", site)

    def gen(k):
        return poly(atom(("index", k, var(0, S("N" + k)).key())))
    members(chk, m, ev, can, {k: [(gen(k), True)] for k in "ab"}, "voxel", site)

    def uniq(t):
        return any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].endswith("unique") for x in walk(t))
    errors = []
    for e in m.raises():
        if e.where().startswith(site) and e.facts:
            c, p = e.facts[-1]
            f = sets.cond(m.eng.freeze(c, m.res.state))
            errors.append(f if p else sets.neg(f))
    for k in "ab":
        def fct(k=k):
            chk.count("rejections")
            d = sets.arr(sym("i" + k)).parts[0][1]
            given = ("and", [sets.neg(f) for f in errors])
            if sets.implies(given, ("uniq", d)):
                return []
            if any(opaque(f) for f in errors if uniq_formula(f)) or not errors:
                raise Unknown("conditions of the errors")
            return ["duplicated indices are not rejected"]
        attempt(chk, f"duplicated indices are rejected: {k} (voxel)", site, fct)
    nv = mul(*n)
    for k in "ab":
        b = ((("range", 0, S("N" + k).key()),), True)
        lo, hi = ("nneg", gen(k)), ("pos", sub(nv, gen(k)))
        rejected(chk, m, ev, can, site, {f"indices outside the voxel structure are rejected: {k}": f_or(f_not(("all", b, lo)), f_not(("all", b, hi)))}, "voxel", skip=[uniq])


def uniq_formula(f):
    return isinstance(f, (tuple, list)) and (f[:1] == ("uniq",) or any(uniq_formula(x) for x in f))


# ---------------------------------------------------------------- images

COLORS = {"a": ["k1", "k2"], "b": ["k3"]}
STACK = [("L1", ["f1", "f2"]), ("L2", ["f3"])]


def image_eval(h, w, nc):
    ev = Eval({c: Arr((nc,), lambda ix, c=c: poly(atom(("color", c, ix[0].key())))) for cs in COLORS.values() for c in cs})

    def opened(e, t, pos, kw):
        return poly(atom(("image", pos[0].args[0]))) if pos and pos[0].op == "sym" else None

    def convert(e, base, pos, kw, t):
        f = e.ev(base)
        mode = pos[0] if pos else kw.get("mode")
        if not isinstance(f, Poly) or mode is None or not is_const(mode):
            return None
        chan = {"RGBA": 4, "RGB": 3, "L": 1}.get(cval(mode))
        if chan != 4:
            raise Mismatch(f"the images are converted to {cval(mode)} (the colors have four values)")
        return Arr((h, w, const(4)), lambda ix: poly(atom(("pix", f.key()) + tuple(i.key() for i in ix))))
    ev.calls["PIL.Image.open"] = opened
    ev.methods["convert"] = convert
    return ev


def images(chk):
    site = "pypeec/lib_mesher/mesher_png.py"
    nx, ny = S("nx"), S("ny")
    spec = {"param": {"d": T3("d"), "c": T3("c"), "size": [sym("nx"), sym("ny")]}, "domain_color": {a: [sym(c) for c in cs] for a, cs in COLORS.items()},
            "layer_stack": [{"n_layer": sym(n), "filename_list": [sym(f) for f in fs]} for n, fs in STACK]}
    chk.count("model_configurations")
    m = Mesh("png", spec)
    ev = image_eval(ny, nx, const(4))
    can = Canon(ev)
    n = [nx, ny, add(S("L1"), S("L2"))]
    vectors(chk, m, ev, can, {"n": n, "d": S3("d"), "c": S3("c"), "s": [mul(x, S("d" + k)) for x, k in zip(n, XYZ)]}, "png", site)
    ix, iy = var(0, nx), var(1, ny)
    want = {}
    for a, cs in COLORS.items():
        want[a] = []
        z0 = const(0)
        for lay, files in STACK:
            iz = var(2, S(lay))
            val = linear([ix, iy, add(z0, iz)], [nx, ny, n[2]], "F")
            for f in files:
                img = poly(atom(("image", f))).key()
                for c in cs:
                    row = sub(sub(ny, const(1)), iy)
                    want[a].append((val, f_and(*[compare("==", poly(atom(("pix", img, row.key(), ix.key(), const(q).key()))), poly(atom(("color", c, const(q).key())))) for q in range(4)])))
            z0 = add(z0, S(lay))
    members(chk, m, ev, can, want, "png", site)
    # rejected images
    def fine():
        bad = [f"{e.where()}: {str(f)[:100]}" for e, f in raised(m, ev, can, site) if f is not False]
        return [f"valid images are rejected: {x}" for x in bad]
    attempt(chk, "images with the size of the voxel structure are accepted (png)", site, fine)
    ev2 = image_eval(S("H"), S("W"), const(4))
    rejected(chk, m, ev2, Canon(ev2), site, {"images with another size are rejected": f_not(f_and(compare("==", S("W"), nx), compare("==", S("H"), ny)))}, "png")
    ev3 = image_eval(ny, nx, S("NC"))
    rejected(chk, m, ev3, Canon(ev3), site, {"colors without four values are rejected": f_not(compare("==", S("NC"), const(4)))}, "png")


# ---------------------------------------------------------------- bounds of a voxel structure

def grid(lo, hi, d):
    """Number, size, and center of the voxels filling a box."""
    n = [poly(atom(("rint", mul(sub(b, a), inv(x)).key()))) for a, b, x in zip(lo, hi, d)]
    d = [mul(sub(b, a), inv(x)) for a, b, x in zip(lo, hi, n)]
    c = [mul(HALF, add(a, b)) for a, b in zip(lo, hi)]
    return n, d, c


def minmax(kind, vals):
    return _reduce(kind, [(v, True, ()) for v in vals])


# ---------------------------------------------------------------- STL files

def unchain(t):
    """Attributes and items of an object built step by step."""
    at, it = {}, {}
    while t.op in ("setattr", "setitem"):
        k = t.args[1]
        k = cval(k) if hasattr(k, "op") and is_const(k) else k
        (at if t.op == "setattr" else it).setdefault(k, t.args[2])
        t = t.args[0]
    return t, at, it


class Vtk:
    """Meshes and grids."""

    def __init__(self, ev):
        self.ev = ev
        self.meshes = {}
        self.masks = {}
        ev.calls["pyvista.read"] = self.read
        ev.methods.update(scale=self.move("scale"), translate=self.move("translate"), select_enclosed_points=self.select, view=self.view, astype=self.view, extract_points=self.extract, cast_to_unstructured_grid=self.same)
        ev.attrs["bounds"] = self.bounds
        self.grids = {}

    def read(self, ev, t, pos, kw):
        return poly(atom(("mesh", pos[0].args[0]))) if pos and pos[0].op == "sym" else None

    def move(self, kind):
        def fct(ev, base, pos, kw, t):
            b = ev.ev(base)
            if not isinstance(b, Poly) or not b.mono():
                return None
            a = nf._ATOMS[b.mono()[0][0][0]].key
            if a[0] not in ("mesh", "moved"):
                return None
            x = ev.ev(pos[0])
            x = [key(scalar(y)) for y in x.items] if isinstance(x, Seq) else [key(scalar(x))]
            x = x * 3 if len(x) == 1 else x
            return poly(atom(("moved", a, kind, tuple(x))))
        return fct

    def bounds(self, ev, base, t):
        b = ev.ev(base)
        if not isinstance(b, Poly) or not b.mono():
            return None
        a = nf._ATOMS[b.mono()[0][0][0]].key
        if a[0] in ("mesh", "moved"):
            return Seq([poly(atom(("bound", a, w, k))) for k in XYZ for w in ("min", "max")])
        return None

    def same(self, ev, base, pos, kw, t):
        return self.grid(base)

    def grid(self, t):
        """Regular grid."""
        ev = self.ev
        while t.op == "call" and t.args[0].op in ("attr", "bmeth") and t.args[0].args[1] in ("cast_to_unstructured_grid", "copy"):
            t = t.args[0].args[0]
        root, at, it = unchain(t)
        if root.op != "call" or root.args[0].op != "ext" or root.args[0].args[0].split(".")[-1] not in ("ImageData", "UniformGrid"):
            raise Unknown("grid")
        at = {**dict(root.args[2]), **at}
        g = ("grid",) + tuple(tuple(key(scalar(x)) for x in ev.items(ev.ev(at[k]))) for k in ("origin", "dimensions", "spacing"))
        self.grids[g] = {k: ev.ev(v) for k, v in it.items()}
        self.grids[g]["#"] = [[scalar(x) for x in ev.items(ev.ev(at[k]))] for k in ("origin", "dimensions", "spacing")]
        return poly(atom(g))

    def select(self, ev, base, pos, kw, t):
        b = self.grid(base)
        g = nf._ATOMS[b.mono()[0][0][0]].key
        surf = ev.ev(pos[0] if pos else kw["surface"])
        a = nf._ATOMS[surf.mono()[0][0][0]].key
        opts = {k: v for k, v in kw.items() if k != "surface"}
        inside = cval(opts["inside_out"]) if "inside_out" in opts and is_const(opts["inside_out"]) else False
        tol = key(ev.ev(opts["tolerance"])) if "tolerance" in opts else key(const(Fraction(1, 1000)))
        k = ("selected", g, a, bool(inside), tol)
        self.masks[k] = True
        return poly(atom(k))

    def view(self, ev, base, pos, kw, t):
        if base.op == "item" and is_const(base.args[1]) and cval(base.args[1]) == "SelectedPoints":
            b = ev.ev(base.args[0])
            if isinstance(b, Poly) and b.mono() and nf._ATOMS[b.mono()[0][0][0]].key[0] == "selected":
                k = nf._ATOMS[b.mono()[0][0][0]].key
                d = poly(atom(("points", k[1])))
                return Arr((d,), lambda ix: ("atom", ("inside", k, ix[0].key())))
        return ev.ev(base) if t.args[0].args[1] == "astype" else None

    def extract(self, ev, base, pos, kw, t):
        b = self.grid(base)
        g = nf._ATOMS[b.mono()[0][0][0]].key
        x = ev.ev(pos[0] if pos else kw["ind"])
        if kw.keys() - {"ind"}:
            raise Unknown("options of the selection")
        self.last = (g, x)
        sel = x.fn((S("#point"),)) if isinstance(x, Arr) else None
        if not is_f(sel):
            raise Unknown("selected points")
        return poly(atom(("extracted", g, sel)))


def inside(sel):
    """Some point of the voxel is selected; the cell is generic."""
    return ("atom", ("touched", sel))


def stl_eval():
    ev = Eval({})
    v = Vtk(ev)
    old = ev._ev_item

    def item(t):
        k = t.args[1]
        if is_const(k) and isinstance(cval(k), str):
            try:
                b = ev.ev(t.args[0])
            except Unknown:
                b = None
            if isinstance(b, Poly) and b.mono() and nf._ATOMS[b.mono()[0][0][0]].key[0] == "extracted":
                _, g, sel = nf._ATOMS[b.mono()[0][0][0]].key
                data = v.grids[g].get(cval(k))
                if not isinstance(data, Arr) or len(data.shape) != 1:
                    raise Unknown("data of the grid")
                d = data.shape[0]
                # the voxels are the cells of the grid, with at least one selected point
                some = ("any", ((("range", 0, poly(atom(("points", g))).key()),), True), unmark(sel, g))
                i = var(0, d)
                return coll([(Part(("cell", g, sel), f_and(inside(sel), some)), data.fn((i,)))])
        return old(t)
    ev._ev_item = item
    return ev, v


def unmark(sel, g):
    """Selection of a generic point."""
    p = var(0, poly(atom(("points", g)))).key()
    mark = S("#point").key()

    def rec(x):
        if x == mark:
            return p
        return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    return rec(sel)


def stl_case(chk, given):
    site = "pypeec/lib_mesher/mesher_stl.py"
    lab = f"stl, {'given' if given else 'computed'} bounds"
    spec = {"a": [("s1", "o1", "f1"), ("s2", "o2", "f2")], "b": [("s3", "o3", "f3")]}
    data = {"param": {"d": T3("d"), "xyz_min": T3("lo") if given else None, "xyz_max": T3("hi") if given else None},
            "domain_stl": {a: [{"scale": sym(s), "offset": T3(o), "filename": sym(f)} for s, o, f in x] for a, x in spec.items()}}
    chk.count("model_configurations")
    m = Mesh("stl", data)
    ev, vtk = stl_eval()
    can = Canon(ev)

    def mesh(s, o, f):
        return ("moved", ("moved", ("mesh", f), "scale", (S(s).key(),) * 3), "translate", tuple(x.key() for x in S3(o)))
    meshes = {a: [mesh(*y) for y in x] for a, x in spec.items()}
    every = [y for x in meshes.values() for y in x]
    lo = S3("lo") if given else [minmax("min", [poly(atom(("bound", y, "min", k))) for y in every]) for k in XYZ]
    hi = S3("hi") if given else [minmax("max", [poly(atom(("bound", y, "max", k))) for y in every]) for k in XYZ]
    n, d, c = grid(lo, hi, S3("d"))
    vectors(chk, m, ev, can, {"n": n, "d": d, "c": c, "s": [mul(x, y) for x, y in zip(n, d)]}, lab, site)
    g = ("grid", tuple(key(sub(z, mul(HALF, x, y))) for x, y, z in zip(n, d, c)), tuple(key(add(x, const(1))) for x in n), tuple(key(y) for y in d))
    want = {}
    for a, ms in meshes.items():
        want[a] = []
        for y in ms:
            sel = ("atom", ("inside", ("selected", g, y, False, const(0).key()), S("#point").key()))
            some = ("any", ((("range", 0, poly(atom(("points", g))).key()),), True), unmark(sel, g))
            want[a].append((var(0, mul(*n)), f_and(inside(sel), some)))
    members(chk, m, ev, can, want, lab, site)
    positive(chk, m, ev, can, n, d, lab, site)


def positive(chk, m, ev, can, n, d, lab, site):
    for what, x in (("sizes", d), ("numbers", n)):
        rejected(chk, m, ev, can, site, {f"voxel {what} which are not positive are rejected": f_not(f_and(*[("pos", y) for y in x]))}, lab,
                 skip=[lambda t: not any(y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "numpy.rint" for y in walk(t))])


def stl(chk):
    stl_case(chk, False)
    stl_case(chk, True)


# ---------------------------------------------------------------- shapes

class Shapely:
    """Geometries: formulas over the elementary shapes."""

    def __init__(self, ev):
        self.ev = ev
        for f in ("MultiPoint", "LineString", "Polygon"):
            for p in ("shapely.geometry.", "shapely."):
                ev.calls[p + f] = self.leaf(f)
        for p in ("shapely.", "shapely.ops."):
            ev.calls[p + "unary_union"] = ev.calls[p + "union_all"] = self.union
        ev.calls["shapely.difference"] = self.difference
        for f in ("symmetric_difference", "intersection"):
            ev.calls["shapely." + f] = ev.methods[f] = self.other(f)
        ev.calls["shapely.intersection_all"] = ev.calls["shapely.symmetric_difference_all"] = lambda e, t, pos, kw: mkgeom((str(t.args[0].args[0]).split(".")[-1], frozenset(self.geom(x) for x in e.ev(pos[0]).items), self.arg(kw, "grid_size")))
        ev.methods["difference"] = lambda e, b, pos, kw, t: self.difference(e, t, [b] + list(pos), kw)
        ev.methods["union"] = lambda e, b, pos, kw, t: self.union2(e, t, [b] + list(pos), kw)
        ev.calls["shapely.union"] = self.union2
        ev.calls["shapely.simplify"] = self.simplify
        ev.calls["shapely.buffer"] = lambda e, t, pos, kw: self.buffer(e, pos[0], pos[1:], kw, t)
        ev.methods["buffer"] = self.buffer
        ev.calls["rasterio.transform.from_bounds"] = self.transform
        ev.calls["rasterio.features.rasterize"] = self.rasterize
        ev.attrs["bounds"] = self.bounds

    def geom(self, v):
        if isinstance(v, Poly) and v.mono():
            a = nf._ATOMS[v.mono()[0][0][0]].key
            if a[0] == "geom":
                return a[1]
        raise Unknown("geometry")

    def arg(self, kw, k):
        return key(self.ev.ev(kw[k])) if k in kw and not (is_const(kw[k]) and cval(kw[k]) is None) else None

    def leaf(self, kind):
        def fct(ev, t, pos, kw):
            return mkgeom(("leaf", kind, tuple(key(ev.ev(x)) for x in pos), tuple((k, key(ev.ev(x))) for k, x in sorted(kw.items()))))
        return fct

    def buffer(self, ev, base, pos, kw, t):
        b = ev.ev(base)
        try:
            g = self.geom(b)
        except Unknown:
            return None
        r = ev.ev(pos[0] if pos else kw["distance"])
        style = tuple(cval(kw[k]) if k in kw and is_const(kw[k]) else "round" for k in ("cap_style", "join_style"))
        return mkgeom(("buffer", g, key(scalar(r)), style))

    def union(self, ev, t, pos, kw):
        return mkgeom(("union", frozenset(self.geom(x) for x in ev.ev(pos[0]).items), self.arg(kw, "grid_size")))

    def union2(self, ev, t, pos, kw):
        return mkgeom(("union", frozenset(self.geom(ev.ev(x)) for x in pos[:2]), self.arg(kw, "grid_size")))

    def difference(self, ev, t, pos, kw):
        return mkgeom(("difference", self.geom(ev.ev(pos[0])), self.geom(ev.ev(pos[1])), self.arg(kw, "grid_size")))

    def other(self, name):
        def fct(ev, *x):
            t, pos, kw = x if len(x) == 3 else (x[3], [x[0]] + list(x[1]), x[2])
            return mkgeom((name, frozenset(self.geom(ev.ev(p)) for p in pos[:2]), self.arg(kw, "grid_size")))
        return fct

    def simplify(self, ev, t, pos, kw):
        top = kw.get("preserve_topology")
        return mkgeom(("simplify", self.geom(ev.ev(pos[0])), key(scalar(ev.ev(pos[1] if len(pos) > 1 else kw["tolerance"]))), cval(top) if top is not None and is_const(top) else True))

    def bounds(self, ev, base, t):
        try:
            g = self.geom(ev.ev(base))
        except Unknown:
            return None
        return Seq([poly(atom(("bound", g, w, k))) for w in ("min", "max") for k in "xy"])

    def transform(self, ev, t, pos, kw):
        names = ("west", "south", "east", "north", "width", "height")
        x = dict(zip(names, pos))
        x.update(kw)
        return Seq([scalar(ev.ev(x[k])) for k in names])

    def rasterize(self, ev, t, pos, kw):
        shapes = ev.items(ev.ev(pos[0] if pos else kw["shapes"]))
        opts = {k: v for k, v in kw.items() if k not in ("shapes", "out_shape", "transform")}
        shape = ev.items(ev.ev(kw["out_shape"]))
        tr = ev.ev(kw["transform"]).items
        for k, std in (("fill", 0), ("default_value", 1), ("all_touched", False)):
            if k in opts and is_const(opts[k]) and cval(opts[k]) == std:
                del opts[k]
        opts.pop("dtype", None)
        gs = frozenset(self.geom(x.items[0] if isinstance(x, Seq) else x) for x in shapes)
        west, south, east, north, w, h = tr
        extra = tuple((k, repr(cval(v)) if is_const(v) else key(ev.ev(v))) for k, v in sorted(opts.items()))

        def fn(ix):
            r, q = ix
            x = add(west, mul(add(q, HALF), sub(east, west), inv(w)))
            y = add(north, mul(add(r, HALF), sub(south, north), inv(h)))
            return mkcover(gs, x, y, extra)
        return Arr([scalar(x) for x in shape], fn)


def mkgeom(k):
    return poly(atom(("geom", k)))


def mkcover(gs, x, y, extra):
    from sa.arrays import indicator
    return poly(atom(("cover", gs, x.key(), y.key(), extra)))


SHAPES = {
    "a": [(("la", "lb"), "add", "pad", "1"), (("lb",), "sub", "trace", "2"), (("lb",), "add", "trace", "5")],
    "b": [(("la",), "add", "polygon", "3"), (("la",), "sub", "polygon", "4"), (("la", "lb"), "sub", "pad", "6")],
}
LAYERS = [("L1", "la"), ("L2", "lb")]


def shape_data(kind, k, buf):
    if kind == "pad":
        return {"diameter": sym("dia" + k), "coord": sym("co" + k)}
    if kind == "trace":
        return {"width": sym("wi" + k), "coord": sym("co" + k)}
    return {"buffer": sym("bu" + k) if buf else None, "coord_shell": sym("cs" + k), "coord_holes": sym("ch" + k)}


def decide(t):
    if t.op == "attr" and t.args[1] in ("is_valid", "is_closed"):
        return True
    if t.op == "attr" and t.args[1] == "is_empty":
        # a union without any shape is empty
        return None if not hasattr(t, "args") else empty(t.args[0])
    if t.op == "cmp" and t.args[0] in ("==", "!=", "<", "<=", ">", ">="):
        x, y = [tags(v) for v in t.args[1:3]]
        if x is not None and y is not None:
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[t.args[0]]
    return None


def tags(t):
    """Number of tags."""
    if is_const(t):
        return cval(t)
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.len" and len(t.args[1]) == 1:
        x = t.args[1][0]
        uniq = False
        while x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.unique", "builtins.set") and x.args[1]:
            uniq, x = True, x.args[1][0]
        if x.op in ("list", "tuple") and all(is_const(y) for y in x.args[0]):
            v = [cval(y) for y in x.args[0]]
            return len(set(v)) if uniq else len(v)
    return None


def empty(t):
    """A geometry without any added shape."""
    if t.op == "phi":
        a, b = empty(t.args[1]), empty(t.args[2])
        return a if a == b else None
    if t.op == "call" and t.args[0].op == "ext":
        f = t.args[0].args[0].split(".")[-1]
        if f in ("unary_union", "union_all", "intersection_all", "symmetric_difference_all") and t.args[1] and t.args[1][0].op in ("list", "tuple"):
            return not t.args[1][0].args[0]
        if f in ("difference", "simplify"):
            return empty(t.args[1][0])
        if f in ("symmetric_difference", "union"):
            a, b = empty(t.args[1][0]), empty(t.args[1][1])
            return a if a == b else False if False in (a, b) else None
        return False
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "difference":
        return empty(t.args[0].args[0])
    return False


def shape_case(chk, given, cz, simp, buf):
    site = "pypeec/lib_mesher/mesher_shape.py"
    lab = f"shape, {'given' if given else 'computed'} bounds, {'shifted' if cz else 'centered'}, {'simplified' if simp else 'not simplified'}, {'with' if buf else 'without'} buffer"
    data = {"param": {"dx": sym("dx"), "dy": sym("dy"), "dz": sym("dz"), "cz": sym("cz") if cz else None, "simplify": sym("simp") if simp else None, "construct": sym("cons"),
                      "xy_min": [sym("lox"), sym("loy")] if given else None, "xy_max": [sym("hix"), sym("hiy")] if given else None},
            "layer_stack": [{"n_layer": sym(n), "tag_layer": t} for n, t in LAYERS],
            "geometry_shape": {a: [{"shape_layer": list(l), "shape_operation": o, "shape_type": t, "shape_data": shape_data(t, k, buf)} for l, o, t, k in x] for a, x in SHAPES.items()}}
    chk.count("model_configurations")

    def dec(t):
        r = decide(t)
        if r is None and t.op == "cmp" and t.args[0] in ("is", "is not", "==", "!=") and any(is_const(x) and cval(x) is None for x in t.args[1:3]):
            other = [x for x in t.args[1:3] if not (is_const(x) and cval(x) is None)]
            if len(other) == 1 and other[0].op in ("sym", "bin", "call"):
                return t.args[0] in ("is not", "!=")
        return r
    m = Mesh("shape", data, decide=dec)
    ev = Eval({})
    Shapely(ev)
    can = Canon(ev)
    cons = S("cons").key()

    def shape(kind, k):
        if kind == "pad":
            return ("buffer", ("leaf", "MultiPoint", (S("co" + k).key(),), ()), mul(HALF, S("dia" + k)).key(), ("round", "round"))
        if kind == "trace":
            return ("buffer", ("leaf", "LineString", (S("co" + k).key(),), ()), mul(HALF, S("wi" + k)).key(), ("round", "round"))
        g = ("leaf", "Polygon", (S("cs" + k).key(),), (("holes", S("ch" + k).key()),))
        return ("buffer", g, S("bu" + k).key(), ("round", "round")) if buf else g
    geoms = {}
    for a, xs in SHAPES.items():
        for j, (_, tag) in enumerate(LAYERS):
            plus = frozenset(shape(t, k) for l, o, t, k in xs if tag in l and o == "add")
            minus = frozenset(shape(t, k) for l, o, t, k in xs if tag in l and o == "sub")
            if plus:
                g = ("difference", ("union", plus, cons), ("union", minus, cons), cons)
                geoms[a, j] = ("simplify", g, S("simp").key(), False) if simp else g
    lz = add(*[S(n) for n, _ in LAYERS])
    zlo, zhi = [add(mul(HALF, const(w), lz, S("dz")), S("cz") if cz else const(0)) for w in (-1, 1)]
    lo = [S("lo" + k) if given else minmax("min", [poly(atom(("bound", g, "min", k))) for g in geoms.values()]) for k in "xy"]
    hi = [S("hi" + k) if given else minmax("max", [poly(atom(("bound", g, "max", k))) for g in geoms.values()]) for k in "xy"]
    n, d, c = grid(lo + [zlo], hi + [zhi], S3("d"))

    # the height of the structure is the number of layers
    top = key(n[2])
    vectors(chk, m, ev, can, {"n": n, "d": d, "c": c, "s": [mul(x, y) for x, y in zip(n, d)]}, lab, site)
    ix, iy = var(0, n[0]), var(1, n[1])
    px = add(c[0], mul(d[0], sub(add(ix, HALF), mul(HALF, n[0]))))
    py = add(c[1], mul(d[1], sub(add(iy, HALF), mul(HALF, n[1]))))
    want = {a: [] for a in SHAPES}
    for (a, j), g in geoms.items():
        z0 = add(const(0), *[S(x) for x, _ in LAYERS[:j]])
        iz = var(2, S(LAYERS[j][0]))
        want[a].append((linear([ix, iy, add(z0, iz)], n, "F"), f_not(compare("==", mkcover(frozenset([g]), px, py, ()), const(0)))))
    members(chk, m, ev, can, want, lab, site)
    positive(chk, m, ev, can, n, d, lab, site)


def layer_tags(chk):
    """Layers with the same name are rejected."""
    site = "pypeec/lib_mesher/mesher_shape.py"
    chk.count("model_configurations")
    data = {"param": {**{k: sym(k) for k in ("dx", "dy", "dz", "cz", "construct")}, "simplify": None, "xy_min": None, "xy_max": None},
            "layer_stack": [{"n_layer": sym(n), "tag_layer": "la"} for n in ("L1", "L2")],
            "geometry_shape": {"a": [{"shape_layer": ["la"], "shape_operation": "add", "shape_type": "pad", "shape_data": shape_data("pad", "1", False)}]}}
    m = Mesh("shape", data, final=False, decide=decide)
    g = Guards(m.eng)
    chk.count("rejections")
    dead = any(g.definite(e) for e in m.raises() if e.where().startswith(site))
    chk.ob(dead or (None if any("unique" in str(e.facts[-1][0]) for e in m.raises() if e.facts and e.where().startswith(site)) else False), "layers with the same name are rejected (shape)", site, "no error is raised")


def shapes(chk):
    layer_tags(chk)
    arrays.POSITIVE = {"L1", "L2", "dz"}
    try:
        shape_case(chk, False, False, False, False)
        shape_case(chk, True, True, True, True)
    finally:
        arrays.POSITIVE = set()


def voxelization(chk):
    chk.floor("voxel_sets", 10)
    chk.floor("geometry_identities", 40)
    chk.floor("rejections", 8)
    indices(chk)
    images(chk)
    stl(chk)
    shapes(chk)


# ---------------------------------------------------------------- cloud points and summary

POINT = "pypeec/lib_mesher/voxel_point.py"


def cloud_eval(m):
    from checks.mesher import domains
    n = S3("n")
    leaves, coords, pos = domains(n)
    leaves["pts"] = Arr((S("NP"), const(3)), lambda ix: poly(atom(("point", ix[0].key(), ix[1].key()))))
    ev = Eval(leaves, coords)
    return ev, leaves, n, pos


def valid(i, n, leaves, pos):
    """The point is far from all the used voxels."""
    out = []
    for a in sorted(pos):
        p, = leaves["i" + a].shape[0].parts
        far = []
        for k, x in enumerate(XYZ):
            c = add(S("c" + x), mul(S("d" + x), sub(add(pos[a][k], HALF), mul(HALF, n[k]))))
            r = sub(c, poly(atom(("point", i.key(), const(k).key()))))
            far += [("pos", sub(r, S("d" + x))), ("pos", sub(neg(r), S("d" + x)))]
        out.append(("all", ((p.key,), True), f_or(*far)))
    return f_and(*out)


def cloud(chk):
    from checks.mesher import VOXEL
    for opts in ((False, False), (False, True), (True, False), (True, True)):
        for use in ((False, False), (True, True)):
            chk.count("model_configurations")
            m = Mesh("voxel", VOXEL, use, point=opts)
            lab = f"check_cloud={opts[0]}, full_cloud={opts[1]}, resampling={use[0]}"
            ev, leaves, n, pos = cloud_eval(m)
            can = Canon(ev)
            i = var(0, S("NP"))
            ok = valid(i, n, leaves, pos) if opts[0] else True

            def kept():
                v = ev.ev(m.geom["pts_cloud"])
                if not isinstance(v, Arr) or len(v.shape) != 2:
                    raise Unknown("cloud points")
                can.opaque.clear()
                have = {}
                for ix, val, c in v.gen():
                    have.setdefault(can(val), set()).update(can.cond(c))
                want = {can(poly(atom(("point", i.key(), const(k).key())))): absorb(can.cond(ok)) for k in range(3)}
                return compare_sets(chk, can, {k: absorb(x) for k, x in have.items()}, want)
            attempt(chk, f"points which are kept ({lab})", POINT, kept)

            def errors():
                chk.count("rejections")
                fs = [f for _, f in raised(m, ev, can, POINT)]
                fs = [f for f in fs if f is not False]
                can.opaque.clear()
                want = absorb(can.cond(("any", ((("range", 0, S("NP").key()),), True), f_not(ok)))) if opts == (True, True) else set()
                have = absorb(set().union(*[can.cond(spread(f)) for f in fs])) if fs else set()
                if have == want:
                    return []
                if can.opaque:
                    raise Unknown("conditions of the errors")
                return ["the error is not raised exactly for the invalid points" if want else "an error is raised although the option is switched off"]
            attempt(chk, f"errors for the points close to the voxels ({lab})", POINT, errors)


SUMMARY = "pypeec/lib_mesher/voxel_summary.py"


def summary(chk):
    from checks.mesher import VOXEL, Graphs
    for use in ((False, False), (True, False), (True, True)):
        chk.count("model_configurations")
        m = Mesh("voxel", VOXEL, use, point=(True, False))
        lab = f"reduce={use[0]}, resample={use[1]}"
        ev, leaves, n0, pos = cloud_eval(m)
        gr = Graphs(ev)
        can = Canon(ev)

        def fct():
            n, d, s = [[scalar(x) for x in ev.items(ev.ev(m.geom[k]))] for k in "nds"]
            doms = entries(m.geom["domain_def"])
            size = [ev.length(ev.ev(v).shape[0]) for v in doms.values()]
            used = add(const(0), *size)
            nt, vt = mul(*n), mul(*d)
            want = {"n_total": nt, "n_used": used, "A_xy": mul(s[0], s[1]), "A_yz": mul(s[1], s[2]), "A_xz": mul(s[0], s[2]), "V_total": mul(nt, vt), "V_used": mul(used, vt),
                    "ratio": mul(used, inv(nt)), "n_domain": const(len(doms)), "n_cloud": ev.length(ev.ev(m.geom["pts_cloud"]).shape[0])}
            g = m.geom["graph_def"]
            if g.op == "map":
                want["n_graph"] = ev.len(ev.ev(g.args[0]), g.args[0])
            have = entries(m.geom["voxel_status"])
            bad = []
            for k, x in want.items():
                chk.count("summary_values")
                if k not in have:
                    bad.append(f"{k} is missing")
                    continue
                can.opaque.clear()
                y = ev.ev(have[k])
                if can(scalar(y)) != can(x):
                    bad.append(f"{k} = {text(can(scalar(y)))[:100]}, expected {text(can(x))[:100]}")
            return bad
        attempt(chk, f"summary of the final voxel structure ({lab})", SUMMARY, fct)


def points(chk):
    chk.floor("voxel_sets", 8)
    chk.floor("rejections", 8)
    chk.floor("summary_values", 20)
    cloud(chk)
    summary(chk)
