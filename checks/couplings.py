"""Long-range operators: which voxel blocks they couple, through which kernel component, with which sign and scale."""

from collections import namedtuple

from sa import nf
from sa.laws import Net, c, J, neg, HALF, add, sub, mul, inv, power, vlen, poly, atom, ZERO, ONE, PI, MU0, Poly, Stack, Mat, _ATOMS, fmt, is_kernel, locate, where
from sa.nf import Seq, Opq, app, mtrans
from sa.model import ssym, vsym
from sa.report import parallel
from sa.term import walk, children, FALSE
from checks.solver import BASE, views, per_model, rows_of, s_of, pick, topology, _precond

Entry = namedtuple("Entry", "coef mat out a oidx ft k inn b iidx x")
OUT = "pypeec/lib_matrix"


class Unparsed(Exception):
    pass


class Wrong(Exception):
    """(rule, text): definite contradiction found while reading an operator."""


def _one(p):
    """Single atom of a polynomial (coefficient one)."""
    m = p.mono() if isinstance(p, Poly) else None
    if m is None or len(m[0]) != 1 or m[0][0][1] != 1 or m[1] != nf.C1:
        raise Unparsed("not a single construct: " + (fmt(p, 3)[:120] if p is not None else "None"))
    return _ATOMS[m[0][0][0]]


def _n():
    return [ssym(k) for k in ("nx", "ny", "nz")]


def _shape(seq, what):
    it = seq.items if isinstance(seq, Seq) else None
    if it is None or len(it) not in (3, 4):
        raise Unparsed("shape of " + what)
    if not all(isinstance(x, Poly) for x in it):
        raise Unparsed("shape of " + what)
    if [x for x in it[:3]] != _n():
        raise Wrong("the field array has the shape of the voxel grid", what + ": " + fmt(seq, 3)[:100])
    nd = None
    if len(it) == 4:
        if not it[3].is_const():
            raise Unparsed("shape of " + what)
        nd = int(it[3].cval()[0])
    return nd


def position(u, nv):
    """unravel(...) -> (linear index set, block or None, components)."""
    a = _one(u)
    if a.key[0] != "unravel":
        raise Unparsed("positions: " + a.key[0])
    nd = _shape(a.key[2], "positions")
    if a.key[3] != ("order", "F"):
        raise Wrong("voxels are numbered with x fastest", "positions use the order " + str(a.key[3]))
    p = a.key[1]
    if nd is not None:
        return p, None, nd
    # positions within one block: take(idx, mask) - block * nv
    takes = [_ATOMS[i] for m in p.t for i, e in m if _ATOMS[i].key[0] == "take"]
    ax = block_of(_one(takes[0].key[2] if isinstance(takes[0].key[2], Poly) else poly(takes[0].key[2])), nv) if len(takes) == 1 else None
    if ax is None:
        raise Unparsed("block of the positions: " + fmt(p, 4)[:150])
    idx, blk = ax
    if takes[0].key[1] != idx:
        raise Wrong("the block mask selects from its own index set", fmt(p, 4)[:200])
    off = sub(p, poly(takes[0]))
    if off != mul(c(-blk), nv):
        raise Wrong("positions of a block are relative to the start of the block", f"offset {fmt(off, 3)} for block {blk}")
    return idx, blk, None


def block_of(a, nv):
    """ind mask -> (index set, block)."""
    if a.key[0] != "ind" or a.key[3] != nv:
        return None
    return a.key[1], a.key[2]


def field(p, nv):
    """Transform of the unknowns: fftn(scatter(x, positions)) -> (index set, block, nd, x)."""
    a = _one(p)
    if a.key[0] != "fftn":
        raise Unparsed("transformed field: " + a.key[0])
    size, axes = a.key[2], a.key[3]
    if not isinstance(axes, Seq) or [x.cval()[0] if isinstance(x, Poly) and x.is_const() else None for x in axes.items] != [0, 1, 2]:
        raise Wrong("the transforms act on the three space axes", fmt(axes, 3)[:100] if axes is not None else "all axes")
    if not isinstance(size, Seq) or not all(isinstance(x, Poly) for x in size.items):
        raise Unparsed("size of the transform")
    if list(size.items) != [mul(c(2), x) for x in _n()]:
        raise Wrong("the transform is zero-padded to twice the grid (no wrap-around)", fmt(size, 3)[:150])
    s = _one(a.key[1])
    if s.key[0] != "scatter":
        raise Unparsed("field: " + s.key[0])
    idx, blk, nd = position(s.key[2], nv)
    x = s.key[1]
    shp = s.key[3]
    if shp[0] == "shape" and _shape(shp[1], "field") != nd:
        raise Unparsed("shape of the field")
    if blk is not None:
        # values of one block only
        vals = []
        for m, k in x.t.items():
            co = [(i, e) for i, e in m if _ATOMS[i].key[0] != "take"]
            tk = [_ATOMS[i] for i, e in m if _ATOMS[i].key[0] == "take" and e == 1]
            if len(tk) != 1:
                raise Unparsed("values of a block: " + fmt(x, 3)[:120])
            b = block_of(_one(tk[0].key[2] if isinstance(tk[0].key[2], Poly) else poly(tk[0].key[2])), nv)
            if b is None:
                raise Unparsed("values of a block: " + fmt(x, 3)[:120])
            if b != (idx, blk):
                raise Wrong("values and positions of a block use the same mask", f"positions: block {blk}, values: block {b[1]}")
            vals.append(mul(Poly({tuple(co): k}), tk[0].key[1]))
        x = add(*vals)
    return idx, blk, nd, x


def product(p, nv):
    """Transformed product -> [(coef, ft, k, idx, block, nd, x)]."""
    out = []
    for m, k in p.t.items():
        ft, fl, co = None, None, []
        for i, e in m:
            a, q = _ATOMS[i], None
            b = a
            if a.key[0] == "comp":
                b, q = _one(a.key[1]), a.key[2]
            if is_kernel(b) and e == 1 and ft is None:
                ft = (b, q)
            elif b.key[0] == "fftn" and e == 1 and fl is None:
                fl = (b, q)
            elif a.vec:
                raise Unparsed("transformed product: " + a.key[0])
            else:
                co.append((i, e))
        if ft is None or fl is None:
            raise Unparsed("transformed product without kernel or field")
        idx, blk, nd, x = field(poly(fl[0]), nv)
        b = blk if fl[1] is None else fl[1]
        if blk is not None and fl[1] is not None:
            raise Unparsed("component of a scalar field")
        out.append((Poly({tuple(co): k}), ft[0].id, ft[1], idx, b, nd, x))
    return out


def inverse(p, nv):
    """[(coef, ft, k, idx, block, nd, x)] of a sum of inverse transforms."""
    out = []
    for m, k in p.t.items():
        co, y = [], None
        for i, e in m:
            a = _ATOMS[i]
            if a.key[0] == "ifftn" and e == 1 and y is None:
                y = a
            elif a.vec:
                raise Unparsed("inverse transform: " + a.key[0])
            else:
                co.append((i, e))
        if y is None:
            raise Unparsed("no inverse transform")
        axes = y.key[3]
        if y.key[2] is not None and not (isinstance(y.key[2], Seq) and list(y.key[2].items) == [mul(c(2), x) for x in _n()]):
            raise Wrong("the inverse transform has the size of the transform", fmt(y.key[2], 3)[:100])
        if not isinstance(axes, Seq) or [x.cval()[0] if isinstance(x, Poly) and x.is_const() else None for x in axes.items] != [0, 1, 2]:
            raise Wrong("the transforms act on the three space axes", fmt(axes, 3)[:100] if axes is not None else "all axes")
        f = Poly({tuple(co): k})
        out += [(mul(f, q[0]),) + q[1:] for q in product(y.key[1], nv)]
    return out


def _dense(p, nv):
    return None


def entries(p, nv, mat=None, coef=ONE, mask=None):
    """All entries of a sum of long-range operators."""
    out = []
    for m, k in p.t.items():
        co, y, ind = [], None, None
        for i, e in m:
            a = _ATOMS[i]
            if a.key[0] in ("take", "scatter", "app", "gather", "dapp") and e == 1 and y is None:
                y = a
            elif a.key[0] == "ind" and ind is None:
                ind = block_of(a, nv)
            elif a.vec:
                raise Unparsed("operator: " + a.key[0])
            else:
                co.append((i, e))
        if y is None:
            raise Unparsed("no operator: " + fmt(Poly({m: k}), 3)[:100])
        f = mul(coef, Poly({tuple(co): k}))
        if y.key[0] == "app":
            if mat is not None:
                raise Unparsed("nested matrices")
            out += entries(y.key[2], nv, y.key[1], f)
            continue
        if y.key[0] == "dapp":
            for q in dense_entries(y, nv):
                if ind is not None and ind[0] != q.oidx:
                    raise Unparsed("mask of another index set")
                if ind is None or ind[1] == q.a:
                    out.append(q._replace(mat=mat, coef=mul(f, q.coef)))
            continue
        if y.key[0] == "gather":
            oidx, blk, nd = position(y.key[2], nv)
            if nd != len(y.key[1].cols):
                raise Unparsed("components of the field")
            for a, col in enumerate(y.key[1].cols):
                for g, ft, kk, iidx, b, ndi, x in inverse(col, nv):
                    out.append(Entry(mul(f, g), mat, None, a, oidx, ft, kk, None, b, iidx, x))
            continue
        if y.key[0] == "scatter":
            sm = block_of(_one(y.key[2]), nv)
            if sm is None:
                raise Unparsed("scatter of a block")
            t = _one(y.key[1])
            if t.key[0] != "take":
                raise Unparsed("scatter of a block")
            oidx, blk, nd = position(t.key[2] if isinstance(t.key[2], Poly) else poly(t.key[2]), nv)
            if (oidx, blk) != sm:
                raise Wrong("values and positions of a block use the same mask", f"positions: block {blk}, values: block {sm[1]}")
            for g, ft, kk, iidx, b, ndi, x in inverse(t.key[1], nv):
                out.append(Entry(mul(f, g), mat, None, blk, oidx, ft, kk, None, b, iidx, x))
            continue
        oidx, blk, nd = position(y.key[2] if isinstance(y.key[2], Poly) else poly(y.key[2]), nv)
        for g, ft, kk, iidx, b, ndi, x in inverse(y.key[1], nv):
            if blk is not None or b is not None or nd != ndi:
                raise Unparsed("field components")
            if ind is not None and ind[0] != oidx:
                raise Unparsed("mask of another index set")
            for a in range(nd) if ind is None else (ind[1],):
                out.append(Entry(mul(f, g), mat, None, a, oidx, ft, kk, None, a, iidx, x))
    return out


def _order(perm, nv, what):
    """Index set whose sorted order is undone by a permutation."""
    a = _one(perm)
    if a.key[0] == "scatter":
        ar, b = _one(a.key[1]), _one(a.key[2])
        if ar.key[0] == "arange" and ar.key[1] == ZERO and b.key[0] == "argsort":
            return b.key[1]
    if a.key[0] == "argsort":
        b = _one(a.key[1])
        if b.key[0] == "argsort":
            return b.key[1]
        raise Wrong(f"the {what} of the dense matrix follow the order of the index set", "sorted in the wrong direction: " + fmt(perm, 4)[:150])
    raise Unparsed(f"order of the {what}: " + a.key[0])


def _dense_axis(p, axis, nv):
    """Index set and block selected along an axis of a dense block."""
    masks = set()
    for a in nf.atoms_in(p).values():
        if a.key[0] == "at" and a.key[2] == axis:
            t = _one(a.key[1])
            if t.key[0] != "take" or _one(t.key[1]).key[0] != "gflat":
                raise Unparsed("coordinates of a dense block: " + t.key[0])
            masks.add(t.key[2] if isinstance(t.key[2], Poly) else poly(t.key[2]))
    if len(masks) != 1:
        raise Unparsed(f"coordinates of a dense block: {len(masks)} selections")
    mask = masks.pop()
    k = _one(mask).key
    if k[0] != "isin":
        raise Unparsed("selection of a dense block: " + k[0])
    r = _one(k[1]).key
    if r[0] != "arange":
        raise Unparsed("selection of a dense block: " + r[0])
    for b in range(3):
        if r[1] == mul(c(b), nv) and r[2] == mul(c(b + 1), nv):
            break
    else:
        raise Wrong("the voxels of a dense block are one block of the index set", fmt(k[1], 4)[:150])
    idx = k[2]
    a = _one(idx)
    if a.key[0] == "take" and _one(a.key[2]).key[0] == "argsort":
        idx = a.key[1]
        if _one(a.key[2]).key[1] != idx:
            raise Wrong("an index set is sorted with its own order", fmt(k[2], 4)[:150])
    return mask, b, idx


def dense_entries(y, nv):
    """Entries of a dense matrix product."""
    m, flip, x = y.key[1], y.key[2], y.key[3]
    flip = flip != m.tr
    n = _n()
    grid = [nf.gflat(n, nf.ax(k), "F") for k in range(3)]
    out = []
    sets = [set(), set()]
    for a, row in enumerate(m.rows):
        for b, p in enumerate(row):
            if p.is_zero():
                continue
            looks = {q for q in nf.atoms_in(p).values() if q.key[0] == "lookup"}
            if len(looks) != 1:
                raise Unparsed("kernel of a dense block")
            look = looks.pop()
            sel = [_dense_axis(p, 0, nv), _dense_axis(p, 1, nv)]
            if sel[0][1] != a or sel[1][1] != b:
                raise Wrong("a dense block contains the voxels of its own blocks", f"block ({a},{b}) contains the blocks ({sel[0][1]},{sel[1][1]})")
            for k in range(2):
                sets[k].add(sel[k][2])
            diff = []
            for g in grid:
                z = [nf.at(nf.take(g, sel[k][0]), k) for k in range(2)]
                diff.append(sub(z[0], z[1]))
            dist = add(nf.absval(diff[0]), mul(n[0], nf.absval(diff[1])), mul(n[0], n[1], nf.absval(diff[2])))
            if look.key[2] != dist:
                raise Wrong("a dense block uses the kernel at the distance of the two voxels", fmt(look.key[2], 6)[:300])
            base = _one(look.key[1])
            if base.key[0] != "flat" or base.key[2] != "F":
                raise Unparsed("kernel of a dense block: " + base.key[0])
            base, comp = _one(base.key[1]), None
            if base.key[0] == "comp":
                base, comp = _one(base.key[1]), base.key[2]
            if base.key[0] != "reshape":
                raise Unparsed("kernel of a dense block: " + base.key[0])
            odd = None
            for s in range(3):
                for f in (sub(ONE, mul(c(2), nf.negative(diff[s]))), sub(mul(c(2), nf.negative(neg(diff[s]))), ONE)):
                    for sg in (1, -1):
                        if p == mul(c(sg), f, poly(look)):
                            odd = (s, sg)
            if odd is None:
                for sg in (1, -1):
                    if p == mul(c(sg), poly(look)):
                        odd = (None, sg)
            if odd is None:
                raise Unparsed("sign of a dense block: " + fmt(p, 3)[:200])
            s, sg = odd
            o, i, ob, ib = (sel[1], sel[0], b, a) if flip else (sel[0], sel[1], a, b)
            if s is not None and flip:
                sg = -sg
            if s is not None and s != (comp or 0):
                raise Wrong("a component of the kernel is odd along its own axis", f"component {comp} is odd along axis {s}")
            out.append(Entry(c(sg), None, None, ob, o[2], ("dense", base.id, "even" if s is None else "odd"), comp, None, ib, i[2], x))
    for k, perm in enumerate((m.rperm, m.cperm)):
        if len(sets[k]) != 1:
            raise Unparsed("index sets of a dense matrix")
        idx, what = sets[k].pop(), ("rows", "columns")[k]
        if perm is not None:
            if _order(perm, nv, what) != idx:
                raise Wrong(f"the {what} of the dense matrix follow the order of their own index set", fmt(perm, 4)[:150])
        elif len(m.rows) > 1 or not (idx.mono() and len(idx.mono()[0]) == 1 and _one(idx).key[0] == "nz"):
            if _one(idx).key[0] != "nz":
                raise Wrong(f"the {what} of the dense matrix follow the order of the index set", "the sorted order is not undone")
    return out


class Site:
    """Source construct of a value (innermost construct of the system operator that yields it)."""

    def __init__(self, ev, root, p=None):
        self.ev, self.root, self.p = ev, root, p

    def of(self, p):
        return Site(self.ev, self.root, p)

    def __str__(self):
        if isinstance(self.p, int):
            self.p = poly(_ATOMS[self.p])
        r = None
        if isinstance(self.p, Poly):
            r = locate(self.ev, self.root, self.p)
        return r or where(self.ev, self.root, self.p if isinstance(self.p, Poly) else ZERO)


def merge(ents):
    out = {}
    for e in ents:
        k = (e.mat, e.a, e.oidx, e.ft, 0 if e.k is None else e.k, e.b, e.iidx, e.x)
        out[k] = add(out.get(k, ZERO), e.coef)
    return {k: v for k, v in out.items() if not v.is_zero()}


def compare(chk, name, p, nv, want, where):
    """Entries of an operator against the expected table {(mat,a,oidx,k,b,iidx,x): coef}; returns the kernels."""
    try:
        got = merge(entries(p, nv))
    except Wrong as ex:
        rule, txt = ex.args
        chk.bad(f"{name}: {rule}", where.of(p), txt)
        return None
    except Unparsed as ex:
        chk.undecided(name, None, str(ex))
        return None
    chk.count("operator_entries", len(got))
    wsite, where = where, (where.of(p) if isinstance(where, Site) else where)
    fts = {k[3] for k in got}
    flat = {}
    for k, v in got.items():
        q = k[:3] + k[4:]
        flat[q] = add(flat.get(q, ZERO), v)
    ok = True
    for q, v in want.items():
        g = flat.pop(q, None)
        lab = f"{name}: block {q[1]} from block {q[4]} through component {q[3]}"
        if g is None:
            ok = False
            chk.bad(lab, where, "no such entry in the operator; found: " + "; ".join(sorted(
                f"({x[1]},{x[4]},k{x[3]})" for x in flat))[:400])
        else:
            ok = chk.ob(g == v, lab, where, f"code: {fmt(g, 8)[:300]} / specification: {fmt(v, 8)[:300]}") and ok
    for q, v in flat.items():
        chk.bad(f"{name}: unexpected entry (block {q[1]} from block {q[4]}, component {q[3]})", where, fmt(v, 6)[:300])
        ok = False
    if ok:
        chk.samples.append(f"{name}: {len(want)} entries")
    return fts


TABLE = [(0, 1, 2, 1), (0, 2, 1, 1), (1, 2, 0, 1), (1, 0, 2, -1), (2, 0, 1, -1), (2, 1, 0, -1)]


def averaging(chk, name, v, net, mat, idx, where):
    """Face-to-voxel averaging: half of the faces touching a voxel, block by block; the index set names its voxels."""
    nv = v.nv
    a = _ATOMS[mat]
    if a.key[0] == "mT":
        a = _ATOMS[a.key[1]]
    inc = v.incidence()
    if a.key[0] != "mblock_diag" or inc is None:
        chk.undecided(name, None, "averaging matrix: " + str(a.key[0]))
        return
    blocks = a.key[1].items
    if not chk.ob(len(blocks) == 3, f"{name}: three blocks", where, f"{len(blocks)} blocks"):
        return
    absinc = v.ev.mabs(Mat([((inc.id,), ONE)], nf._MSHAPE.get(inc.id, (None, None)))).t[0][0][0]
    sv = v.ev.selmat(net.idx_v, nv).t[0][0][0]
    sf = v.ev.selmat(net.idx_f, mul(c(3), nv)).t[0][0][0]
    parts = []
    for q, m in enumerate(blocks):
        lab = f"{name} (block {q})"
        if len(m.t) != 1:
            chk.undecided(lab, None, "sum of matrices")
            return
        word, sc = m.t[0]
        chk.ob(sc == HALF, f"{lab}: every face counts half for each of its two voxels", where, fmt(sc, 3))
        word = list(word)
        rm = None
        if word and _ATOMS[word[0]].key[0] == "mT" and word[0] != nf._mT(sv) and _ATOMS[_ATOMS[word[0]].key[1]].key[0] == "sel":
            rm = _ATOMS[_ATOMS[word.pop(0)].key[1]].key[1]
        ind = None
        if word and _ATOMS[word[-1]].key[0] == "sel" and word[-1] != sf:
            ind = _ATOMS[word.pop()].key[1]
        if word != [nf._mT(sv), absinc, sf]:
            if word == [nf._mT(sv), inc.id, sf]:
                chk.bad(f"{lab}: both voxels of a face count with the same sign", where, "the signed incidence matrix is used")
            else:
                chk.undecided(lab, None, "averaging matrix not interpreted: " + fmt(m, 6)[:200])
            return
        b = block_of(_one(ind), nv) if ind is not None else None
        if b is None:
            chk.undecided(lab, None, "faces of the block not interpreted")
            return
        chk.ob(b == (net.idx_f, q), f"{lab}: faces along the axis of the block", where, f"faces of block {b[1]}")
        full = m.t[0][0][1:] if rm is not None else m.t[0][0]
        if rm is None:
            parts.append(add(mul(c(q), nv), net.idx_v))
            continue
        k = _one(rm).key
        if k[0] == "cmp" and isinstance(k[3], Poly) and k[3].mono():
            nnz = _one(k[3]).key
            base = nnz[1] if nnz[0] == "nnz" and isinstance(nnz[1], Mat) else None
            if base is not None and len(base.t) == 1 and tuple(absinc if w == inc.id else w for w in base.t[0][0]) == tuple(full) and k[2].is_const():
                chk.ob((k[1], k[2]) in (("<", ZERO), ("<=", ONE)), f"{lab}: every voxel with a face along the axis is kept", where, f"mask: {fmt(k[2], 2)} {k[1]} number of faces")
            else:
                chk.undecided(lab, None, "voxels of the block not interpreted")
        else:
            chk.undecided(lab, None, "voxels of the block not interpreted")
        parts.append(add(mul(c(q), nv), nf.take(net.idx_v, rm)))
    want = nf.cat([(x, nf.vlen(x)) for x in parts])
    chk.ob(idx == want, f"{name}: the voxel positions belong to the rows of the averaging", where,
           f"code: {fmt(idx, 6)[:400]} / specification: {fmt(want, 6)[:400]}")


def _octant(p, chk, name, where, sign_axes):
    """Circulant embedding: chain of stores into the doubled array."""
    n = _n()
    chain = []
    while True:
        a = _one(p) if not p.is_zero() else None
        if a is None:
            break
        if a.key[0] == "op" and a.key[1] == "setitem":
            chain.append((a.key[3], a.key[4]))
            p = a.key[2]
            continue
        raise Unparsed("embedding: " + str(a.key[0]))
    boxes, kern = {}, set()
    for key, val in reversed(chain):
        dst = [_slice(x) for x in key.items[:3]]
        m = val.mono()
        if m is None:
            raise Unparsed("embedding: value")
        src, sg = None, [ONE] * 3
        f = Poly({(): m[1]})
        for i, e in m[0]:
            a = _ATOMS[i]
            if a.key[0] == "op" and a.key[1] == "item" and e == 1:
                base = a.key[2]
                sl = [_slice(x) for x in a.key[3].items[:3]]
                k = _one(base) if base.mono() and base.mono()[0] else None
                if k is not None and k.key[0] == "reshape":
                    if src is not None:
                        raise Unparsed("embedding: two kernels")
                    src = (k, sl)
                elif k is None and base.is_const():
                    f = mul(f, base)
                else:
                    sg = _signs(base, sl)
            else:
                raise Unparsed("embedding: " + str(a.key[0]))
        if src is None:
            raise Unparsed("embedding: no kernel")
        kern.add(src[0].id)
        boxes[tuple(dst)] = (src[1], [mul(f, x) for x in sg])
    if len(kern) != 1:
        raise Unparsed("embedding: several kernels")
    lo = [(ZERO, n[k], ONE) for k in range(3)]
    hi = [(add(n[k], ONE), mul(c(2), n[k]), ONE) for k in range(3)]
    rev = [(sub(n[k], ONE), ZERO, c(-1)) for k in range(3)]
    for bits in range(8):
        b = [(bits >> k) & 1 for k in range(3)]
        lab = f"{name}: octant {''.join('+-'[x] for x in b)}"
        dst = tuple(hi[k] if b[k] else lo[k] for k in range(3))
        got = boxes.pop(dst, None)
        if got is None:
            chk.bad(f"{lab}: mirrored part of the kernel is filled", where, "no store to this part of the doubled array")
            continue
        src = [rev[k] if b[k] else lo[k] for k in range(3)]
        chk.ob(got[0] == src, f"{lab}: holds the kernel at the mirrored distance", where,
               "source " + ", ".join(":".join(fmt(z, 2) for z in s) for s in got[0]))
        for k, x in enumerate(got[1]):
            w = c(-1) if sign_axes and b[k] else ONE
            if not sign_axes and k > 0:
                continue
            chk.ob(x == w, f"{lab}: sign of component {k}", where, f"code: {fmt(x, 2)} / specification: {fmt(w, 2)}")
    for dst in boxes:
        chk.undecided(f"{name}: other parts", None, str([[fmt(z, 2) for z in x] for x in dst])[:200])
    return _ATOMS[kern.pop()]


def _slice(x):
    if isinstance(x, Poly) and x.mono() and not x.is_const():
        a = _one(x)
        if a.key[0] == "op" and a.key[1] == "slice":
            out = []
            for k, y in enumerate(a.key[2:5]):
                if isinstance(y, Opq):
                    out.append(ZERO if k == 0 else (ONE if k == 2 else None))
                else:
                    out.append(y)
            return tuple(out)
    if isinstance(x, Poly) and x.is_const():
        return x
    raise Unparsed("slice: " + type(x).__name__)


def _signs(base, sl):
    """Sign of the three components at a corner of a (2,2,2,3) array filled by stores."""
    pos = []
    for s in sl:
        if isinstance(s, Poly):
            pos.append(int(s.cval()[0]))
        elif isinstance(s, tuple) and all(isinstance(z, Poly) and z.is_const() for z in s) and s[1].cval()[0] - s[0].cval()[0] == 1:
            pos.append(int(s[0].cval()[0]))
        else:
            raise Unparsed("sign array")
    p = base
    while True:
        if p.is_const():
            return [p] * 3
        a = _one(p)
        if a.key[0] != "op" or a.key[1] != "setitem":
            raise Unparsed("sign array: " + str(a.key[0]))
        at = a.key[3].items[:3]
        if not all(isinstance(z, Poly) and z.is_const() for z in at):
            raise Unparsed("sign array")
        if [int(z.cval()[0]) for z in at] == pos:
            v = a.key[4]
            if isinstance(v, Stack):
                return list(v.cols)
            if isinstance(v, Poly) and v.is_const():
                return [v] * 3
            raise Unparsed("sign array")
        p = a.key[2]


def kernel(chk, name, ft, where, signed):
    """Circulant embedding behind a transformed kernel; returns the kernel array (nx, ny, nz, nd)."""
    if isinstance(ft, tuple):
        where = where.of(ft[1])
        if not chk.ob((ft[2] == "odd") == signed, f"{name}: parity of the kernel", where, f"the kernel is {ft[2]}"):
            return None
        return _shape_of_kernel(chk, name, _ATOMS[ft[1]], where, signed)
    a = _ATOMS[ft]
    where = where.of(ft)
    axes = a.key[3]
    if not isinstance(axes, Seq) or [x.cval()[0] if isinstance(x, Poly) and x.is_const() else None for x in axes.items] != [0, 1, 2]:
        chk.bad(f"{name}: the kernel is transformed along the three space axes", where, fmt(axes, 3)[:100] if axes is not None else "all axes")
        return None
    try:
        k = _octant(a.key[1], chk, name, where, signed)
    except Unparsed as ex:
        chk.undecided(name, None, str(ex))
        return None
    return _shape_of_kernel(chk, name, k, where, signed)


def _shape_of_kernel(chk, name, k, where, signed):
    sh, order = k.key[2], k.key[3]
    nd = 3 if signed else 1
    if isinstance(sh, Seq) and all(isinstance(x, Poly) for x in sh.items):
        chk.ob(list(sh.items) == _n() + [c(nd)] and order == "F", f"{name}: kernel values are arranged on the voxel grid, x fastest", where,
               f"shape {fmt(sh, 3)}, order {order}")
    return k


def coupling(chk):
    """Inductance, potential and electric-magnetic coupling operators."""
    def body(part, kw):
        for lab, v in views(part, kw):
            if v.dc:
                continue
            _coupling(part, lab, v)
    base = [dict(BASE, split=s) for s in (False, True)]
    more = [dict(x, orient="anisotropic", var="distributed") for x in base]
    per_model(chk, body, base, more)
    chk.floor("model_configurations", 2)


def _coupling(chk, lab, v, which=("inductance", "potential", "coupling")):
    nv = v.nv
    cn, mn = Net(v, "c"), Net(v, "m")
    r, root = rows_of(chk, lab, v)
    s = s_of(v)
    wh = Site(v.ev, root)
    g = {k: v.groups(r[k]) for k in r}
    found = {}
    # inductance
    if "inductance" in which:
        want = {}
        for a in range(3):
            want[(None, a, cn.idx_f, 0, a, cn.idx_f, cn.I)] = mul(c(2), J, PI, ssym("freq"), MU0, power(cn.area[a], -2))
        found["inductance"] = compare(chk, f"inductance operator ({lab})", pick(g["I_fc"], "I_fc", 1), nv, want, wh)
    # potential
    if "potential" in which:
        x = mn.div(mn.I)
        want = {(None, 0, mn.idx_v, 0, 0, mn.idx_v, x): inv(mul(MU0, power(mn.vol, 2)))}
        found["potential"] = compare(chk, f"potential operator ({lab})", pick(g["V_vm"], "I_fm", 0), nv, want, wh)
    ks = []
    for name, f in found.items():
        if f and chk.ob(len(f) == 1, f"{name}: a single kernel ({lab})", wh, f"{len(f)} kernels"):
            ks.append(kernel(chk, f"{name} kernel ({lab})", list(f)[0], wh, False))
    if len(ks) == 2 and None not in ks:
        chk.ob(ks[0].id == ks[1].id, f"inductance and potential use the same Green functions ({lab})", wh, "different kernels")
    # coupling
    if "coupling" in which:
        _cross(chk, lab, v, cn, mn, g, nv, s, wh)


def long_range(which):
    """The long-range operators as part of the laws of the electric or the magnetic network."""
    def body(part, kw):
        for lab, v in views(part, kw):
            if not v.dc:
                _coupling(part, lab, v, which)
    return body


def _cross(chk, lab, v, cn, mn, g, nv, s, wh):
    pe, pm = pick(g["I_fc"], "I_fm", 1), pick(g["I_fm"], "I_fc", 0)
    name = f"coupling operator ({lab})"
    fts = []
    mats = {}
    for lab2, p, net, other, co in (("electric from magnetic", pe, cn, mn, s), ("magnetic from electric", pm, mn, cn, c(-1))):
        try:
            ent = merge(entries(p, nv))
        except Wrong as ex:
            chk.bad(f"{name}, {lab2}: {ex.args[0]}", wh.of(p), ex.args[1])
            return
        except Unparsed as ex:
            chk.undecided(f"{name}, {lab2}", None, str(ex))
            return
        outs = {(k[0], k[2]) for k in ent}
        ins = {(k[6], k[7]) for k in ent}
        if len(outs) != 1 or len(ins) != 1:
            chk.bad(f"{name}, {lab2}: a single voxel set on each side", wh, f"{len(outs)} outputs, {len(ins)} inputs")
            return
        (mo, oidx), (iidx, x) = outs.pop(), ins.pop()
        wx, wp = wh.of(x), wh.of(p)
        xa = _one(x)
        if xa.key[0] != "app" or mo is None:
            chk.bad(f"{name}, {lab2}: face values are averaged to the voxels on both sides", wh, "missing average") if xa.key[0] == "part" or mo is None else chk.undecided(f"{name}, {lab2}", None, "input: " + xa.key[0])
            return
        chk.ob(xa.key[2] == other.I, f"{name}, {lab2}: acts on the face values of the other domain", wh, fmt(xa.key[2], 3)[:200])
        mats[lab2] = (mo, xa.key[1], oidx, iidx)
        averaging(chk, f"{name}, {lab2}: averaging of the input", v, other, xa.key[1], iidx, wx)
        averaging(chk, f"{name}, {lab2}: averaging of the output", v, net, mo, oidx, wp)
        chk.ob(_ATOMS[mo].key[0] == "mT", f"{name}, {lab2}: the output uses the transposed averaging", wh, _ATOMS[mo].key[0])
        want = {}
        for a, b, k, sg in TABLE:
            want[(mo, a, oidx, k, b, iidx, x)] = mul(c(sg), co)
        f = compare(chk, f"{name}, {lab2}", p, nv, want, wh)
        if not f:
            return
        fts += list(f)
    if len(mats) == 2:
        (a, b, i, j), (a2, b2, i2, j2) = mats.values()
        chk.ob(a == nf._mT(b2) and a2 == nf._mT(b) and i == j2 and j == i2, f"{name}: both directions use the same averaging (reciprocity)", wh, "different matrices or index sets")
    if chk.ob(len(set(fts)) == 1, f"{name}: both directions use the same kernel", wh, f"{len(set(fts))} kernels"):
        kernel(chk, f"coupling kernel ({lab})", fts[0], wh, True)


# ---------------------------------------------------------------- interchangeable methods

FFT_LIBS = ("NumPy", "SciPy", "MKL", "FFTW", "CuPy")


def methods(chk):
    """Every multiplication method, transform library, and factorization library gives the same operators."""
    chk.floor("model_configurations", 2)
    conf = [("mult", dict(BASE, mult_type="direct"))]
    conf += [("mult", dict(BASE, fft=f, split=s)) for f in FFT_LIBS for s in (False, True)]
    conf += [("fact", dict(BASE, fact=f, amg=a)) for f, a in (("SuperLU", "root"), ("PARDISO", "root"), ("PyAMG", "root"), ("PyAMG", "adapt"))]
    conf += [("fact", dict(BASE, solver="gcrot"))]
    if chk.thorough:
        conf += [(k, dict(x, orient="anisotropic", var="distributed", src_var="distributed")) for k, x in conf]
    parallel(chk, _methods, conf)


def _methods(part, conf):
    kind, kw = conf
    for lab, v in views(part, kw):
        if kind == "mult":
            if not v.dc:
                _coupling(part, lab, v)
                _overwrite(part, lab, v)
        elif not v.dc:
            _iterative(part, lab, v)
    if kind == "fact":
        _precond(part, kw)


def _iterative(chk, lab, v):
    """The iterative solver is given the system, the right-hand side, and the preconditioner in their places."""
    call = v.m.iter_call
    name = call.args[0].args[0]
    kw = dict(call.args[2])
    where = call.site
    chk.ob(len(call.args[1]) == 2, f"iterative solver: system and right-hand side ({lab})", where, name)
    chk.ob("M" in kw, f"iterative solver: preconditioned with the factorised system ({lab})", where, "no preconditioner")
    for k, w in (("rtol", "rel_tol"), ("atol", "abs_tol"), ("maxiter", "n_outer")):
        got = kw.get(k)
        chk.ob(None if got is None else str(got) == f"direct.{w}" or w in str(got), f"iterative solver: option {w} ({lab})", where, str(got)[:100])



def _overwrite(chk, lab, v):
    """Arrays that a transform may overwrite are not used by anything else."""
    root = v.m.closure("sys")
    parents = {}
    for t in walk(root):
        for x in children(t):
            parents.setdefault(x.cid, []).append(t)
    n = 0
    for t in walk(root):
        if t.op != "call" or t.args[0].op != "ext" or not t.args[0].args[0].endswith("fftn"):
            continue
        kw = dict(t.args[2])
        over = [k for k in ("overwrite_x", "overwrite_input") if k in kw and kw[k] != FALSE]
        if not over or not t.args[1]:
            continue
        n += 1
        x = t.args[1][0]
        users = []
        done = {t.cid}
        while x is not None:
            for p in parents.get(x.cid, ()):
                if p.cid in done or p.op == "attr" and p.args[1] in ("shape", "dtype", "size", "ndim"):
                    continue
                users.append(p)
            done.add(x.cid)
            if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].endswith("byte_align"):
                x = x.args[1][0]
            elif x.op in ("item", "getitem") and any(q.op == "slice" for q in children(x)[1:] + [z for c2 in children(x)[1:] for z in children(c2)]):
                x = x.args[0]
            else:
                x = None
        chk.ob(not users, f"transforms overwrite only their own arrays ({lab})", t.site or str(t)[:80],
               "; ".join(f"also used at {u.site}" for u in users[:3]))
    chk.count("transforms_with_overwrite", n)
