"""Algebraic model of the solver: rows of the linear system and extracted outputs."""

from sa import nf
from sa.nf import Poly, Stack, atom, poly, add, sub, mul, neg, vlen, part, ZERO, ONE, PI, MU0, _ATOMS
from sa.nfeval import Evaluator
from sa.repo import AnalysisBroken
from sa.scenario import Solver, typed_voxel, typed_materials, typed_sources, typed_material_val, typed_source_val
from sa.term import walk, sym, const, is_const, cval

DOMS = ("d1", "d2", "d3", "d4", "d5")
ITER = (".gmres", ".gcrotmk")


def vsym(n, cplx=False):
    return poly(atom(("sym", n), vec=True, cplx=cplx))


def ssym(n):
    return poly(atom(("sym", n)))


def dget(d, *keys):
    for k in keys:
        if d.op != "dict":
            return None
        for kk, v in d.args[0]:
            if is_const(kk) and cval(kk) == k:
                d = v
                break
        else:
            return None
    return d


class Model:
    """NF evaluation of a solver run (typed materials and sources)."""

    def __init__(self, repo, orient="isotropic", var="lumped", src_var="lumped", sweep=(("sw1", None),), **kw):
        kw.setdefault("stop", False)
        kw.setdefault("ignore_status", False)
        kw.setdefault("ignore_res", False)
        self.s = Solver(
            repo, freq=sym("freq"), sweep=sweep, vox=typed_voxel(),
            material=typed_materials(orient, var), source=typed_sources(src_var),
            material_val=typed_material_val(orient, var), source_val=typed_source_val(src_var), **kw,
        )
        self.out = self.s.res.frozen()
        self.tag = sweep[0][0]
        self.var, self.src_var, self.orient = var, src_var, orient
        self.iter_call = None
        sw = dget(self.out, "data_sweep", self.tag)
        if sw is None:
            raise AnalysisBroken("solver: no data for the sweep in the value graph")
        for t in walk(sw):
            if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith(ITER):
                self.iter_call = t
                break

    def evaluator(self, dc):
        vec, vec3 = [], []
        mats = [(k + "_" + t, d) for t, v, d in (("me", ("rho",), "d1"), ("mm", ("chi",), "d2"), ("mx", ("rho", "chi"), "d3"))
                for q in v for k in (q + "_re", q + "_im")]
        srcs = [(k + "_" + t, d) for t, v, d in (("sc", "IY", "d4"), ("sv", "VZ", "d5")) for q in v for k in (q + "_re", q + "_im")]
        dist = (mats if self.var == "distributed" else []) + (srcs if self.src_var == "distributed" else [])
        for n, d in dist:
            n = n + "_v"
            names = [n]
            if self.var == "distributed" and self.orient == "anisotropic" and (n[:-2], d) in mats:
                n = n + "3"
                vec3.append(n)
                names = [n + ".x", n + ".y", n + ".z"]
            else:
                vec.append(n)
            for q in names:
                nf.LENS[atom(("sym", q), vec=True).id] = vlen(vsym("idx_" + d))
        return Evaluator(
            vec=["idx_" + d for d in DOMS] + ["pts_cloud", "X", "Y"] + vec, vec3=vec3, cplx=["X", "Y"],
            positive=["nx", "ny", "nz", "dx", "dy", "dz"] + ([] if dc else ["freq"]),
            zero=["freq"] if dc else [], nonzero=[] if dc else ["freq"],
        )

    def closure(self, kind):
        """Value of the system operator / preconditioner applied to the symbolic vector X."""
        pos, kw = self.iter_call.args[1], dict(self.iter_call.args[2])
        op = pos[0] if kind == "sys" else kw.get("M")
        if op is None:
            raise AnalysisBroken(f"solver: no {kind} operator in the iterative solver call")
        f = None
        if op.op == "call":
            f = dict(op.args[2]).get("matvec") or (op.args[1][1] if len(op.args[1]) > 1 else None)
        if f is None or f.op != "func":
            raise AnalysisBroken(f"solver: {kind} operator is not a LinearOperator with a known function")
        r, st = self.s.eng.apply(f, [sym("X")], {}, self.s.res.state.copy(), None)
        return self.s.eng.freeze(r, st)

    def rhs_term(self):
        return self.iter_call.args[1][1]

    def output(self, *keys):
        t = dget(self.out, "data_sweep", self.tag, *keys)
        if t is None:
            raise AnalysisBroken("solver output is missing: " + ".".join(keys))
        return t

    def init(self, *keys):
        t = dget(self.out, "data_init", *keys)
        if t is None:
            raise AnalysisBroken("solver output is missing: data_init." + ".".join(keys))
        return t


def cat_parts(p):
    m = p.mono() if isinstance(p, Poly) else None
    if m and len(m[0]) == 1 and m[1] == nf.C1 and _ATOMS[m[0][0][0]].key[0] == "cat":
        return list(_ATOMS[m[0][0][0]].key[1])
    return None


class View:
    """Named index sets, unknowns and rows of a model in AC or DC."""

    def __init__(self, model, dc, cases=()):
        self.m = model
        self.dc = dc
        ev = self.ev = model.evaluator(dc)
        ev.cases = list(cases)
        g = lambda k: ev.ev(model.init(k))
        self.idx = {k: g("idx_" + k) for k in ("vc", "vm", "fc", "fm")}
        self.idx["src"] = nf.cat([(g("idx_src_c"), vlen(g("idx_src_c"))), (g("idx_src_v"), vlen(g("idx_src_v")))])
        self.rhs = ev.ev(model.rhs_term())
        n = {k: vlen(v) for k, v in self.idx.items()}
        self.n = n
        self.X = vsym("X", True)
        nf.LENS[_ATOMS[list(self.X.t)[0][0][0]].id] = add(*n.values())
        off = ZERO
        self.state = {}
        for name, k in (("I_fc", "fc"), ("V_vc", "vc"), ("I_src", "src"), ("I_fm", "fm"), ("V_vm", "vm")):
            self.state[name] = part(self.X, off, n[k])
            off = add(off, n[k])
        ev.known = {i for v in self.idx.values() for i in nf.atoms_in(v)}
        self.sid = {list(v.t)[0][0][0]: k for k, v in self.state.items()}
        self.nv = mul(ssym("nx"), ssym("ny"), ssym("nz"))
        for k in ("fc", "fm", "vc", "vm"):
            mm = self.idx[k].mono()
            if mm and len(mm[0]) == 1:
                nf.NAMES[mm[0][0][0]] = "idx_" + k
        for i, k in self.sid.items():
            nf.NAMES[i] = k

    def incidence(self):
        """Atom of the incidence matrix (the matrix behind the face indices), if unique."""
        out = {a.id: a for k in ("fc", "fm") for a in nf.atoms_in(self.idx[k]).values() if a.key[0] == "msum"}
        return list(out.values())[0] if len(out) == 1 else None

    def position(self, d):
        """Position of the voxels of a domain in the electric voxels."""
        return poly(atom(("pos", self.idx["vc"], vsym("idx_" + d)), vec=True))

    def deps(self, p):
        """Names of the unknowns a value depends on."""
        return {self.sid[i] for i in nf.atoms_in(p) if i in self.sid} | (
            {"X"} if any(a.key == ("sym", "X") for a in nf.atoms_in_top(p, self.sid).values()) else set())

    def groups(self, p):
        """Split a polynomial by (set of unknowns, power of the frequency)."""
        out = {}
        fid = atom(("sym", "freq")).id
        for m, c in p.t.items():
            q = Poly({m: c})
            k = (tuple(sorted(self.deps(q))), dict(m).get(fid, 0))
            out[k] = add(out[k], q) if k in out else q
        return out

    def rows(self, kind="sys"):
        v = self.ev.ev(self.m.closure(kind))
        return self.split(v)

    def split(self, v):
        ps = cat_parts(v)
        names = ("I_fc", "V_vc", "I_src", "I_fm", "V_vm")
        off = ZERO
        out = {}
        for nm in names:
            k = nf.part(v, off, vlen(self.state[nm]))
            out[nm] = k
            off = add(off, vlen(self.state[nm]))
        return out
