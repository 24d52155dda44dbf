"""Properties of the mesher: geometry, domains, connectivity."""

from fractions import Fraction

from sa import nf
from sa.nf import add, sub, mul, inv, const
from sa.arrays import Eval, Unknown, Mismatch, Part, Arr, Seq, Sub, coll, linear, compare, S, key, poly, atom, f_and, f_or, f_not, var
from sa.engine import Engine
from sa.scenario import to_term
from sa.term import sym, cval, is_const, mk, walk
from checks.solver import repo
from sa import sets
from checks.flow import Guards
from checks.inputs import opaque

XYZ = "xyz"
HALF = const(Fraction(1, 2))


def T3(p):
    return [sym(p + k) for k in XYZ]


def S3(p):
    return [S(p + k) for k in XYZ]


class Mesh:
    """Abstract run of the mesher."""

    def __init__(self, mesh, vox, resampling=(False, False), point=(False, False), conflict=None, integrity=None, final=True, decide=None):
        self.eng = Engine(repo())
        self.eng.strip_copy = True
        self.eng.decide = decide
        st = self.eng.state.copy()
        geom = {
            "mesh_type": mesh, "data_voxelize": vox,
            "data_point": {"check_cloud": point[0], "full_cloud": point[1], "pts_cloud": sym("pts")},
            "data_resampling": {"use_reduce": resampling[0], "use_resample": resampling[1], "resampling_factor": T3("r")},
            "data_conflict": conflict or {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
            "data_integrity": integrity or {"domain_connected": {}, "domain_adjacent": {}},
        }
        self.res = self.eng.run("pypeec.run.mesher", "run", [to_term(self.eng, st, geom)], state=st)
        if not final:
            return
        self.out = self.res.frozen()
        self.geom = entries(entries(self.out)["data_geom"])

    def raises(self):
        return [e for e in self.eng.events if e.kind == "raise"]


def entries(t):
    if t is None or t.op != "dict":
        raise Unknown("not a dictionary")
    return {cval(k): v for k, v in t.args[0] if is_const(k)}


VOXEL = {"param": {"n": T3("n"), "d": T3("d"), "c": T3("c")}, "domain_index": {"a": sym("ia"), "b": sym("ib")}}
DOMS = ("a", "b")


def domains(n, tags=DOMS):
    """Generic elements of the domains: leaves, coordinates."""
    leaves, coords, pos = {}, [], {}
    for a in tags:
        x = [S(f"{k}.{a}") for k in XYZ]
        lin = linear(x, n, "F")
        leaves["i" + a] = coll([(Part(("dom", a)), lin)])
        coords.append((lin, (n, x)))
        pos[a] = x
    return leaves, coords, pos


def same(x, y):
    return key(x) == key(y)


def where(m, name):
    e = [e for e in m.eng.events if e.kind == "enter" and name in str(e.data)]
    return None


SITE = "pypeec/lib_mesher/voxel_resampling.py"


def attempt(chk, name, site, fct):
    """Obligation: fct() returns a list of differences (Unknown: undecided)."""
    try:
        bad = fct()
    except Mismatch as ex:
        chk.bad(name, site, str(ex))
        return
    except (Unknown, KeyError, IndexError, TypeError, AttributeError, ValueError) as ex:
        chk.undecided(name, site, f"{type(ex).__name__}: {str(ex)[:150]}")
        return
    chk.ob(not bad, name, site, "; ".join(str(x)[:200] for x in bad[:3]))


# ---------------------------------------------------------------- reduction and resampling

def resampling(chk):
    chk.floor("element_identities", 8)
    n = S3("n")
    for use in ((False, False), (True, False), (False, True), (True, True)):
        chk.count("model_configurations")
        m = Mesh("voxel", VOXEL, use)
        lab = f"reduce={use[0]}, resample={use[1]}"
        leaves, coords, pos = domains(n)
        lo = [bound("min", [pos[a][k] for a in DOMS]) for k in range(3)]
        hi = [bound("max", [pos[a][k] for a in DOMS]) for k in range(3)]
        n1 = [add(sub(hi[k], lo[k]), const(1)) for k in range(3)] if use[0] else n
        p1 = {a: [sub(pos[a][k], lo[k]) if use[0] else pos[a][k] for k in range(3)] for a in DOMS}
        for a in DOMS:
            # a voxel of the reduced structure (the coordinates are between zero and the size)
            coords.append((linear(p1[a], n1, "F"), (n1, p1[a])))
        r = S3("r")
        f = r if use[1] else [const(1)] * 3
        n2 = [mul(n1[k], f[k]) for k in range(3)]
        d2 = [mul(S("d" + k), inv(f[i])) for i, k in enumerate(XYZ)]
        c2 = [add(S("c" + k), mul(HALF, S("d" + k), sub(add(lo[i], hi[i], const(1)), n[i]))) if use[0] else S("c" + k) for i, k in enumerate(XYZ)]
        ev = Eval(leaves, coords)

        def vec(tag, exp):
            def fct():
                v = [x for x in ev.items(ev.ev(m.geom[tag]))]
                return [f"{tag}[{k}] = {v[k]}, expected {exp[k]}" for k in range(3) if len(v) != 3 or not same(v[k], exp[k])]
            attempt(chk, f"{TITLE[tag]} ({lab})", SITE, fct)
        vec("n", n2)
        vec("d", d2)
        vec("c", c2)
        vec("s", [mul(n2[k], d2[k]) for k in range(3)])

        def tags():
            return [] if set(entries(m.geom["domain_def"])) == set(DOMS) else [f"domains: {sorted(entries(m.geom['domain_def']))}"]
        attempt(chk, f"no domain is lost or created ({lab})", SITE, tags)
        for a in DOMS:
            def elem(a=a):
                chk.count("element_identities")
                v = ev.ev(entries(m.geom["domain_def"])[a])
                gen = v.gen() if isinstance(v, Arr) else []
                if len(gen) != 1:
                    return [f"{len(gen)} collections of voxels"]
                (_, val, cond) = gen[0]
                if cond is not True:
                    return ["some voxels are removed"]
                if use[1]:
                    return resampled(val, v, a, p1[a], n2, r)
                if v.shape[0].parts[0].src != ("dom", a):
                    return ["voxels of another domain"]
                return [] if same(val, linear(p1[a], n2, "F")) else [f"index {val}"]
            attempt(chk, f"every voxel of a domain keeps its position (domain {a}, {lab})", SITE, elem)


TITLE = {"n": "number of voxels", "d": "size of the voxels", "c": "center of the structure", "s": "size of the structure"}


def bound(kind, vals):
    from sa.arrays import _reduce
    return _reduce(kind, [(v, True, (Part(("dom", a)).key,)) for v, a in zip(vals, DOMS)])


def resampled(val, v, a, p, n2, r):
    """Every voxel is replaced by all the voxels of its box."""
    from sa.nf import _ATOMS
    subs = {}
    for i in sorted({i for m in val.t for i, _ in m}):
        k = _ATOMS[i].key
        if k[0] == "unravel":
            subs[(k[1], k[2], k[3])] = subs.get((k[1], k[2], k[3]), set()) | {k[4]}
        elif k[0] == "ix":
            return ["the subdivision is not resolved"]
    if len(subs) != 1:
        return [f"{len(subs)} subdivisions of a voxel"]
    (u, dims, order), = subs
    src = v.shape[0].parts[0].src
    want = ("dom", a)
    if src[0] != "flat" or Part(want).key not in src[2]:
        return ["voxels of another domain"]
    ranges = [x for x in src[2] if x[0] == "range"]
    if len(ranges) != 1 or len(src[2]) != 2:
        return ["subdivisions are not combined with the voxels"]
    vol = mul(*r)
    k0 = poly(atom(("ix", ranges[0][1], ranges[0][2])))
    if ranges[0][2] != vol.key() or u != k0.key():
        return ["not all the subdivisions are used"]
    keys = [x.key() for x in r]
    if sorted(map(repr, dims)) != sorted(map(repr, keys)):
        return ["another number of subdivisions"]
    # any assignment of the axes of the box with the right number of subdivisions
    import itertools
    for perm in itertools.permutations(range(3)):
        if [dims[k] for k in perm] != keys:
            continue
        x = [add(mul(r[k], p[k]), poly(atom(("unravel", u, dims, order, perm[k])))) for k in range(3)]
        if same(val, linear(x, n2, "F")):
            return []
    return [f"index {val}"]


# ---------------------------------------------------------------- domains and conflicts

SETS3 = {"param": {"n": T3("n"), "d": T3("d"), "c": T3("c")}, "domain_index": {k: sym("i" + k) for k in "abc"}}
VOXSET = SETS3["domain_index"]
CONF = "pypeec/lib_mesher/voxel_conflict.py"
RULES = [
    [{"domain_resolve": ["a"], "domain_keep": ["b"]}],
    [{"domain_resolve": ["a", "b"], "domain_keep": ["c"]}, {"domain_resolve": ["c"], "domain_keep": ["a"]}],
    [{"domain_resolve": ["c"], "domain_keep": ["a", "b"]}, {"domain_resolve": ["b"], "domain_keep": ["a", "c"]}],
    [{"domain_resolve": ["a"], "domain_keep": ["b"]}, {"domain_resolve": ["b"], "domain_keep": ["a"]}],
]


def conflict_cfg(rules=None, random=False, use=True):
    return {"resolve_rules": bool(rules) and use, "resolve_random": random, "conflict_rules": rules or []}


def conflict(chk):
    chk.floor("domains", 18)
    cfgs = [("no resolution", None, False, True), ("unused rules", RULES[1], False, False), ("random", None, True, True), ("rules and random", RULES[1], True, True)]
    cfgs += [(f"rules {k}", r, False, True) for k, r in enumerate(RULES)]
    for lab, rules, random, use in cfgs:
        chk.count("model_configurations")
        m = Mesh("voxel", SETS3, conflict=conflict_cfg(rules, random, use))
        attempt(chk, f"no domain is lost or created ({lab})", CONF, lambda: [] if set(entries(m.geom["domain_def"])) == set("abc") else [f"{sorted(entries(m.geom['domain_def']))}"])
        dom = entries(m.geom["domain_def"])
        exp = {k: sets.arr(sym("i" + k)).expr for k in "abc"}
        for r in rules if rules and use else []:
            for keep in r["domain_keep"]:
                for res in r["domain_resolve"]:
                    exp[res] = ("d", exp[res], exp[keep])
        if random:
            random_split(chk, lab, dom, exp, bool(rules))
        else:
            for k in "abc":
                chk.count("domains")
                attempt(chk, f"voxels of the domain {k} ({lab})", CONF,
                        lambda k=k: [] if sets.same_expr(sets.arr(dom[k]).expr, exp[k]) else [f"{dom[k]}"])
        # overlapping domains are rejected
        rs = m.raises()
        for e in rs:
            chk.count("rejections")
        uni = sets.uniq(sets.Arr([p for k in "abc" for p in sets.arr(dom[k]).parts]))
        fs = []
        for e in rs:
            f = [sets.fact(m.eng.freeze(c, m.res.state), p) for c, p in e.facts]
            fs.append((("and", [x for x in f if x is not None]), e))
        if not random:
            ok = sets.implies(sets.neg(uni), ("or", [f for f, _ in fs]))
            chk.ob(ok, f"domains sharing voxels are rejected ({lab})", CONF, "the domains can share voxels and no error is raised")
        bad = ("or", [sets.neg(x) for x in ([] if random else [uni]) + [sets.uniq(sets.arr(VOXSET[k])) for k in "abc"]])
        for f, e in fs:
            if opaque(f) or random and e.where().startswith(CONF):
                continue
            ok = sets.implies(f, bad)
            chk.ob(ok, f"only domains sharing voxels are rejected ({lab})", e.where(), f"raised for disjoint domains: {str(e.facts[-1:])[:200]}")
    for lab, rule in (("keep", {"domain_resolve": ["a"], "domain_keep": ["b", "zz"]}), ("resolve", {"domain_resolve": ["a", "zz"], "domain_keep": ["b"]})):
        chk.count("model_configurations")
        m = Mesh("voxel", SETS3, conflict=conflict_cfg([rule]), final=False)
        g = Guards(m.eng)
        dead = [e for e in m.raises() if g.definite(e)]
        chk.ob(bool(dead), f"unknown domains in the rules are rejected ({lab})", CONF, "no error is raised")


def random_split(chk, lab, dom, exp, ruled):
    """Every voxel is given to exactly one of its domains."""
    leaves = {"i" + k: coll([(Part(("set", sets.arr(sym("i" + k)).expr)), poly(atom(("member", "i" + k))))]) for k in "abc"}
    ev = Eval(leaves, [])
    if ruled:
        # the sets after the rules are arbitrary arrays
        ev.calls["numpy.setdiff1d"] = lambda s, t, pos, kw: coll([(Part(("set", sets.arr(t).expr)), poly(atom(("member", t.cid))))])

    def fct():
        firsts, bad = set(), []
        for k in "abc":
            chk.count("domains")
            v = ev.ev(dom[k])
            if not isinstance(v, Arr):
                raise Unknown(f"voxels of the domain {k}")
            gen = [(ix, val, c) for ix, val, c in v.gen() if c is not False]
            if len(gen) != 1:
                return [f"domain {k}: {len(gen)} sources of voxels"]
            ix, val, c = gen[0]
            p = ix[0][1]
            if p.src[0] != "set" or not sets.same_expr(p.src[1], exp[k]):
                bad.append(f"domain {k}: voxels of another domain")
            if c is True or c[0] != "atom" or c[1][0] != "first":
                bad.append(f"domain {k}: several domains can keep the same voxel ({c})")
            else:
                firsts.add(c[1][1])
        if len(firsts) > 1:
            bad.append("the voxels are not distributed at once")
        elif firsts:
            # the distribution is made among all the voxels of all the domains
            (ax,), els = next(iter(firsts))[1:]
            parts = [x[1] for x in ax[1]]
            conds = [x[2] for x in parts]
            srcs = [x[1] for x in parts]
            if len(srcs) != 3 or any(x is not True for x in conds):
                bad.append("the voxels of some domains are not distributed")
        return bad
    attempt(chk, f"every voxel is attributed to exactly one of its domains ({lab})", CONF, fct)


# ---------------------------------------------------------------- connectivity

INTEG = "pypeec/lib_mesher/voxel_integrity.py"
GROUPS = {"two groups": [["a"], ["b", "c"]], "three groups": [["a"], ["b"], ["c"]]}


def decider(empty):
    """Emptiness of the domains."""
    fs = []
    for k in "abc":
        f = ("empty", sets.arr(VOXSET[k]).expr)
        fs.append(f if k in empty else sets.neg(f))
    given = ("and", fs)

    def decide(c):
        f = sets.cond(c)
        if f[0] == "const":
            return f[1]
        if opaque(f) or f[0] not in ("empty", "not"):
            return None
        return True if sets.implies(given, f) else False if sets.implies(given, sets.neg(f)) else None
    return decide


def set_formula(t):
    """Conditions on the emptiness of sets."""
    try:
        f = sets.cond(t)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError):
        return None
    if f[0] == "empty" or f[0] == "not" and f[1][0] == "empty":
        if any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.intersect1d", "numpy.isin", "numpy.in1d") or x.op == "bmeth" for x in walk(t)):
            return ("atom", ("sets", f)) if f[0] == "empty" else f_not(("atom", ("sets", f[1])))
    return None


class Graphs:
    def __init__(self, ev):
        self.ev, self.graphs = ev, []
        ev.calls["scipy.sparse.csgraph.connected_components"] = self.components
        ev.formulas = set_formula

    def components(self, ev, t, pos, kw):
        a = ev.ev(kw.get("csgraph") or pos[0])
        if not isinstance(a, Sub) or a.rows is None or a.cols is None:
            raise Unknown("graph")
        self.graphs.append((a, t))
        g = (id(a.matrix), a.rows.key(), a.cols.key())
        labels = Arr((a.rows.shape[0],), lambda ix: poly(atom(("label", g, ix[0][1].key))))
        lab = kw.get("return_labels")
        if lab is not None and is_const(lab) and cval(lab) is False:
            return poly(atom(("components", g)))
        return Seq([poly(atom(("components", g))), labels])


def neighbours(m, n):
    """Differences between a connection matrix and the six neighbours of each voxel; identity included."""
    want = {}
    for k in range(3):
        dims = [sub(n[j], const(1)) if j == k else n[j] for j in range(3)]
        p = [var(j, dims[j]) for j in range(3)]
        q = [add(p[j], const(1)) if j == k else p[j] for j in range(3)]
        lo, hi = linear(p, n, "F"), linear(q, n, "F")
        want[(key(lo), key(hi))] = want[(key(hi), key(lo))] = XYZ[k]
    nv = mul(*n)
    diag = {key(var(0, nv)), key(linear([var(j, n[j]) for j in range(3)], n, "F"))}
    bad, seen, ident = [], set(), False
    if m.shape is not None and [key(x) for x in m.shape] != [key(nv), key(nv)]:
        bad.append("size of the connection matrix")
    for r, c, v, cond in m.entries:
        if cond is not True or not v.is_const():
            raise Unknown("conditional connection")
        if v.cval()[0] == 0:
            continue
        if v.cval()[0] < 0:
            raise Unknown("negative connection")
        k = (key(r), key(c))
        if k in want:
            seen.add(k)
        elif key(r) == key(c):
            ident = ident or key(r) in diag
        elif all(nf._ATOMS[i].key[0] in ("ix", "sym") for p in (r, c) for mono in p.t for i, _ in mono):
            bad.append(f"voxels {r} and {c} are connected")
        else:
            raise Unknown("connection")
    for k, ax in want.items():
        if k not in seen:
            bad.append(f"neighbours along {ax} are not connected")
    return bad, ident


def truth(f, asg, box=None, i=None):
    """Value of a formula for an assignment; box: number of objects of a quantifier (i: current object)."""
    if isinstance(f, bool):
        return f
    k = f[0]
    if k == "not":
        return not truth(f[1], asg, box, i)
    if k in ("and", "or"):
        return (all if k == "and" else any)(truth(x, asg, box, i) for x in f[1])
    if k in ("any", "all") and box is not None and i is None and len(f[1][0]) == 1 and f[1][1] is True:
        return (all if k == "all" else any)(truth(f[2], asg, box, j) for j in range(box))
    if k in ("pos", "nneg", "zero"):
        x = number(f[1], asg, box, i)
        return x > 0 if k == "pos" else x >= 0 if k == "nneg" else x == 0
    if k == "atom":
        return asg(f[1], i)
    raise Unknown("condition")


def number(p, asg, box, i):
    from sa.arrays import IND
    out = Fraction(0)
    for mono, c in p.t.items():
        x = Fraction(c[0] if isinstance(c, tuple) else c)
        for n, e in mono:
            a = nf._ATOMS[n].key
            if a[0] == "ind":
                b = truth(IND[a[1]], asg, box, i)
            elif a[0] == "count" and box is not None and i is None and all(len(r[2]) == 1 and r[1] is True and r[0] in IND for r in a[1]):
                b = sum(truth(IND[r[0]], asg, box, j) for r in a[1] for j in range(box))
            elif a[0] == "links":
                b = asg(a, i)
            else:
                raise Unknown("number")
            x *= Fraction(int(b)) ** e
        out += x
    return out


def leaf_keys(f, out):
    from sa.arrays import IND
    if isinstance(f, bool):
        return
    k = f[0]
    if k == "not":
        leaf_keys(f[1], out)
    elif k in ("any", "all"):
        leaf_keys(f[2], out)
    elif k in ("and", "or"):
        for x in f[1]:
            leaf_keys(x, out)
    elif k in ("pos", "nneg", "zero"):
        for mono in f[1].t:
            for n, _ in mono:
                a = nf._ATOMS[n].key
                if a[0] == "ind":
                    leaf_keys(IND[a[1]], out)
                elif a[0] == "count":
                    for r in a[1]:
                        if r[0] not in IND:
                            raise Unknown("condition")
                        leaf_keys(IND[r[0]], out)
                elif a[0] == "links":
                    out.add(a)
                else:
                    raise Unknown("condition")
    elif k == "atom":
        out.add(f[1])
    else:
        raise Unknown("condition")


def connectivity(chk):
    chk.floor("connections", 12)
    chk.floor("rules", 12)
    for use in ((False, False), (False, True), (True, False)):
        _graph(chk, use)
    for lab, groups in GROUPS.items():
        for empty in ("", "a"):
            for conn in (True, False):
                for kind in ("domain_connected", "domain_adjacent"):
                    chk.count("model_configurations")
                    _rule(chk, kind, groups, empty, conn, f"{lab}{', one without voxels' if empty else ''}, connected={conn}")
    for kind in ("domain_connected", "domain_adjacent"):
        chk.count("model_configurations")
        rules = {"domain_connected": {}, "domain_adjacent": {}, kind: {"t": {"domain_group": [["a"], ["b", "zz"]], "connected": True}}}
        m = Mesh("voxel", SETS3, integrity=rules, final=False, decide=decider(""))
        g = Guards(m.eng)
        chk.ob(any(g.definite(e) for e in m.raises()), f"unknown domains in the rules are rejected ({kind})", INTEG, "no error is raised")


def _graph(chk, use):
    chk.count("model_configurations")
    m = Mesh("voxel", VOXEL, use)
    lab = f"reduce={use[0]}, resample={use[1]}"
    n = S3("n")
    leaves, coords, pos = domains(n)
    ev = Eval(leaves, coords)
    gr = Graphs(ev)
    g = m.geom["graph_def"]

    def graph():
        if g.op != "map":
            raise Unknown("collection of components")
        body = ev.ev(g.args[1])
        box = ev.ev(g.args[0])
        if not gr.graphs or not isinstance(body, Arr):
            raise Unknown("components")
        a, call = gr.graphs[-1]
        n2 = ev.items(ev.ev(m.geom["n"]))
        chk.count("connections", len(a.matrix.entries))
        bad, _ = neighbours(a.matrix, n2)
        dirs = dict(call.args[2]).get("connection")
        if dirs is not None and is_const(dirs) and cval(dirs) not in ("weak", "strong"):
            raise Unknown("kind of components")
        # the voxels of all the final domains
        doms = entries(m.geom["domain_def"])
        want = {}
        for k, t in doms.items():
            v = ev.ev(t)
            for ix, val, c in v.gen():
                want[key(val)] = c
        for what, x in (("rows", a.rows), ("columns", a.cols)):
            have = {key(val): c for ix, val, c in x.gen()}
            if have != want:
                bad.append(f"the {what} of the graph are not the voxels of all the domains")
        if a.rows.key() != a.cols.key():
            bad.append("the graph is not restricted to the same voxels for the rows and the columns")
        # every component contains the voxels with the same label
        gid = (id(a.matrix), a.rows.key(), a.cols.key())
        if not isinstance(box, Arr) or not dim_same(box.shape[0], poly(atom(("components", gid)))) or not same(box.fn((S("i"),)), S("i")):
            raise Unknown("number of components")
        el = ev.ev(mk("elem", g.args[0]))
        have = {}
        for ix, val, c in body.gen():
            p = ix[0][1]
            base = a.rows.shape[0].parts[ix[0][0]]
            exp = compare("==", poly(atom(("label", gid, base.key))), el)
            have[key(val)] = base.cond
            if key(f_and(base.cond, exp)) != key(c):
                bad.append(f"a component contains voxels of another component ({c})")
        if have != want:
            bad.append("the components do not contain the voxels of all the domains")
        return bad
    attempt(chk, f"connected components of the voxels sharing a face ({lab})", INTEG, graph)


def dim_same(a, b):
    return key(a) == key(b)


def _rule(chk, kind, groups, empty, conn, lab):
    rules = {"domain_connected": {}, "domain_adjacent": {}, kind: {"t": {"domain_group": groups, "connected": conn}}}
    m = Mesh("voxel", SETS3, integrity=rules, decide=decider(empty))
    leaves = {"i" + k: coll([(Part(("set", sets.arr(sym("i" + k)).expr)), poly(atom(("member", "i" + k))))]) for k in "abc"}
    ev = Eval(leaves, [])
    gr = Graphs(ev)
    g = m.geom["graph_def"]
    live = [x for x in ([k for k in grp if k not in empty] for grp in groups) if x]
    name = f"{'groups sharing a component' if kind == 'domain_connected' else 'adjacent groups'} ({lab})"
    rs = [e for e in m.raises() if e.where().startswith(INTEG)]
    quiet = Guards(m.eng)

    def fct():
        chk.count("rules")
        if not rs:
            return ["no error is raised"]
        if len(rs) > 1:
            raise Unknown("several errors")
        e, = rs
        fs = [(m.eng.freeze(c, m.res.state), p) for c, p in e.facts]
        c, p = fs[-1]
        if any(not quiet.passed(x, y) for x, y in e.facts[:-1]):
            raise Unknown("condition of the error")
        f = ev.formula(c)
        f = f if p else f_not(f)
        n = S3("n")
        if kind == "domain_connected":
            if g.op != "map":
                raise Unknown("collection of components")
            part = sets.arr(g.args[1]).expr
            var_of = [("i", part, ("u",) + tuple(sets.arr(VOXSET[x]).expr for x in grp) if len(grp) > 1 else sets.arr(VOXSET[grp[0]]).expr) for grp in live]

            def which(a):
                if a[0] != "sets" or a[1][0] != "empty":
                    raise Unknown("condition")
                for j, x in enumerate(var_of):
                    if sets.same_expr(a[1][1], x):
                        return j
                raise Unknown("condition")
            return table(f, len(live), which, conn)
        # adjacency of the groups
        from sa.arrays import LINKS
        mats = {}

        def which(a):
            if a[0] != "links":
                raise Unknown("condition")
            s = LINKS[a]
            mats[id(s.matrix)] = s.matrix
            ij = []
            for x in (s.rows, s.cols):
                src = sorted(repr(ix[0][1].src) for ix, _, _ in x.gen())
                hit = [j for j, grp in enumerate(live) if src in (sorted(repr(("set", sets.arr(sym("i" + y)).expr)) for y in full) for full in (grp, [z for gg in groups if set(grp) <= set(gg) for z in gg]))]
                if len(hit) != 1:
                    return a, False
                ij += hit
            return ("l", min(ij), max(ij)), False
        leaf = set()
        leaf_keys(f, leaf)
        for a in leaf:
            which(a)
        if not mats:
            raise Unknown("no matrix")
        ident = True
        bad = []
        for mat in mats.values():
            b, i = neighbours(mat, n)
            bad += b
            ident = ident and i
            chk.count("connections", len(mat.entries))
        if bad:
            return bad
        return links(f, leaf, which, len(live), ident, conn)
    attempt(chk, name, rs[0].where() if rs else INTEG, fct)


def table(f, k, which, conn):
    """The error is raised exactly for the forbidden patterns of shared components (up to three components)."""
    import itertools
    leaf = set()
    leaf_keys(f, leaf)
    ids = {a: which(a) for a in leaf}
    for comps in (1, 2, 3):
        for vals in itertools.product((False, True), repeat=comps * k):
            v = [vals[i * k:i * k + k] for i in range(comps)]
            cnt = [sum(x) for x in v]
            exp = not any(c == k for c in cnt) if conn else any(c > 1 for c in cnt)

            def asg(a, i):
                if i is None:
                    raise Unknown("condition")
                return not v[i][ids[a]]
            if truth(f, asg, comps) != exp:
                return [f"wrong result for components with the groups {[[j for j in range(k) if x[j]] for x in v]}"]
    return []


def links(f, leaf, which, k, ident, conn):
    import itertools
    ids = {a: which(a)[0] for a in leaf}
    pairs = [("l", i, j) for i in range(k) for j in range(i, k)]
    free = sorted(set(ids.values()) | set(pairs), key=repr)
    if ident:
        free = [x for x in free if not (x[0] == "l" and x[1] == x[2])]
    if len(free) > 9:
        raise Unknown("too many conditions")
    for vals in itertools.product((False, True), repeat=len(free)):
        v = dict(zip(free, vals))
        for i in range(k):
            v.setdefault(("l", i, i), True)

        def touch(i, j):
            return i == j or v[("l", min(i, j), max(i, j))]
        cnt = [sum(touch(i, j) for j in range(k)) for i in range(k)]
        exp = not any(c == k for c in cnt) if conn else any(c > 1 for c in cnt)
        if truth(f, lambda a, _: v[ids[a]]) != exp:
            return [f"wrong result if the groups {[x[1:] for x in pairs if v[x] and x[1] != x[2]]} are adjacent"]
    return []
