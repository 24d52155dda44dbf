"""Plots: selection, files, grid, values of the voxels, drawn fields."""

from sa import nf
from sa.engine import Engine
from sa.plots import (Eval, Ids, Arr, Mesh, Unknown, Mismatch, NAN, fkey, real, cplx, num, show,
                      vadd, vmul, vdiv, vre, vim, vabs, vnorm, vcos, vsin, vext, vcmp, vand, fn, srt)
from sa.report import parallel
from sa.scenario import to_term
from sa.term import const, is_const, cval, sym, mk, walk
from checks.entry import name_of, method_of
from checks.solver import repo

SWEEPS, PLOTS = ("s1", "s2"), ("p1", "p2", "p3")
VARS = {"V_c": ("scalar_electric", "idx_vc"), "V_m": ("scalar_magnetic", "idx_vm"), "J_c": ("vector_electric", "idx_vc"),
        "B_m": ("vector_magnetic", "idx_vm"), "H_p": ("cloud", "pts_cloud")}
INDEX = ("idx_vc", "idx_vm", "idx_src_c", "idx_src_v", "pts_cloud")
MATERIAL = [e for e in (dict(zip(INDEX, (a, b, c, v, False))) for a in (True, False) for b in (True, False) for c, v in ((False, False), (True, False), (False, True)))
            if (e["idx_vc"] or e["idx_vm"]) and (e["idx_vc"] or not (e["idx_src_c"] or e["idx_src_v"]))]
POINTS = [{k: k == "pts_cloud" for k in INDEX}]
LAYOUTS = {"material": "J_c", "norm_voxel": "J_c", "phasor_voxel": "V_m", "arrow_voxel": "B_m", "norm_point": "H_p", "phasor_point": "H_p", "arrow_point": "H_p"}
VDOM = ("d.a", "d.b", "g.0", "g.1")
VENV = [{"d.a": a, "d.b": not a, "g.0": g, "g.1": not g, "pts_cloud": False} for a in (True, False) for g in (True, False)]
CLIP = ("clip_invert", "clip_axis", "clip_value")


def _options(p, on, clip):
    S = lambda k: sym(f"{p}.{k}")
    view = {k: on for k in ("grid_plot", "geom_plot", "point_plot")}
    view.update({k: S(k) for k in ("grid_color", "grid_opacity", "grid_thickness", "geom_color", "geom_opacity", "geom_thickness", "point_color", "point_opacity", "point_size",
                                   "camera_roll", "camera_azimuth", "camera_elevation")})
    theme = {"axis_add": on}
    theme.update({k: S(k) for k in ("background_color", "axis_size", "text_color", "title_font", "colorbar_plot", "colorbar_size", "colorbar_font")})
    return {"plot_clip": dict({k: S(k) for k in CLIP}, clip_plot=clip), "plot_view": view, "plot_theme": theme}


def _window(p):
    return {k: sym(f"{p}.{k}") for k in ("show_menu", "image_size", "window_size", "notebook_size")}


def plot(p, layout, lims=False, on=True, clip=False):
    S = lambda k: sym(f"{p}.{k}")
    keys = ("phase", "scale", "log", "color_lim", "arrow_threshold", "arrow_scale", "legend", "title", "point_size", "colormap", "opacity", "color_voxel", "color_reference",
            "opacity_voxel", "opacity_reference", "color_electric", "color_magnetic", "color_electromagnetic", "color_current_source", "color_voltage_source",
            "n_bins", "tol_bins", "bar_color", "edge_color", "color_active", "color_reactive", "marker", "width")
    data = {k: S(k) for k in keys}
    data["filter_lim"] = (S("f_min"), S("f_max")) if lims else None
    data["clamp_lim"] = (S("c_min"), S("c_max")) if lims else None
    data["var"] = LAYOUTS.get(layout)
    mpl = layout in ("convergence", "residuum")
    opt = {k: S(k) for k in ("style", "legend", "font")} if mpl else _options(p, on, clip)
    return {"framework": "matplotlib" if mpl else "pyvista", "title": S("window"), "layout": layout, "data_window": _window(p), "data_plot": data, "data_options": opt}


class Scene:
    """One run of the viewer or of the plotter."""

    def __init__(self, stage, plots, mode="save", tag_sweep=None, tag_plot=None, folder=sym("folder"), name=sym("name"), reference=False):
        self.eng = eng = Engine(repo())
        eng.strip_copy = True
        st = eng.state.copy()
        self.opened = []

        def opener(kind, show_=False):
            def model(e, args, kwargs, s, node):
                if kind == "figure" and args:
                    e.emit("current", (e.freeze(args[0], s),), s, node)
                    return args[0], s
                t = sym(f"{kind}#{len(self.opened)}")
                self.opened.append((t, {k: e.freeze(v, s) for k, v in kwargs.items()}))
                e.emit("opened", (t, {k: e.freeze(v, s) for k, v in kwargs.items()}), s, node)
                return t, s
            return model
        eng.call_models["pyvista.Plotter"] = opener("plotter")
        eng.call_models["pyvistaqt.BackgroundPlotter"] = opener("qtplotter")
        eng.call_models["matplotlib.pyplot.figure"] = opener("figure")
        geom = {"n": tuple(sym(k) for k in ("nx", "ny", "nz")), "d": tuple(sym(k) for k in ("dx", "dy", "dz")), "c": tuple(sym(k) for k in ("cx", "cy", "cz"))}
        opts = [None if tag_plot is None else list(tag_plot), mode, folder, name]
        if stage == "plotter":
            init = dict(geom, **{k: sym(k) for k in INDEX})
            sweep = {s: {"res": sym(f"{s}.res"), "conv": {k: sym(f"{s}.{k}") for k in ("power_init", "power_final", "power_vec")},
                         "var": {v: {"var": sym(f"{s}.{v}"), "cat": c} for v, (c, _) in VARS.items()}} for s in SWEEPS}
            data = {"date": sym("date"), "duration": sym("duration"), "seconds": sym("seconds"), "status": True, "data_init": init, "data_sweep": sweep}
            opts = [None if tag_sweep is None else list(tag_sweep)] + opts
        else:
            ref = {"points": sym("ref.points"), "faces": sym("ref.faces")} if reference else None
            dom = {"a": sym("d.a"), "b": sym("d.b")}
            geo = dict(geom, domain_def=dom, graph_def=[sym("g.0"), sym("g.1")], pts_cloud=sym("pts_cloud"), reference=ref)
            geo["data_geom"] = geo.copy()
            data = {"date": sym("date"), "duration": sym("duration"), "seconds": sym("seconds"), "status": True, "data_geom": geo}
        args = [to_term(eng, st, x) for x in [data, plots] + opts]
        self.res = eng.run(f"pypeec.run.{stage}", "run", args, state=st)
        self.where = f"pypeec/run/{stage}.py"

    def leaves(self):
        out = {k: Ids(("seq", k)) for k in INDEX + VDOM}
        for s in SWEEPS:
            for v, (c, idx) in VARS.items():
                out[f"{s}.{v}"] = Arr(("seq", idx), lambda e, x=cplx(f"{s}.{v}"): x, vec=c != "scalar_electric" and c != "scalar_magnetic")
            out[f"{s}.power_init"], out[f"{s}.power_final"] = cplx(f"{s}.power_init"), cplx(f"{s}.power_final")
            out[f"{s}.power_vec"] = Arr(("seq", "power_vec"), lambda e, x=cplx(f"{s}.power_vec"): x)
            out[f"{s}.res"] = Arr(("seq", "res"), lambda e, x=cplx(f"{s}.res"): x)
        return out

    def calls(self):
        """Opened plots and figures, and calls of methods of the plots (in this order)."""
        return [e for e in self.eng.events if e.kind in ("opened", "current") or e.kind == "call" and e.data[0].op == "call"]

    def active(self, e, ev):
        for f, p in e.facts:
            try:
                if ev.cond(f) != bool(p):
                    return False
            except (Unknown, Mismatch, RecursionError):
                continue
        return True


def receiver(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "attr" else None


def plots(chk):
    jobs = [("select", k) for k in range(6)]
    jobs += [("modes", k) for k in ("debug", "nb", "qt", None)]
    jobs += [("field", (l, lims, clip)) for l in LAYOUTS for lims in (False, True) for clip in (False, True)]
    jobs += [("view", (l, ref, clip)) for l in ("domain", "graph", "mesh") for ref in (False, True) for clip in (False, True)]
    jobs += [("curve", l) for l in ("convergence", "residuum")]
    parallel(chk, _job, jobs)
    chk.floor("plots", 30)
    chk.floor("values_of_voxels", 200)


def _job(chk, job):
    kind, arg = job
    chk.count("model_configurations")
    {"select": _select, "modes": _modes, "field": _field, "view": _view, "curve": _curve}[kind](chk, arg)


# ------------------------------------------------------------------ selection, files, modes

def _text(t):
    """Concatenation of the parts of a text (constants and symbols)."""
    if is_const(t) and isinstance(cval(t), str):
        return [cval(t)] if cval(t) else []
    if t.op == "sym":
        return [t]
    if t.op == "bin" and t.args[0] == "+":
        return _merge(_text(t.args[1]) + _text(t.args[2]))
    if t.op == "bin" and t.args[0] == "%" and is_const(t.args[1]):
        arg = list(t.args[2].args[0]) if t.args[2].op in ("tuple", "list") and len(t.args[2].args) == 1 and isinstance(t.args[2].args[0], tuple) else \
            list(t.args[2].args) if t.args[2].op in ("tuple", "list") else [t.args[2]]
        parts = cval(t.args[1]).split("%s")
        if len(parts) == len(arg) + 1 and not any("%" in p for p in parts):
            out = [parts[0]]
            for a, p in zip(arg, parts[1:]):
                out += _text(a) + [p]
            return _merge(out)
    if t.op == "fstr":
        return _merge([y for x in t.args[0] for y in _text(x)])
    if t.op == "phi":
        return [t]
    raise Unknown(str(t)[:100])


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def _path(t):
    n = name_of(t)
    if n in ("os.path.join", "posixpath.join"):
        return [_text(x) for x in t.args[1]]
    if n == "builtins.str" or n == "pathlib.Path":
        return [y for x in t.args[1] for y in _path(x)]
    if t.op == "bin" and t.args[0] == "/":
        return _path(t.args[1]) + _path(t.args[2])
    return [_text(t)]


def _seltags(k):
    sw = (None, ["s2"], ["s2", "s1"])[k % 3]
    pl = (None, ["p3", "p1"])[k // 3]
    return sw, pl


def _select(chk, k):
    sw, pl = _seltags(k)
    defs = {"p1": plot("p1", "norm_voxel"), "p2": plot("p2", "residuum"), "p3": plot("p3", "material")}
    sc = Scene("plotter", defs, tag_sweep=sw, tag_plot=pl)
    want = [(f"{s}_{p}", p) for s in (sw or SWEEPS) for p in (pl or PLOTS)]
    _opened(chk, sc, f"plotter (tags {k})", want, {"p2"})
    if k < 2:
        defs = {"p1": plot("p1", "domain"), "p2": plot("p2", "graph"), "p3": plot("p3", "mesh")}
        pl = (None, ["p3", "p1"])[k]
        sc = Scene("viewer", defs, tag_plot=pl)
        _opened(chk, sc, f"viewer (tags {k})", [(p, p) for p in (pl or PLOTS)], ())


def _opened(chk, sc, name, want, mpl):
    """The selected plots are opened, drawn, saved and closed."""
    w = sc.where
    ops = [(e, e.data[0], e.data[1]) for e in sc.calls() if e.kind == "opened"]
    chk.count("plots", len(ops))
    got = []
    for e, t, kw in ops:
        x = kw.get("window_size")
        size = {s.args[0] for s in walk(x) if s.op == "sym"} if x is not None else set()
        tag = next((s.split(".")[0] for s in size), None)
        got.append("figure" if t.args[0].startswith("figure") else tag)
        if not t.args[0].startswith("figure"):
            chk.ob(all(s.endswith(".image_size") for s in size) and bool(size), f"{name}: size of the images", e.where(), str(sorted(size))[:100])
            off = kw.get("off_screen")
            chk.ob(off is not None and is_const(off) and cval(off) is True, f"{name}: images without window", e.where(), str(off)[:60])
    exp = ["figure" if p in mpl else p for _, p in want]
    if not chk.ob(got == exp, f"{name}: one plot for each selected entry, in the order of the selection", w, f"{got} instead of {exp}"):
        return
    # files
    saved = {}
    for e in sc.calls():
        if e.kind == "call" and method_of(e.data[0]) in ("screenshot", "savefig"):
            r = receiver(e.data[0])
            a = dict(e.data[0].args[2])
            f = e.data[0].args[1][0] if e.data[0].args[1] else a.get("filename") or a.get("fname")
            saved.setdefault(r.cid, []).append((e, f))
    for (e, t, kw), (tag, p) in zip(ops, want):
        fs = saved.get(t.cid, [])
        n = f"{name}: image of {tag}"
        if not chk.ob(len(fs) == 1, n, fs[0][0].where() if fs else w, f"saved {len(fs)} times"):
            continue
        meth = method_of(fs[0][0].data[0])
        chk.ob((meth == "savefig") == (p in mpl), n + ": method", fs[0][0].where(), meth)
        try:
            path = _path(fs[0][1])
        except Unknown as ex:
            chk.undecided(n + ": file", fs[0][0].where(), str(ex))
            continue
        txt = [[x if isinstance(x, str) else [s.args[0] for s in walk(x) if s.op == "sym"][:1] for x in q] for q in path]
        chk.ob(txt == [[["folder"]], [["name"], f"_{tag}.png"]], n + ": file", fs[0][0].where(), str(txt)[:150])
    # options of each entry
    for k, ((e, t, kw), (tag, p)) in enumerate(zip(ops, want)):
        nxt = ops[k + 1][0].idx if k + 1 < len(ops) else None
        own = [x for x in sc.calls() if x.kind == "call" and x.idx > e.idx and (nxt is None or x.idx < nxt)]
        used = {}
        for x in own:
            if receiver(x.data[0]) is not None and receiver(x.data[0]).cid == t.cid or (name_of(x.data[0]) or "").startswith("matplotlib.pyplot."):
                for s in walk(x.data[0]):
                    if s.op == "sym" and s.args[0].split(".")[0] in PLOTS + SWEEPS and "." in s.args[0]:
                        used.setdefault(s.args[0].split(".")[0], x)
        sweep = tag.split("_")[0] if "_" in tag else None
        for o in (set(used) & set(PLOTS)) - {p}:
            chk.bad(f"{name}: {tag} uses its own options", used[o].where(), f"options of {o}")
        chk.ob(p in used, f"{name}: {tag} uses its own options", used[p].where() if p in used else e.where(), "the options are not used")
        for o in (set(used) & set(SWEEPS)) - {sweep}:
            chk.bad(f"{name}: {tag} shows its own sweep", used[o].where(), f"values of {o}")
        if p in mpl:
            cur = [x for x in sc.calls() if x.kind == "current" and x.idx > e.idx and (nxt is None or x.idx < nxt)]
            chk.ob(all(x.data[0].cid == t.cid for x in cur), f"{name}: {tag} is drawn in its own figure", cur[0].where() if cur else e.where(), "another figure")
        elif sweep is not None:
            chk.ok(f"{name}: {tag} shows its own sweep", e.where())
    _closed(chk, sc, name, ops, [x for fs in saved.values() for x, _ in fs])


def _closed(chk, sc, name, ops, saves):
    last = max([x.idx for x in saves] + [e.idx for e, _, _ in ops], default=0)
    pl = [t for _, t, _ in ops if not t.args[0].startswith("figure")]
    closed = {receiver(e.data[0]).cid for e in sc.calls() if e.kind == "call" and method_of(e.data[0]) == "close" and e.idx > last}
    chk.ob(all(t.cid in closed for t in pl), f"{name}: the plots are closed at the end", sc.where, "a plot stays open")
    if len(pl) < len(ops):
        c = [e for e in sc.calls() if e.kind == "call" and name_of(e.data[0]) == "matplotlib.pyplot.close" and e.idx > last]
        figs = {e.data[0].args[1][0].cid for e in c if e.data[0].args[1]}
        chk.ob(const("all").cid in figs or all(t.cid in figs for _, t, _ in ops if t.args[0].startswith("figure")),
               f"{name}: the figures are closed at the end", sc.where, "a figure stays open")


def _modes(chk, mode):
    defs = {"p1": plot("p1", "norm_voxel"), "p2": plot("p2", "residuum")}
    name = f"mode {mode}"
    sc = Scene("plotter", defs, mode=mode, tag_sweep=["s1"], **(dict(folder=None, name=None) if mode is None else {}))
    ops = [(e, e.data[0], e.data[1]) for e in sc.calls() if e.kind == "opened"]
    chk.count("plots", len(ops))
    kinds = [t.args[0].split("#")[0] for _, t, _ in ops]
    qt = mode in ("qt", None)
    chk.ob(kinds == ["qtplotter" if qt else "plotter", "figure"], f"{name}: kind of the plots", sc.where, str(kinds))
    saves = [e for e in sc.calls() if e.kind == "call" and method_of(e.data[0]) in ("screenshot", "savefig")]
    chk.ob(not saves, f"{name}: no image is written", saves[0].where() if saves else sc.where, "an image is written")
    for e, t, kw in ops:
        if t.args[0].startswith("figure"):
            continue
        x = kw.get("window_size")
        size = {s.args[0] for s in walk(x) if s.op == "sym"} if x is not None else set()
        key = "window_size" if qt else "notebook_size" if mode == "nb" else "image_size"
        chk.ob(bool(size) and all(s == f"p1.{key}" for s in size), f"{name}: size of the plots", e.where(), str(sorted(size)))
    if mode == "debug":
        _closed(chk, sc, name, ops, [])
        return
    shown = [e for e in sc.calls() if e.kind == "call" and method_of(e.data[0]) == "show" and not (name_of(e.data[0]) or "").startswith("matplotlib")]
    for e, t, kw in ops:
        if t.args[0].startswith("figure"):
            continue
        ok = [x for x in shown if any(s.cid == t.cid for s in walk(receiver(x.data[0])))]
        chk.ob(len(ok) == 1 and ok[0].idx > e.idx, f"{name}: the plots are shown", ok[0].where() if ok else sc.where, f"shown {len(ok)} times")
    fig = [e for e in sc.calls() if e.kind == "call" and name_of(e.data[0]) == "matplotlib.pyplot.show"]
    chk.ob(len(fig) == 1, f"{name}: the figures are shown", fig[0].where() if fig else sc.where, f"shown {len(fig)} times")
    if qt:
        loop = [e for e in sc.calls() if e.kind == "call" and method_of(e.data[0]) in ("exec", "exec_")]
        chk.ob(len(loop) == 1 and all(e.idx < loop[0].idx for e in shown + fig), f"{name}: event loop after the plots are shown", loop[0].where() if loop else sc.where, f"{len(loop)} event loops")


# ------------------------------------------------------------------ values

def _eq(chk, name, where, got, want, envs):
    """Values of the voxels of each kind."""
    for e in envs:
        w = want(e)
        lab = "+".join(k for k in e if e[k])
        chk.count("values_of_voxels")
        try:
            g = got.fn(e) if isinstance(got, Arr) else got
            if isinstance(g, bool):
                g = num(int(g))
        except Unknown as ex:
            chk.undecided(f"{name} ({lab})", where, str(ex)[:100])
            continue
        chk.ob(fkey(g) == fkey(w), f"{name} ({lab})", where, f"{_show(g)} instead of {_show(w)}")


def _show(v):
    if v is NAN:
        return "nan"
    if isinstance(v, tuple) and isinstance(v[0], nf.Poly):
        return (nf.fmt(v[0]) + (" + j " + nf.fmt(v[1]) if not v[1].is_zero() else ""))[:120]
    return str(v)[:100]


def _grid(chk, name, g, where):
    o, n, d = (g.props.get(k) for k in ("origin", "dimensions", "spacing"))
    for k, x in enumerate("xyz"):
        N, D, C = real("n" + x), real("d" + x), real("c" + x)
        want = {"origin": vadd(C, vdiv(vmul(N, D), num(2)), -1), "dimensions": vadd(N, num(1)), "spacing": D}
        for key, v in (("origin", o), ("dimensions", n), ("spacing", d)):
            if not isinstance(v, list) or len(v) != 3:
                chk.undecided(f"{name}: {key} of the grid", where, "not found")
                continue
            chk.ob(fkey(v[k]) == fkey(want[key]), f"{name}: {key} of the grid ({x})", where, _show(v[k]))


def _draws(sc, ev, chk, name):
    """Drawn objects: (event, method, object, arguments)."""
    out = []
    for e in sc.calls():
        if e.kind != "call" or method_of(e.data[0]) not in ("add_mesh", "add_mesh_clip_plane", "add_points", "add_volume", "add_arrows"):
            continue
        if not sc.active(e, ev):
            continue
        t = e.data[0]
        kw = dict(t.args[2])
        obj = t.args[1][0] if t.args[1] else kw.get("mesh")
        try:
            m = ev.ev(obj)
        except Mismatch as ex:
            chk.bad(f"{name}: values of the drawn data", e.where(), str(ex)[:150])
            continue
        except (Unknown, KeyError, RecursionError) as ex:
            chk.undecided(f"{name}: values of the drawn data", e.where(), str(ex)[:100])
            continue
        if not isinstance(m, Mesh):
            chk.undecided(f"{name}: values of the drawn data", e.where(), str(obj)[:80])
            continue
        out.append((e, method_of(t), m, kw))
    return out


def _args(chk, name, e, kw, want):
    for k, v in want.items():
        g = kw.get(k)
        ok = g is not None and (g.cid == v.cid if hasattr(v, "cid") else is_const(g) and cval(g) == v)
        chk.ob(ok, f"{name}: option {k}", e.where(), str(g)[:80])


def _open(chk, name):
    """Some of the drawn data are not understood."""
    return any(s == "undecided" and n.startswith(name) for s, n, *_ in chk.obs)


def _theme(chk, name, draws, p, base, layout_draws):
    """Grid, geometry and points in the background."""
    rest = [d for d in draws if d not in layout_draws]
    kinds = {"grid": "grid", "voxel": "geom", "point": "point"}
    for kind, key in kinds.items():
        ds = [d for d in rest if d[2].kind == kind and not d[2].keep]
        if not chk.ob(True if len(ds) == 1 else None if _open(chk, name) else False, f"{name}: {key} is shown", ds[0][0].where() if ds else "pypeec/lib_plot/manage_pyvista.py", f"shown {len(ds)} times"):
            continue
        e, m, mesh, kw = ds[0]
        _args(chk, f"{name}: {key}", e, kw, {"color": sym(f"{p}.{key}_color"), "opacity": sym(f"{p}.{key}_opacity")})
        _args(chk, f"{name}: {key}", e, kw, {"point_size": sym(f"{p}.point_size")} if kind == "point" else {"line_width": sym(f"{p}.{key}_thickness"), "style": "wireframe"})
    for e, m, mesh, kw in rest:
        if mesh.kind not in kinds or mesh.keep:
            chk.bad(f"{name}: only the selected data are shown", e.where(), f"{mesh.kind}")


def _clip(chk, name, d, p, clip):
    e, meth, mesh, kw = d
    chk.ob((meth == "add_mesh_clip_plane") == clip, f"{name}: clip plane", e.where(), meth)
    if clip:
        _args(chk, name, e, kw, {"invert": sym(f"{p}.clip_invert"), "normal": sym(f"{p}.clip_axis"), "value": sym(f"{p}.clip_value")})


def _title(chk, sc, name, p, ev):
    t = [e for e in sc.calls() if e.kind == "call" and method_of(e.data[0]) == "add_text" and sc.active(e, ev)]
    chk.ob(len(t) == 1 and t[0].data[0].args[1] and t[0].data[0].args[1][0].cid == sym(f"{p}.title").cid, f"{name}: title", t[0].where() if t else sc.where, f"{len(t)} titles")


def _nothing(chk, sc, name, envs, disjoint):
    """Without any voxel or point, no data is drawn."""
    ev = Eval(sc.leaves(), envs, disjoint, cells=0)
    for e in sc.calls():
        if e.kind == "call" and method_of(e.data[0]) in ("add_mesh", "add_mesh_clip_plane"):
            obj = e.data[0].args[1][0] if e.data[0].args[1] else None
            try:
                m = ev.ev(obj)
            except (Unknown, Mismatch, RecursionError, AttributeError):
                continue
            if isinstance(m, Mesh) and m.kind in ("voxel", "point", "glyph") and sc.active(e, ev):
                chk.bad(f"{name}: nothing is drawn without data", e.where(), f"an empty dataset is drawn ({m.kind})")
                return
    chk.ok(f"{name}: nothing is drawn without data", sc.where)


def _field(chk, arg):
    layout, lims, clip = arg
    name = f"{layout} (limits {'given' if lims else 'none'}, {'clip' if clip else 'no clip'})"
    sc = Scene("plotter", {"p1": plot("p1", layout, lims, True, clip)}, tag_sweep=["s1"])
    chk.count("plots")
    point = layout.endswith("_point")
    envs = POINTS if point else MATERIAL
    ev = Eval(sc.leaves(), envs, False)
    draws = _draws(sc, ev, chk, name)
    data = [d for d in draws if "scalars" in d[3]]
    grid = [d for d in draws if d[2].kind == "grid"]
    if grid:
        _grid(chk, name, grid[0][2], grid[0][0].where())
    _title(chk, sc, name, "p1", ev)
    if not lims:
        _nothing(chk, sc, name, envs, False)
    if len(data) != 1:
        if not any(s in ("bad", "undecided") and n.startswith(name) for s, n, *_ in chk.obs):
            chk.bad(f"{name}: the data are drawn once", sc.where, f"{len(data)} times")
        return
    d = data[0]
    e, meth, mesh, kw = d
    kind = "glyph" if layout.startswith("arrow") else "point" if point else "voxel"
    chk.ob(mesh.kind == kind and mesh.props.get("of", mesh.kind) == ("point" if point else "voxel"), f"{name}: dataset", e.where(), mesh.kind)
    base = ("seq", "pts_cloud") if point else ("sorted", ("idx_vc", "idx_vm"))
    b = mesh.base
    while b is not None and b[0] == "sel":
        b = b[1]
    chk.ob(b == base, f"{name}: the cells are all the voxels of the problem", e.where(), show(b))
    _clip(chk, name, d, "p1", clip)
    _theme(chk, name, draws, "p1", base, data)
    if layout == "material":
        _args(chk, name, e, kw, {"scalars": "material"})
        lim = kw.get("clim")
        cmap = kw.get("cmap")
        try:
            lim = ev.ev(lim)
            lim = [int(x[0].cval()[0]) for x in lim]
        except (Unknown, AttributeError, TypeError):
            lim = None
        cols = [x.args[0] for x in (walk(cmap) if cmap is not None else ()) if x.op == "sym"]
        want = ["electric", "magnetic", "electromagnetic", "current_source", "voltage_source"]
        order = [x for x in _elements(cmap)]
        chk.ob(None if lim is None else lim == [1, 5], f"{name}: range of the colors", e.where(), str(lim))
        chk.ob([x.args[0] if x.op == "sym" else None for x in order] == [f"p1.color_{x}" for x in want] if order else None, f"{name}: colors of the materials", e.where(), str(cols)[:150])

        def code(env):
            c, m = env["idx_vc"], env["idx_vm"]
            return num(5 if env["idx_src_v"] else 4 if env["idx_src_c"] else 3 if c and m else 1 if c else 2)
        if "material" in mesh.data:
            _eq(chk, f"{name}: material", e.where(), mesh.data["material"], code, envs)
        else:
            chk.bad(f"{name}: material", e.where(), "no such data")
        chk.ob(not mesh.keep, f"{name}: all the voxels are shown", e.where(), "some voxels are removed")
        return
    _args(chk, name, e, kw, {"scalars": "norm", "log_scale": sym("p1.log"), "clim": sym("p1.color_lim"), "show_scalar_bar": sym("p1.colorbar_plot")})
    bar = kw.get("scalar_bar_args")
    chk.ob(bar is not None and any(x.cid == sym("p1.legend").cid for x in walk(bar)), f"{name}: legend", e.where(), str(bar)[:80])
    if kind == "point":
        _args(chk, name, e, kw, {"point_size": sym("p1.point_size")})
    norm, keep, vec = _spec(ev, layout, lims, base)
    if "norm" not in mesh.data:
        chk.bad(f"{name}: values", e.where(), "no such data")
        return
    kept = [x for x in envs if keep(x) is not False]
    try:
        for x in envs:
            k = True
            for m in mesh.keep:
                k = vand(k, m.fn(x))
            lab = "+".join(n for n in x if x[n])
            chk.count("values_of_voxels")
            chk.ob(_conds(k) == _conds(keep(x)), f"{name}: shown voxels ({lab})", e.where(), f"{k} instead of {keep(x)}"[:200])
    except Unknown as ex:
        chk.undecided(f"{name}: shown voxels", e.where(), str(ex)[:100])
    _eq(chk, f"{name}: values", e.where(), mesh.data["norm"], norm, kept)
    if kind == "glyph":
        gl = mesh.props["glyph"]
        chk.ob(gl.get("orient") == "vector" and gl.get("scale") is False, f"{name}: arrows along the vectors, of equal length", e.where(), str(gl)[:80])
        want = vmul(fn("min of", *sorted((fkey(real("d" + x)) for x in "xyz"), key=repr)), real("p1.arrow_scale"))
        chk.ob(fkey(gl.get("factor")) == fkey(want), f"{name}: length of the arrows", e.where(), _show(gl.get("factor")))
        if "vector" in mesh.data:
            _eq(chk, f"{name}: direction of the arrows", e.where(), mesh.data["vector"], vec, kept)
        else:
            chk.bad(f"{name}: direction of the arrows", e.where(), "no such data")


def _conds(k):
    return k if isinstance(k, bool) else frozenset(repr(x) for x in k)


def _elements(t):
    if t is None:
        return []
    a = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
    return list(a) if t.op in ("list", "tuple") else []


def _spec(ev, layout, lims, base):
    var = LAYOUTS[layout]
    idx = VARS[var][1]
    val = lambda e: cplx(f"s1.{var}") if e[idx] else NAN
    S = lambda k: real(f"p1.{k}")
    phi = S("phase")

    def phasor(e):
        v = val(e)
        return NAN if v is NAN else vre(vmul(v, vadd(vcos(phi), vmul(num(1j), vsin(phi)))))
    length = vabs if VARS[var][0].startswith("scalar") else vnorm
    raw = (lambda e: length(val(e))) if layout.startswith("norm") else phasor if layout.startswith("phasor") else (lambda e: NAN if val(e) is NAN else vnorm(phasor(e)))
    scaled = lambda e: vmul(S("scale"), raw(e))

    def keep1(e):
        v = scaled(e)
        if v is NAN:
            return False
        return vand(vcmp(">=", v, S("f_min")), vcmp("<=", v, S("f_max"))) if lims else True

    keep = keep1
    if layout.startswith("arrow"):
        sel = Arr(("sel", base, ev.table(Arr(base, keep1))), scaled)
        thr = vmul(ev.reduce("max of", sel), S("arrow_threshold"))
        keep = lambda e: vand(keep1(e), vcmp(">", scaled(e), thr)) if keep1(e) is not False else False

    def norm(e):
        v = scaled(e)
        return vext(vext(v, S("c_min"), "max"), S("c_max"), "min") if lims else v
    return norm, keep, phasor


def _view(chk, arg):
    layout, ref, clip = arg
    name = f"{layout} ({'reference' if ref else 'no reference'}, {'clip' if clip else 'no clip'})"
    sc = Scene("viewer", {"p1": plot("p1", layout, False, True, clip)}, reference=ref)
    chk.count("plots")
    ev = Eval(sc.leaves(), VENV, True)
    draws = _draws(sc, ev, chk, name)
    _title(chk, sc, name, "p1", ev)
    grid = [d for d in draws if d[2].kind == "grid"]
    if grid:
        _grid(chk, name, grid[0][2], grid[0][0].where())
    base = ("sorted", ("d.a", "d.b"))
    if layout == "mesh":
        vox = [d for d in draws if _sym(d[3].get("color")) == "p1.color_voxel"]
        rf = [d for d in draws if _sym(d[3].get("color")) == "p1.color_reference"]
        _theme(chk, name, draws, "p1", base, vox + rf)
        for ds, kind, opt in ((vox, "voxel", "opacity_voxel"), (rf, "reference" if ref else "voxel", "opacity_reference")):
            if not chk.ob(True if len(ds) == 1 else None if _open(chk, name) else False, f"{name}: {kind} ({opt})", ds[0][0].where() if ds else sc.where, f"shown {len(ds)} times"):
                continue
            e, meth, mesh, kw = ds[0]
            chk.ob(mesh.kind == kind, f"{name}: {opt} is used for the {kind}", e.where(), mesh.kind)
            _args(chk, name, e, kw, {"opacity": sym(f"p1.{opt}")})
            _clip(chk, f"{name}: {kind} ({opt})", ds[0], "p1", clip)
            if kind == "voxel":
                chk.ob(mesh.base == base, f"{name}: the cells are all the voxels of the domains", e.where(), show(mesh.base))
            else:
                chk.ob(mesh.props["points"].cid == sym("ref.points").cid and mesh.props["faces"].cid == sym("ref.faces").cid, f"{name}: reference geometry", e.where(), str(mesh.props)[:100])
        return
    data = [d for d in draws if "scalars" in d[3]]
    if len(data) != 1:
        if not any(s in ("bad", "undecided") and n.startswith(name) for s, n, *_ in chk.obs):
            chk.bad(f"{name}: the data are drawn once", sc.where, f"{len(data)} times")
        return
    e, meth, mesh, kw = data[0]
    _theme(chk, name, draws, "p1", base, data)
    _clip(chk, name, data[0], "p1", clip)
    _args(chk, name, e, kw, {"scalars": layout, "opacity": sym("p1.opacity"), "cmap": sym("p1.colormap")})
    chk.ob(mesh.kind == "voxel" and mesh.base == base, f"{name}: the cells are all the voxels of the domains", e.where(), f"{mesh.kind} {show(mesh.base)}")
    want = {"domain": lambda x: num(1 if x["d.a"] else 2), "graph": lambda x: num(1 if x["g.0"] else 2)}
    for k, f in want.items():
        if k in mesh.data:
            _eq(chk, f"{name}: number of the {k}", e.where(), mesh.data[k], f, VENV)
        else:
            chk.ob(k != layout, f"{name}: number of the {k}", e.where(), "no such data")


def _sym(t):
    return t.args[0] if t is not None and t.op == "sym" else None


# ------------------------------------------------------------------ curves

def _curve(chk, layout):
    sc = Scene("plotter", {"p1": plot("p1", layout)}, tag_sweep=["s1"])
    chk.count("plots")
    S = lambda k: real(f"p1.{k}")
    eps, top = real("finfo.eps"), real("finfo.max")
    clip = lambda v: vext(vext(v, eps, "max"), top, "min")
    calls = [e for e in sc.calls() if e.kind == "call"]
    if layout == "convergence":
        envs = [{"first": True, "power_vec": False}, {"first": False, "power_vec": True}]
        ev = Eval(sc.leaves(), envs, True)
        fin = cplx("s1.power_final")
        err = lambda e: vdiv(vadd(cplx("s1.power_init" if e["first"] else "s1.power_vec"), fin, -1), vabs(fin))
        done = []
        for e in calls:
            n = name_of(e.data[0]) or ""
            if not n.startswith("matplotlib.pyplot.") or n.split(".")[-1] not in ("plot", "semilogy", "loglog"):
                continue
            kw = dict(e.data[0].args[2])
            lab = cval(kw["label"]) if "label" in kw and is_const(kw["label"]) else None
            part = {"P": vre, "Q": vim}.get(lab)
            if not chk.ob(part is not None, "convergence: labels", e.where(), str(lab)):
                continue
            done.append(lab)
            _args(chk, f"convergence ({lab})", e, kw, {"color": sym("p1.color_active" if lab == "P" else "p1.color_reactive")})
            y = [x for x in e.data[0].args[1] if not (is_const(x) and isinstance(cval(x), str))]
            _compare(chk, ev, f"convergence ({lab}): relative error of the power", e, y[-1], lambda x, f=part: vabs(f(err(x))), clip, envs, ("cat", (("seq", "first"), ("seq", "power_vec"))))
        chk.ob(sorted(done) == ["P", "Q"], "convergence: both parts of the power are shown once", sc.where, str(done))
        return
    envs = [{"res": True}]
    ev = Eval(sc.leaves(), envs, True)
    hist = [e for e in calls if name_of(e.data[0]) == "matplotlib.pyplot.hist"]
    if not chk.ob(len(hist) == 1, "residuum: one histogram", sc.where, f"{len(hist)}"):
        return
    e = hist[0]
    kw = dict(e.data[0].args[2])
    val = lambda x: vabs(cplx("s1.res"))
    _compare(chk, ev, "residuum: absolute values", e, e.data[0].args[1][0], val, clip, envs, ("seq", "res"))
    try:
        b = ev.ev(kw["bins"] if "bins" in kw else e.data[0].args[1][1])
        arr = Arr(("seq", "res"), lambda x: clip(val(x)))
        one = vadd(num(1), S("tol_bins"))
        lo, hi = vdiv(ev.reduce("min of", arr), one), vmul(ev.reduce("max of", arr), one)
        chk.ob(fkey(b) == fkey(fn("logspace", fn("log10", lo), fn("log10", hi), S("n_bins"))), "residuum: the bins cover all the values", e.where(), _show(b))
    except (Unknown, KeyError) as ex:
        chk.undecided("residuum: the bins cover all the values", e.where(), str(ex)[:100])
    except Mismatch as ex:
        chk.bad("residuum: the bins cover all the values", e.where(), str(ex)[:100])


def _compare(chk, ev, name, e, t, want, clip, envs, base):
    try:
        a = ev.ev(t)
        if not isinstance(a, Arr):
            raise Unknown(str(t)[:80])
        chk.ob(a.base == base, name + ": all the values, in their order", e.where(), show(a.base))
        for x in envs:
            chk.count("values_of_voxels")
            g = fkey(a.fn(x))
            chk.ob(g in (fkey(want(x)), fkey(clip(want(x)))), name, e.where(), _show(a.fn(x)))
    except Unknown as ex:
        chk.undecided(name, e.where(), str(ex)[:100])
    except Mismatch as ex:
        chk.bad(name, e.where(), str(ex)[:100])
