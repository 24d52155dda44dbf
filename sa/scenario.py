"""Entry-point scenarios: abstract inputs of the public API for the interpreter."""

from sa.engine import Engine
from sa.term import T, const, sym, mk


def to_term(eng, st, v):
    """Python structure (dict/list/T/scalar) -> abstract value (dict/list as heap objects)."""
    if isinstance(v, T):
        return v
    if isinstance(v, dict):
        return eng.new_dict(st, [(const(k), to_term(eng, st, x)) for k, x in v.items()])
    if isinstance(v, list):
        return eng.new_list(st, [to_term(eng, st, x) for x in v])
    if isinstance(v, tuple):
        return mk("tuple", tuple(to_term(eng, st, x) for x in v))
    return const(v)


def s(name):
    return sym(name)


def iter_options(prefix, solver="gmres"):
    return {
        "solver": solver, "rel_tol": s(prefix + ".rel_tol"), "abs_tol": s(prefix + ".abs_tol"),
        "n_inner": s(prefix + ".n_inner"), "n_outer": s(prefix + ".n_outer"),
    }


def tolerance(**kw):
    o = dict(
        mult_type="fft", split=False, fft="NumPy", fact="SuperLU", coupling="direct", solver="gmres",
        biot="voxel", n_jobs=0, amg="root", check=True, stop=None, ignore_status=None, ignore_res=None,
    )
    o.update(kw)
    return {
        "parallel_sweep": {"n_jobs": o["n_jobs"], "n_threads": s("n_threads")},
        "integral_simplify": s("integral_simplify"),
        "biot_savart": o["biot"],
        "mult_type": o["mult_type"],
        "fft_options": {
            "matrix_split": o["split"], "library": o["fft"], "scipy_worker": s("scipy_worker"),
            "fftw_thread": s("fftw_thread"), "fftw_timeout": s("fftw_timeout"),
            "fftw_byte_align": s("fftw_byte_align"),
        },
        "factorization_options": {
            "library": o["fact"],
            "pyamg_options": {"tol": s("pyamg.tol"), "solver": o["amg"], "krylov": s("pyamg.krylov")},
            "pardiso_options": {"thread_pardiso": s("thread_pardiso"), "thread_mkl": s("thread_mkl")},
        },
        "solver_options": {
            "coupling": o["coupling"],
            "power_options": {
                "stop": s("power.stop") if o["stop"] is None else o["stop"],
                "n_min": s("power.n_min"), "n_cmp": s("power.n_cmp"),
                "rel_tol": s("power.rel_tol"), "abs_tol": s("power.abs_tol"),
            },
            "tolerance_options": {
                "ignore_status": s("tol.ignore_status") if o["ignore_status"] is None else o["ignore_status"],
                "ignore_res": s("tol.ignore_res") if o["ignore_res"] is None else o["ignore_res"],
                "rel_tol": s("tol.rel_tol"), "abs_tol": s("tol.abs_tol"),
            },
            "direct_options": iter_options("direct", o["solver"]),
            "segregated_options": {
                "relax_electric": s("relax_electric"), "relax_magnetic": s("relax_magnetic"),
                "n_min": s("seg.n_min"), "n_max": s("seg.n_max"),
                "rel_tol": s("seg.rel_tol"), "abs_tol": s("seg.abs_tol"),
                "iter_electric_options": iter_options("iter_electric", o["solver"]),
                "iter_magnetic_options": iter_options("iter_magnetic", o["solver"]),
            },
        },
        "condition_options": {
            "check": o["check"], "tolerance_electric": s("tolerance_electric"),
            "tolerance_magnetic": s("tolerance_magnetic"),
            "norm_options": {"t_accuracy": s("t_accuracy"), "n_iter_max": s("n_iter_max")},
        },
    }


def voxel():
    return {
        "date": s("date"), "duration": s("duration"), "seconds": s("seconds"), "status": s("status_voxel"),
        "data_geom": {
            "n": (s("nx"), s("ny"), s("nz")), "d": (s("dx"), s("dy"), s("dz")),
            "c": (s("cx"), s("cy"), s("cz")), "s": (s("sx"), s("sy"), s("sz")),
            "voxel_status": s("voxel_status"), "pts_cloud": s("pts_cloud"),
            "domain_def": s("domain_def"), "graph_def": s("graph_def"), "reference": s("reference"),
        },
    }


def problem(sweep=(("sw1", None),), freq=None, material=None, source=None, material_val=None, source_val=None):
    return {
        "material_def": s("material_def") if material is None else material,
        "source_def": s("source_def") if source is None else source,
        "sweep_solver": {
            tag: {
                "init": init,
                "param": {
                    "freq": s("freq") if freq is None else freq,
                    "material_val": s("material_val") if material_val is None else material_val,
                    "source_val": s("source_val") if source_val is None else source_val,
                },
            } for tag, init in sweep
        },
    }


class Solver:
    """One abstract run of the solver for a given configuration."""

    def __init__(self, repo, sweep=(("sw1", None),), freq=None, material=None, source=None, vox=None,
                 material_val=None, source_val=None, **kw):
        self.eng = Engine(repo)
        self.eng.strip_copy = True
        self.conf = dict(kw, sweep=sweep, freq=freq)
        st = self.eng.state.copy()
        self.args = [
            to_term(self.eng, st, voxel() if vox is None else vox),
            to_term(self.eng, st, problem(sweep, freq, material, source, material_val, source_val)),
            to_term(self.eng, st, tolerance(**kw)),
        ]
        self.res = self.eng.run("pypeec.run.solver", "run", self.args, state=st)


def typed_voxel():
    """Voxel structure with five named domains (symbolic index arrays)."""
    v = voxel()
    v["data_geom"]["domain_def"] = {d: s("idx_" + d) for d in ("d1", "d2", "d3", "d4", "d5")}
    return v


def typed_materials(orient="isotropic", var="lumped"):
    return {
        "me": {"domain_list": ["d1"], "material_type": "electric", "orientation_type": orient, "var_type": var},
        "mm": {"domain_list": ["d2"], "material_type": "magnetic", "orientation_type": orient, "var_type": var},
        "mx": {"domain_list": ["d3"], "material_type": "electromagnetic", "orientation_type": orient, "var_type": var},
    }


def typed_sources(var="lumped"):
    return {
        "sc": {"domain_list": ["d4"], "source_type": "current", "var_type": var},
        "sv": {"domain_list": ["d5"], "source_type": "voltage", "var_type": var},
    }


def typed_material_val(orient="isotropic", var="lumped"):
    """Material parameters: scalar, three components, vector, or three vectors."""
    def v(tag, k):
        n = k + "_" + tag + ("_v" if var == "distributed" else "") + ("3" if orient == "anisotropic" and var == "distributed" else "")
        if orient == "anisotropic" and var == "lumped":
            return [sym(n + ".x"), sym(n + ".y"), sym(n + ".z")]
        return sym(n)

    keys = {"me": ("rho_re", "rho_im"), "mm": ("chi_re", "chi_im"), "mx": ("rho_re", "rho_im", "chi_re", "chi_im")}
    return {t: {k: v(t, k) for k in ks} for t, ks in keys.items()}


def typed_source_val(var="lumped"):
    keys = {"sc": ("I_re", "I_im", "Y_re", "Y_im"), "sv": ("V_re", "V_im", "Z_re", "Z_im")}
    return {t: {k: sym(k + "_" + t + ("_v" if var == "distributed" else "")) for k in ks} for t, ks in keys.items()}
