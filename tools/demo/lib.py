"""Small problems for the demonstrations (uses only the public interface of pypeec, run from its root)."""

import copy
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import yaml  # noqa: E402
import numpy as np  # noqa: E402


def _quiet():
    try:
        import logging
        logging.disable(logging.CRITICAL)
    except Exception:
        pass


def geometry(n, d, domains, c=(0.0, 0.0, 0.0), pts=(), rules=(), connected=None, adjacent=None, resampling=None):
    return {
        "mesh_type": "voxel",
        "data_voxelize": {
            "param": {"n": list(n), "d": list(d), "c": list(c)},
            "domain_index": {k: list(v) for k, v in domains.items()},
        },
        "data_point": {"check_cloud": True, "full_cloud": True, "pts_cloud": [list(p) for p in pts]},
        "data_resampling": resampling or {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": True, "resolve_random": False, "conflict_rules": list(rules)},
        "data_integrity": {"domain_connected": connected or {}, "domain_adjacent": adjacent or {}},
    }


def tolerance(**kw):
    with open("examples/config/tolerance.yaml") as fid:
        tol = yaml.safe_load(fid)
    tol["fft_options"]["scipy_worker"] = 0
    s = tol["solver_options"]
    s["power_options"]["stop"] = False
    for k in ("direct_options",):
        s[k].update(rel_tol=1e-11, abs_tol=1e-14, n_inner=60, n_outer=60)
    s["segregated_options"].update(rel_tol=1e-10, abs_tol=1e-14, n_max=60)
    for k in ("iter_electric_options", "iter_magnetic_options"):
        s["segregated_options"][k].update(rel_tol=1e-12, abs_tol=1e-14, n_inner=60, n_outer=60)
    for k, v in kw.items():
        ref = tol
        path = k.split("__")
        for x in path[:-1]:
            ref = ref[x]
        ref[path[-1]] = v
    return tol


def electric(domains, rho_re, rho_im=None, orient="isotropic", var="lumped"):
    if rho_im is None:
        rho_im = [0.0, 0.0, 0.0] if orient == "anisotropic" else 0.0
        if var == "distributed":
            rho_im = (np.zeros_like(np.array(rho_re))).tolist()
    return ({"domain_list": domains, "material_type": "electric", "orientation_type": orient, "var_type": var},
            {"rho_re": rho_re, "rho_im": rho_im})


def magnetic(domains, chi_re, chi_im=0.0, orient="isotropic", var="lumped"):
    return ({"domain_list": domains, "material_type": "magnetic", "orientation_type": orient, "var_type": var},
            {"chi_re": chi_re, "chi_im": chi_im})


def both(domains, rho_re, chi_re, rho_im=0.0, chi_im=0.0, orient="isotropic", var="lumped"):
    return ({"domain_list": domains, "material_type": "electromagnetic", "orientation_type": orient, "var_type": var},
            {"rho_re": rho_re, "rho_im": rho_im, "chi_re": chi_re, "chi_im": chi_im})


def current(domains, I, Y=0.0, var="lumped"):  # noqa: E741
    I, Y = np.array(I, dtype=complex), np.array(Y, dtype=complex)  # noqa: E741
    return ({"domain_list": domains, "source_type": "current", "var_type": var},
            {"I_re": I.real.tolist(), "I_im": I.imag.tolist(), "Y_re": Y.real.tolist(), "Y_im": Y.imag.tolist()})


def voltage(domains, V, Z=0.0, var="lumped"):
    V, Z = np.array(V, dtype=complex), np.array(Z, dtype=complex)
    return ({"domain_list": domains, "source_type": "voltage", "var_type": var},
            {"V_re": V.real.tolist(), "V_im": V.imag.tolist(), "Z_re": Z.real.tolist(), "Z_im": Z.imag.tolist()})


def problem(materials, sources, freq=0.0, sweeps=None):
    mat = {k: copy.deepcopy(v[1]) for k, v in materials.items()}
    src = {k: copy.deepcopy(v[1]) for k, v in sources.items()}
    if sweeps is None:
        sweeps = {"sim": {"init": None, "param": {"freq": freq, "material_val": mat, "source_val": src}}}
    return {"material_def": {k: v[0] for k, v in materials.items()},
            "source_def": {k: v[0] for k, v in sources.items()}, "sweep_solver": sweeps}


def mesh(geo):
    _quiet()
    import pypeec
    return pypeec.run_mesher_data(geo)


def solve(geo, prob, tol=None):
    _quiet()
    import pypeec
    vox = geo if "data_geometry" in geo or "status" in geo else pypeec.run_mesher_data(geo)
    return pypeec.run_solver_data(vox, prob, tol or tolerance())


def sweep(sol, tag="sim"):
    return sol["data_sweep"][tag]


def fails(fct, *args, **kw):
    try:
        fct(*args, **kw)
    except Exception as ex:
        return type(ex).__name__ + ": " + str(ex)
    return None


def close(a, b, tol=1e-6):
    a, b = np.array(a), np.array(b)
    s = max(np.max(np.abs(b), initial=0.0), 1e-300)
    return a.shape == b.shape and bool(np.max(np.abs(a - b), initial=0.0) <= tol * s)


_BAD = []


def check(cond, txt):
    print(("ok    " if cond else "FAIL  ") + txt)
    if not cond:
        _BAD.append(txt)


def done():
    sys.exit(1 if _BAD else 0)
