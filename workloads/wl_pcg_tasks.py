"""Synthetic code-generation tasks registered through the public parallel-codegen API (their shape comes from the simulator's JSON)."""
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par
from nrpy.helpers.cached_functions import cached_simplify
from nrpy.helpers.generic import clang_format
from nrpy.infrastructures.BHaH import BHaH_defines_h, griddata_commondata


class Opaque(Exception):
    """An exception type of the task's own module."""


def task(label, spec):
    """One task: registers what spec says and returns the environment, following the idiom of nrpy's own tasks."""
    if pcg.pcg_registration_phase():
        pcg.register_func_call(f"{__name__}.task", locals())
        return None
    import sympy as sp

    fail = spec.get("fail")
    if fail == "early":
        raise ValueError(f"{label} failed early")
    for n, d in spec.get("params", []):
        par.register_param(type(d), "wl_pcg", n, d)
    for n, d, common in spec.get("code_params", []):
        par.register_CodeParameter("REAL", "wl_pcg", n, d, commondata=common)
    for n, group in spec.get("gfs", []):
        gri.register_gridfunctions(n, group=group)
    for mod, decl in spec.get("extras", []):
        griddata_commondata.register_griddata_commondata(mod, decl, f"{label} data")
    for mod, text in spec.get("defines", []):
        BHaH_defines_h.register_BHaH_defines(mod, text)
    if spec.get("simplify"):
        x = sp.Symbol("x", real=True)
        n = spec["simplify"]
        expr = cached_simplify(sp.sin(x) ** 2 + sp.cos(x) ** 2 + x ** n)
        spec = dict(spec, body=spec.get("body", "") + f"// {expr}\n")
    if fail == "import":
        import nrpy.this_module_does_not_exist  # noqa: F401
    if fail == "attr":
        par.no_such_attribute()
    if fail == "type":
        clang_format(1, 2, 3)
    if fail == "key":
        par.glb_params_dict["no such parameter at all"]
    if fail == "opaque":
        raise Opaque("the task's own exception type")
    if fail == "zerodiv":
        1 / 0
    for fn in spec.get("cfuncs", []):
        body = spec.get("body", "") + f"const int k_{fn}={len(fn)};return;"
        if spec.get("format"):
            body = clang_format(body)
        cfc.register_CFunction(
            includes=["stdio.h"],
            desc=f"{label}",
            cfunc_type="void",
            name=fn,
            params="const int a",
            body=body,
            subdirectory=spec.get("subdir", "."),
        )
    if fail == "late":
        raise RuntimeError(f"{label} failed after registering")
    return pcg.NRPyEnv()
