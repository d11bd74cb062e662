"""Driver of the synthetic parallel-codegen histories; writes a canonical dump of every registry it leaves behind."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par
import wl_pcg_tasks as T

cfg = json.loads(sys.argv[1])
par.set_parval_from_str("Infrastructure", "BHaH")
par.set_parval_from_str("parallel_codegen_enable", True)
for n, d in cfg.get("pre_params", []):
    par.register_param(type(d), "pre", n, d)
for n, d in cfg.get("pre_code_params", []):
    par.register_CodeParameter("REAL", "pre", n, d)
for n in cfg.get("pre_gfs", []):
    gri.register_gridfunctions(n, group="EVOL")
for fn in cfg.get("pre_cfuncs", []):
    cfc.register_CFunction(desc="pre", cfunc_type="int", name=fn, params="void", body="return 1;")
for label, spec in cfg["tasks"]:
    T.task(label, spec)
pcg.do_parallel_codegen()


def obj(o):
    d = {k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v)) for k, v in sorted(vars(o).items())}
    return d


def extra(v):
    if isinstance(v, dict):
        return {str(k): extra(x) for k, x in sorted(v.items())}
    if isinstance(v, list):
        return sorted(json.dumps(extra(x)) for x in v)
    return v if isinstance(v, (int, float, str, bool, type(None))) else obj(v)


skip = {"parallel_codegen_stage", "parallel_codegen_enable"}
dump = {
    "params": {k: obj(v) for k, v in sorted(par.glb_params_dict.items()) if k not in skip},
    "code_params": {k: obj(v) for k, v in sorted(par.glb_code_params_dict.items())},
    "cfuncs": {k: obj(v) for k, v in sorted(cfc.CFunction_dict.items())},
    "gfs": {k: obj(v) for k, v in sorted(gri.glb_gridfcs_dict.items())},
    "extras": extra(par.glb_extras_dict),
}
with open("dump.json", "w", encoding="utf-8") as f:
    json.dump(dump, f, indent=0, sort_keys=True)
