"""BSSN right-hand side of one CarpetX thorn (the costly parts of carpetx_baikal_thorns left out)."""
import os

import nrpy.params as par
from nrpy.infrastructures.CarpetX import make_code_defn
from nrpy.infrastructures.CarpetX.general_relativity.rhs_eval import register_CFunction_rhs_eval

par.set_parval_from_str("Infrastructure", "CarpetX")
par.set_parval_from_str("parallel_codegen_enable", False)
par.set_parval_from_str("register_MU_gridfunctions", True)
par.register_CodeParameter("CCTK_INT", __name__, "FD_order", "4", add_to_glb_code_params_dict=True)
par.set_parval_from_str("fd_order", 2)
register_CFunction_rhs_eval(
    thorn_name="BaikalVacuumX",
    CoordSystem="Cartesian",
    enable_rfm_precompute=False,
    enable_T4munu=False,
    enable_simd=False,
    fd_order=2,
    LapseEvolutionOption="OnePlusLog",
    ShiftEvolutionOption="GammaDriving2ndOrder_NoCovariant",
    enable_KreissOliger_dissipation=True,
)
make_code_defn.output_CFunctions_and_construct_make_code_defn(project_dir=os.path.join("project", "et_baikalx"), thorn_name="BaikalVacuumX")
