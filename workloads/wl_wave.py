"""A complete BHaH wave-equation project assembled through the public registration API, shaped by the JSON in argv[1]."""
import json
import os
import sys

import nrpy.helpers.parallel_codegen as pcg
import nrpy.infrastructures.BHaH.BHaH_defines_h as Bdefines_h
import nrpy.infrastructures.BHaH.checkpointing as chkpt
import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
import nrpy.infrastructures.BHaH.CodeParameters as CPs
import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as progress
import nrpy.infrastructures.BHaH.main_c as main
import nrpy.infrastructures.BHaH.Makefile_helpers as Makefile
import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as numericalgrids
import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wCl
import nrpy.params as par
from nrpy.helpers.generic import copy_files
from nrpy.infrastructures.BHaH import griddata_commondata, rfm_precompute, rfm_wrapper_functions, xx_tofrom_Cart
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL

cfg = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {}
par.set_parval_from_str("Infrastructure", "BHaH")
name = cfg.get("name", "wl_wave")
coords = cfg.get("coords", ["Spherical"])
Nxx = cfg.get("Nxx") or {c: [12, 4, 4] for c in coords}
rfmp = cfg.get("rfm_precompute", True)
simd = cfg.get("simd", True)
KO = cfg.get("KO", False)
collapse = cfg.get("OMP_collapse", 1)
method = cfg.get("MoL", "RK4")
size = cfg.get("size", 10.0)
chk = cfg.get("checkpoint", True)
wave = cfg.get("wave", "SphericalGaussian")
project_dir = os.path.join("project", name)

par.set_parval_from_str("parallel_codegen_enable", cfg.get("parallel", True))
par.set_parval_from_str("fd_order", cfg.get("fd_order", 2))
par.adjust_CodeParam_default("NUMGRIDS", len(coords))
par.adjust_CodeParam_default("t_final", cfg.get("t_final", 1.0))
if cfg.get("fp_type"):
    par.set_parval_from_str("fp_type", cfg["fp_type"])

wCl.register_CFunction_initial_data(enable_checkpointing=chk, OMP_collapse=collapse)
numericalgrids.register_CFunctions(
    list_of_CoordSystems=coords,
    list_of_grid_physical_sizes=[size for _ in coords],
    Nxx_dict=Nxx,
    enable_rfm_precompute=rfmp,
    enable_CurviBCs=True,
)
wCl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=wave, default_sigma=cfg.get("sigma", 3.0))
for c in coords:
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", c)
    wCl.register_CFunction_rhs_eval(
        CoordSystem=c, enable_rfm_precompute=rfmp, enable_simd=simd, enable_KreissOliger_dissipation=KO, OMP_collapse=collapse
    )
    xx_tofrom_Cart.register_CFunction_xx_to_Cart(CoordSystem=c)
wCl.register_CFunction_diagnostics(
    list_of_CoordSystems=coords,
    default_diagnostics_out_every=cfg.get("diag_every", 0.2),
    grid_center_filename_tuple=("out0d-%s-conv_factor-%.2f.txt", "CoordSystemName, convergence_factor"),
    axis_filename_tuple=("out1d-AXIS-%s-conv_factor%.2f-t%08.2f.txt", "CoordSystemName, convergence_factor, time"),
    plane_filename_tuple=("out2d-PLANE-%s-conv_factor%.2f-t%08.2f.txt", "CoordSystemName, convergence_factor, time"),
    out_quantities_dict="default",
)
if __name__ == "__main__" and par.parval_from_str("parallel_codegen_enable"):
    pcg.do_parallel_codegen()

if rfmp:
    rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=coords)
cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=coords, radiation_BC_fd_order=cfg.get("rad_fd_order", 2))
rhs = """rhs_eval(commondata, params, rfmstruct,  RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0)
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx,
                                     gridfunctions_wavespeed,gridfunctions_f_infinity,
                                     RK_INPUT_GFS, RK_OUTPUT_GFS);"""
if not rfmp:
    rhs = rhs.replace("rfmstruct", "xx")
MoL.register_CFunctions(
    MoL_method=method,
    rhs_string=rhs,
    post_rhs_string="""if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)
  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);""",
    enable_rfm_precompute=rfmp,
    enable_curviBCs=True,
)
if chk:
    chkpt.register_CFunctions(default_checkpoint_every=cfg.get("checkpoint_every", 0.3))
progress.register_CFunction_progress_indicator()
rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
CPs.write_CodeParameters_h_files(project_dir=project_dir)
CPs.register_CFunctions_params_commondata_struct_set_to_default()
cmdpar.generate_default_parfile(project_dir=project_dir, project_name=name)
cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name=name, cmdline_inputs=["convergence_factor"])
Bdefines_h.output_BHaH_defines_h(
    project_dir=project_dir,
    enable_intrinsics=simd,
    enable_rfm_precompute=rfmp,
    fin_NGHOSTS_add_one_for_upwinding_or_KO=KO,
)
main.register_CFunction_main_c(
    initial_data_desc=wave,
    MoL_method=method,
    pre_MoL_step_forward_in_time="write_checkpoint(&commondata, griddata);\n" if chk else "",
    boundary_conditions_desc=cfg.get("bc", "outgoing radiation"),
)
griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=rfmp, enable_CurviBCs=True)
if simd:
    copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=project_dir, subdirectory="intrinsics")
Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=project_dir, project_name=name, exec_or_library_name=name)
