import json
def P(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe or [],"hook_needed":hook}}
L=[]
A=L.append
A(P("C01","Parallel code generation is independent of the schedule",
"Generating a project with parallel code generation enabled produces the same project as generating it sequentially: the same files, registered functions, parameters, gridfunctions and contents, for every number of workers, every assignment of tasks to workers and every completion order, every string-hash seed and every state (cold or warm) of the disk cache. (The order of commutative floating-point operands inside a generated expression may differ; nothing else may.)",
["schedules","configurations","histories"],"all task-to-worker assignments, interleavings and completion orders of the code-generation pool; 1..16 workers; cold and warm cache; task sets built from nrpy's own examples and from generated task sets",
"The tests run each example once with whatever schedule the machine produces, PYTHONHASHSEED=0 and a cold cache; a result that depends on completion order or on which tasks shared a worker shows up only on another machine.",
["nrpy/helpers/parallel_codegen.py","nrpy/params.py","nrpy/c_function.py","nrpy/grid.py","nrpy/infrastructures/BHaH","nrpy/infrastructures/superB","nrpy/infrastructures/ETLegacy","nrpy/infrastructures/CarpetX"],
[("merge of worker environments","nrpy/helpers/parallel_codegen.py:unpack_NRPy_environment_dict"),("task registration","nrpy/helpers/parallel_codegen.py:register_func_call"),("sorted output of registries","nrpy/infrastructures/BHaH/BHaH_defines_h.py")],["generated project tree","registries after do_parallel_codegen"]))
A(P("C02","A failed code-generation task is never silently lost",
"If any registered code-generation task raises, or its worker, its disk or the code formatter fails, the generation as a whole does not report success with a different result: it either fails with a diagnostic (a worker killed from outside may stall it) or completes with exactly the fault-free result.",
["fault_sequences","schedules"],"every failing task position and exception kind, worker deaths, I/O errors and formatter failures at any point, under any schedule and worker count",
"No test makes a task fail inside the pool, kills a worker or fails a write; the existing tests only cover the all-success path.",
["nrpy/helpers/parallel_codegen.py","nrpy/helpers/generic.py"],[("error propagation","nrpy/helpers/parallel_codegen.py:wrapper_func"),("call of the task","nrpy/helpers/parallel_codegen.py:parallel_function_call"),("formatter status check","nrpy/helpers/generic.py:clang_format")],["exit status and output of the generator"]))
A(P("C03","The disk cache is transparent under concurrency and any history",
"Formatting and simplification return exactly what they would return without the disk cache, and reading a cache id returns a value that was written under that id, complete, whatever other processes or pool workers sharing the cache directory do at the same time and whatever was cached earlier.",
["schedules","histories","inputs"],"all interleavings (at file-system-call granularity) of several processes using one cache directory, and all earlier histories of that directory",
"Each test process gets a fresh private cache, so a reader never meets another process's half-written entry or an entry stored for a different expression, text or option set.",
["nrpy/helpers/cached_functions.py","nrpy/helpers/generic.py"],[("cache key","nrpy/helpers/cached_functions.py:cache_file, cached_simplify"),("publication of an entry","nrpy/helpers/cached_functions.py:write_cached"),("lookup","nrpy/helpers/cached_functions.py:is_cached/read_cached")],["return values of clang_format, cached_simplify, read_cached"]))
A(P("C04","Crashes and I/O errors never poison the disk cache",
"After a process using the disk cache is killed, or gets any I/O error or formatter failure, at any point, every other process still obtains correct results, later processes succeed with the same cache directory, and an acknowledged cache write is not lost.",
["crash_points","fault_sequences","schedules"],"kill, torn write, ENOSPC, EIO, EDQUOT, EMFILE, EACCES and short writes at any file-system call of any process, formatter failures, combined with any interleaving",
"No test interrupts a process or fails a system call.",
["nrpy/helpers/cached_functions.py","nrpy/helpers/generic.py"],[("publication of an entry","nrpy/helpers/cached_functions.py:write_cached"),("only successful formatter output is cached","nrpy/helpers/generic.py:clang_format")],["results of surviving and later processes"]))
A(P("C05","Interrupted or failed project generation never passes for a good one",
"If project generation is killed at any point, running it again produces exactly the project an uninterrupted run produces; and if any file operation fails, generation exits with an error rather than reporting success over a project with missing, truncated or stale files.",
["crash_points","fault_sequences"],"kill, torn write or I/O error at any file operation of a generation run (BHaH, superB, ETLegacy and CarpetX back ends), followed by a clean re-run over what was left behind",
"The tests generate into empty directories with a healthy disk and never re-run over leftovers.",
["nrpy/helpers/conditional_file_updater.py","nrpy/infrastructures/BHaH/Makefile_helpers.py","nrpy/infrastructures/BHaH/BHaH_defines_h.py","nrpy/infrastructures/BHaH/CodeParameters.py","nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py","nrpy/infrastructures/superB/main_chare.py","nrpy/infrastructures/superB/timestepping_chare.py","nrpy/infrastructures/ETLegacy","nrpy/infrastructures/CarpetX","nrpy/helpers/generic.py"],
[("rewrite when content differs","nrpy/helpers/conditional_file_updater.py:__exit__"),("project output","nrpy/infrastructures/BHaH/Makefile_helpers.py")],["project tree after the run and after the re-run","exit status"]))
A(P("C06","Conditional file update is all-or-nothing and change-only",
"Updating a generated file replaces it with the complete new content when the content differs (ignoring leading and trailing white space) and leaves an unchanged file untouched, time stamp included; if producing the new content fails part-way (an exception in the body, a formatter failure), the existing file keeps its old content and the error propagates.",
["fault_sequences","histories"],"every sequence of updates over old/new contents, with an exception, a formatter failure, a kill or an I/O error at any point",
"The doctest covers one create and one identical rewrite; failures inside the body are never exercised.",
["nrpy/helpers/conditional_file_updater.py"],[("compare and write","nrpy/helpers/conditional_file_updater.py:__exit__")],["file content and mtime after each update"]))
A(P("C07","Generated OpenMP code gives the same answer on every thread schedule",
"A generated BHaH program computes the same gridfunctions, diagnostics and checkpoints for every number of OpenMP threads, every iteration-to-thread assignment and every interleaving, up to the documented reordering of floating-point reductions; no two threads access the same memory location without ordering, one of them writing.",
["schedules","configurations"],"all thread counts and interleavings of the generated parallel regions (initial data, RHS, boundary conditions, time stepping, diagnostics, reductions, checkpoint) over coordinate systems, finite-difference orders, time integrators",
"The tests compile the generated programs but never run them, and text comparison cannot show that a loop is free of races.",
["nrpy/infrastructures/BHaH/simple_loop.py","nrpy/helpers/loop.py","nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py","nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py","nrpy/infrastructures/BHaH/checkpointing.py","nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py","nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py","nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py","nrpy/infrastructures/BHaH/rfm_precompute.py"],
[("OpenMP loop pragmas","nrpy/infrastructures/BHaH/simple_loop.py"),("BC application loops","nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"),("RK update loops","nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py")],["output files of the generated program","memory accesses of each parallel region"]))
A(P("C08","Restarting from a checkpoint continues the identical evolution",
"A generated BHaH program stopped after any checkpoint and started again continues exactly the evolution an uninterrupted run performs: the same fields, time, iteration count, diagnostics and final output, however often it is stopped and restarted, with progress reports that count only the resumed part of the evolution.",
["crash_points","histories","configurations"],"all stop points and numbers of restarts, checkpoint intervals, coordinate systems, grids, integrators and evolved/diagnosed quantities",
"No test runs a generated program, let alone restarts it.",
["nrpy/infrastructures/BHaH/checkpointing.py","nrpy/infrastructures/BHaH/main_c.py","nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py","nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py","nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py"],
[("checkpoint writer and reader","nrpy/infrastructures/BHaH/checkpointing.py"),("restart of time and iteration","nrpy/infrastructures/BHaH/checkpointing.py:read_checkpoint")],["checkpoint files","diagnostic output"]))
A(P("C09","A crash or disk error during checkpointing never loses or corrupts the run",
"If a generated BHaH program is killed, or its disk fails, at any point while writing a checkpoint, the next start resumes from a complete checkpoint (the previous or the new one) and from then on follows the uninterrupted evolution; it never resumes from a partial checkpoint, and a checkpoint file that is truncated is detected rather than used.",
["crash_points","fault_sequences"],"kill, torn write, short write, ENOSPC and EIO at every file operation of every checkpoint, and truncation of the stored checkpoint at every length",
"No test runs a generated program, interrupts it or fails its I/O.",
["nrpy/infrastructures/BHaH/checkpointing.py"],[("checkpoint publication","nrpy/infrastructures/BHaH/checkpointing.py:register_CFunction_write_checkpoint"),("checkpoint validation","nrpy/infrastructures/BHaH/checkpointing.py:register_CFunction_read_checkpoint")],["state after restart"]))
A(P("C10","The wall clock never influences the evolution",
"A generated program's fields, diagnostics and termination depend only on its inputs: whatever the wall clock does (stands still, jumps forwards or backwards, runs fast) the program terminates normally with the same output, and its progress report stays well formed and, for a clock that does not go back, shows the rate and remaining time that the evolved time and the elapsed clock time imply.",
["fault_sequences","configurations"],"all clock readings at every call, including jumps and standing still, for every progress-output interval",
"The tests never run the generated program and never control its clock.",
["nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py","nrpy/infrastructures/BHaH/main_c.py"],[("progress and ETA computation","nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py")],["program exit, stderr progress lines, output files"]))
A(P("C11","superB evolution is independent of message order and decomposition",
"A generated superB program evolves the same fields, up to floating-point roundoff, as the single-domain program, for every decomposition of the grid into chares and every order in which the runtime delivers messages that it is allowed to reorder.",
["schedules","configurations"],"all message delivery orders (arbitrary delays between chares), all decompositions of the grid",
"superB projects are only generated in the tests, never compiled or run; a race between ghost-zone messages of different sub-steps appears only under particular delays.",
["nrpy/infrastructures/superB/timestepping_chare.py","nrpy/infrastructures/superB/chare_communication_maps.py","nrpy/infrastructures/superB/CurviBoundaryConditions.py","nrpy/infrastructures/superB/MoL.py","nrpy/infrastructures/superB/numerical_grids.py","nrpy/infrastructures/superB/initial_data.py"],
[("ghost-zone exchange","nrpy/infrastructures/superB/timestepping_chare.py"),("non-local inner boundary exchange","nrpy/infrastructures/superB/CurviBoundaryConditions.py"),("global-to-local maps","nrpy/infrastructures/superB/chare_communication_maps.py")],["gridfunctions of every chare at every sub-step"]))
A(P("C12","superB always terminates, and only when all work is done",
"Every superB run makes progress to its final time under every message delivery order: no chare waits for ever, and the program exits only after every chare has finished evolving and every output file has been completely written and closed.",
["schedules","configurations"],"all message delivery orders and decompositions",
"superB programs are never run by the tests.",
["nrpy/infrastructures/superB/timestepping_chare.py","nrpy/infrastructures/superB/main_chare.py"],[("SDAG control flow","nrpy/infrastructures/superB/timestepping_chare.py:output_timestepping_ci"),("termination","nrpy/infrastructures/superB/main_chare.py")],["exit, pending messages at exit"]))
A(P("C13","superB diagnostics files equal the single-domain ones",
"Every diagnostics file a superB run writes is complete and holds the same data lines as the single-domain program writes for the same time, for every decomposition and every order of message and I/O-completion delivery.",
["schedules","configurations"],"all delivery orders of messages and parallel-I/O callbacks, all decompositions, all diagnostics intervals",
"superB programs are never run by the tests.",
["nrpy/infrastructures/superB/timestepping_chare.py","nrpy/infrastructures/superB/diagnostics.py","nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py"],[("parallel file writes","nrpy/infrastructures/superB/diagnostics.py")],["diagnostics files"]))
A(P("C14","superB state survives serialisation: migration and restart change nothing",
"A chare that is packed and unpacked at any point where the runtime may do so (migration, checkpoint, restart after a crash) continues exactly as if it had not been.",
["crash_points","schedules"],"every point at which the runtime may pack a chare, every delivery order, crash of the whole program between checkpoints",
"The pack/unpack routines are only compared as text, never executed.",
["nrpy/infrastructures/superB/superB/superB_pup.py","nrpy/infrastructures/superB/timestepping_chare.py"],[("PUP routines","nrpy/infrastructures/superB/superB")],["evolution after pack/unpack"]))
A(P("C15","Generated projects do not depend on where, when or by whom they are generated",
"Running a project script gives the same project files wherever and whenever it is run: nothing in them depends on the working directory, the install location, the home or temporary directory, the locale, umask, host or user name, the clock, the state of the random generators, the order in which directories are listed, the number of CPUs, or what is already in the working directory; and the generator changes nothing outside its project directory and its cache.",
["configurations","histories"],"all surroundings a project script can be run in: directories, environment variables, clock readings, umask, listing order, CPU count, files left by the user, by other projects or by an earlier generation, cold or warm cache",
"The tests generate each project in one fresh directory on one machine; a dependence on the surroundings shows only elsewhere.",
["nrpy/c_function.py","nrpy/infrastructures/BHaH/Makefile_helpers.py","nrpy/helpers/generic.py","nrpy/helpers/cached_functions.py","nrpy/helpers/conditional_file_updater.py","nrpy/infrastructures/CarpetX","nrpy/infrastructures/ETLegacy","nrpy/validate_expressions/validate_expressions.py"],
[("code formatting","nrpy/helpers/generic.py:clang_format"),("project Makefile","nrpy/infrastructures/BHaH/Makefile_helpers.py"),("copied headers","nrpy/helpers/generic.py:copy_files")],["files under the project directory","file-system changes outside it"]))
A(P("C16","Generated Cactus thorns evolve the same data in every environment their schedule allows",
"Thorns generated for the Einstein Toolkit (ETLegacy and CarpetX; wave equation and BSSN) compute the same evolved, auxiliary and ADM variables, at every point and output time, for every order of scheduled functions their schedule.ccl permits, every decomposition of the grid into components with ghost zones and padded storage, every order of components, loop points and OpenMP threads, whatever uninitialised or stale storage contains, whether boundary conditions are applied through Boundary or by the driver, and across a crash and recovery from a checkpoint, also onto another decomposition; no thread race occurs; and a thorn whose registration with MoL, Boundary or the driver is refused stops with an error.",
["schedules","crash points","configurations"],"all orders allowed by BEFORE/AFTER, decompositions, paddings, thread and loop schedules, storage contents, checkpoint times, refused registrations",
"The tests only generate the thorns; none is ever compiled or run, and no test has a second component, thread or order.",
["nrpy/infrastructures/ETLegacy","nrpy/infrastructures/CarpetX","nrpy/grid.py"],
[("schedule and interface files","nrpy/infrastructures/ETLegacy/schedule_ccl.py"),("loops","nrpy/infrastructures/ETLegacy/simple_loop.py"),("boundaries","nrpy/infrastructures/ETLegacy/boundary_conditions.py"),("CarpetX scheduling","nrpy/infrastructures/CarpetX/general_relativity")],["variables at output times","CCTK_ERROR","data races"]))
for o in L: pass
NA=[
("N01","Generated finite-difference code has the stated order of accuracy","For every derivative and order, the generated stencil is exact for polynomials up to the stated order.",["inputs"],"nrpy/finite_difference.py"),
("N02","Symbolic equations match their mathematical definitions","Every equation module (BSSN, wave, elliptic, GRHD, SEOBNR, ...) yields expressions equal to the published formulas for all field values.",["inputs"],"nrpy/equations"),
("N03","Reference-metric quantities are mutually consistent","For every coordinate system the metric, its inverse, derivatives and coordinate maps satisfy their defining identities at every point.",["inputs"],"nrpy/reference_metric.py"),
("N04","Expression lowering (CSE, SIMD, C printing) preserves values","Every lowering of a symbolic expression to C evaluates to the value of the expression.",["inputs","programs"],"nrpy/c_codegen.py"),
("N05","Runge-Kutta tables satisfy their order conditions","Every registered integrator satisfies the order conditions of its stated order.",["inputs"],"nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"),
("N06","Parameter files and command lines are parsed faithfully","Every syntactically valid parameter file or command line sets exactly the named parameters to exactly the given values, and every invalid one is rejected.",["inputs"],"nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"),
("N07","Tensor index notation expands correctly","Every indexed-expression declaration yields the component symbols with the declared symmetries.",["inputs"],"nrpy/indexedexp.py"),
]
for i,t,s,o,f in NA:
    A(P(i,t,s,o,"all inputs","The trusted-value tests sample single points or single texts; the claim quantifies over all of them.",[f],[("pure computation",f)]))
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(o)+"\n" for o in L))
