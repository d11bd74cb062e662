From eab7faf0e22a940cb47d45ddba1352117cedbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:56 +0000
Subject: [PATCH 01/17] fix: write NRPy disk-cache entries atomically

A parallel codegen worker (or any other NRPy process) that found a cache file while
another process was still writing it unpickled a truncated entry (EOFError); a process
killed while writing poisoned the cache for every later run.
---
 nrpy/helpers/cached_functions.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..1d6b9c3 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -110,9 +112,28 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    _atomic_pickle_dump(cache_file(unique_id), data)
+
+
+def _atomic_pickle_dump(cache_fle: Path, data: Any) -> None:
+    """
+    Pickle data to a cache file such that other processes see either no file or the complete file.
+
+    The cache is shared by all parallel codegen workers and by any other running NRPy process, so
+    the data are first written to a temporary file, which is then renamed into place.
+
+    :param cache_fle: Path of the cache file.
+    :param data: The data to be written to the cache file.
+    :raises BaseException: Re-raise any error that occurs while writing, after removing the temporary file.
+    """
+    fd, tmp_name = tempfile.mkstemp(dir=str(cache_fle.parent), suffix=".tmp")
+    try:
+        with os.fdopen(fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, str(cache_fle))
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +162,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            _atomic_pickle_dump(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From e2c795a73b304d4e18cb8a7e07be242e3a6e3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 02/17] fix: do not overwrite a file with partial content when
 generating it raised

ConditionalFileUpdater.__exit__ wrote whatever had been produced so far, replacing a
good file by a truncated one whenever the body of the with statement raised.
---
 nrpy/helpers/conditional_file_updater.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..c4cff5c 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -77,6 +77,11 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        # The new content is incomplete if an exception was raised while generating it;
+        #    leave the existing file alone, and let the exception propagate.
+        if exception_type is not None:
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
-- 
2.43.0


From 0fd239d5a05f6a8f71a59054ab48dc7ceeca5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 03/17] fix: data race on ph_array in psi4 decomposition

All threads of the parallel loop over theta wrote the phi array.
---
 .../BHaH/general_relativity/BSSN_C_codegen_library.py         | 3 +--
 nrpy/infrastructures/superB/diagnostics.py                    | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
index da906e7..8cb489a 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
@@ -968,13 +968,12 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
       }
 
       // Step 2.b: Compute psi_4 at this extraction radius and store to a local 2D array.
+      for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) ph_array[i2-NGHOSTS] = xx[2][i2];
 #pragma omp parallel for
       for(int i1=NGHOSTS;i1<Nxx_plus_2NGHOSTS1-NGHOSTS;i1++) {
         th_array[i1-NGHOSTS]    =     xx[1][i1];
         sinth_array[i1-NGHOSTS] = sin(xx[1][i1]);
         for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) {
-          ph_array[i2-NGHOSTS] = xx[2][i2];
-
           REAL sum_psi4r=0;
           REAL sum_psi4i=0;
           // Perform radial interpolation to get psi4 at desired extraction radius R_ext.
diff --git a/nrpy/infrastructures/superB/diagnostics.py b/nrpy/infrastructures/superB/diagnostics.py
index 8bb806e..c8a8502 100644
--- a/nrpy/infrastructures/superB/diagnostics.py
+++ b/nrpy/infrastructures/superB/diagnostics.py
@@ -457,13 +457,13 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
       }
 
       // Step 2.b: Compute psi_4 at this extraction radius and store to a local 2D array.
+      for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2chare - NGHOSTS; i2++)
+        ph_array[i2 - NGHOSTS] = xx_chare[2][i2];
 #pragma omp parallel for
       for (int i1 = NGHOSTS; i1 < Nxx_plus_2NGHOSTS1chare - NGHOSTS; i1++) {
         th_array[i1 - NGHOSTS] = xx_chare[1][i1];
         sinth_array[i1 - NGHOSTS] = sin(xx_chare[1][i1]);
         for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2chare - NGHOSTS; i2++) {
-          ph_array[i2 - NGHOSTS] = xx_chare[2][i2];
-
           REAL sum_psi4r = 0;
           REAL sum_psi4i = 0;
           // Perform radial interpolation to get psi4 at desired extraction radius R_ext.
-- 
2.43.0


From 514938f2ede6eccfb92a4842edf4fdad2d5b1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:25 +0000
Subject: [PATCH 04/17] fix: write checkpoints atomically and detect truncated
 ones

A crash or disk error while writing destroyed the only checkpoint, and the
next start silently resumed from whatever part of it existed.
---
 nrpy/infrastructures/BHaH/checkpointing.py | 27 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..6824b90 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,8 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+#define FREAD(ptr, size, nmemb, stream) { if (fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) { \
+      fprintf(stderr, "ERROR: checkpoint file is truncated or unreadable.\n"); exit(1); } }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
@@ -45,6 +46,10 @@ def register_CFunction_read_checkpoint(
     return 0;
 
   FILE *cp_file = fopen(filename, "r");
+  if (cp_file == NULL) {
+    fprintf(stderr, "ERROR: could not open checkpoint file %s.\n", filename);
+    exit(1);
+  }
   FREAD(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -127,7 +132,7 @@ def register_CFunction_write_checkpoint(
     par.register_CodeParameter(
         "REAL", __name__, "checkpoint_every", default_checkpoint_every, commondata=True
     )
-    includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
+    includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     desc = "Write a checkpoint file"
     cfunc_type = "void"
     name = "write_checkpoint"
@@ -143,7 +148,15 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
+  // Write to a temporary file, and rename it once it is complete, so that the previous
+  //   checkpoint survives if the program or the disk fails while writing.
+  char filename_tmp[264];
+  snprintf(filename_tmp, sizeof(filename_tmp), "%s.tmp", filename);
+  FILE *cp_file = fopen(filename_tmp, "w+");
+  if (cp_file == NULL) {
+    fprintf(stderr, "WARNING: could not open %s. Checkpoint not written.\n", filename_tmp);
+    return;
+  }
   fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -194,7 +207,13 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
+  int write_failed = ferror(cp_file) || fflush(cp_file) != 0 || fsync(fileno(cp_file)) != 0;
+  write_failed |= (fclose(cp_file) != 0);
+  if (write_failed || rename(filename_tmp, filename) != 0) {
+    fprintf(stderr, "WARNING: failed to write checkpoint %s.\n", filename);
+    remove(filename_tmp);
+    return;
+  }
   fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
-- 
2.43.0


From b3efb7ef3572aaf223231c345e4ee8e9c5c144aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:14 +0000
Subject: [PATCH 05/17] fix: keep the progress report well formed when the
 clock stands still or is set back

---
 nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
index 2330bf8..25fe2cd 100644
--- a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
+++ b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
@@ -91,9 +91,11 @@ def register_CFunction_progress_indicator(
   CURRTIME_FUNC(&currtime);
   const REAL time_in_ns = TIME_IN_NS(commondata->start_wallclock_time, currtime);
   const REAL seconds_elapsed = time_in_ns / 1e9;
-  const REAL phys_time_per_sec = (commondata->time - commondata->t_0) / seconds_elapsed;
+  // The wall clock may stand still or be set back; report zeros until a meaningful rate is known.
+  const REAL phys_time_per_sec = seconds_elapsed > 0 ? (commondata->time - commondata->t_0) / seconds_elapsed : 0.0;
   // const REAL RHS_pt_evals_per_sec = num_RHS_pt_evals / (time_in_ns / 1.0e9);
-  const REAL seconds_remaining = (int)((commondata->t_final - commondata->time) / phys_time_per_sec);
+  const REAL ETA_in_seconds = (commondata->t_final - commondata->time) / phys_time_per_sec;
+  const REAL seconds_remaining = ETA_in_seconds > 0 && ETA_in_seconds < 2147483647.0 ? (int)ETA_in_seconds : 0;
   int time_remaining__hrs  = (int)(seconds_remaining / 3600.0);
   int time_remaining__mins = (int)(seconds_remaining / 60.0) % 60;
   int time_remaining__secs = (int)(seconds_remaining) - time_remaining__mins * 60 - time_remaining__hrs * 3600;
-- 
2.43.0


From 2a3c5e0b77f7a3e8c02a5dcbc6186d38e5b93592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:23 +0000
Subject: [PATCH 06/17] fix: superB chares accept ghost-zone and inner-BC
 messages in any arrival order

Charm++ does not deliver messages in the order in which they were sent, and a
chare may be one exchange ahead of its neighbour. The receiving side took
whichever message of an entry method came first, processed it as the one it
was waiting for, and went on with ghost zones that had not been filled yet.
Use the gridfunction type as the SDAG reference number.
---
 .../superB/timestepping_chare.py              | 74 ++++++++++++-------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..aadfbf5 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -42,26 +42,31 @@ def generate_send_nonlocalinnerbc_data_code(which_gf: str) -> str:
     """
 
 
-def generate_process_nonlocalinnerbc_code() -> str:
+def generate_process_nonlocalinnerbc_code(which_gf: str) -> str:
     """
     Generate code for nonlocal inner bc processing.
 
+    Charm++ does not deliver messages in the order in which they were sent, so the type of
+    gridfunctions (the first parameter of receiv_nonlocalinnerbc_data) is used as a reference
+    number: a message sent by a chare that is already one exchange ahead is left in the queue.
+
+    :param which_gf: Which grid function
     :return: Code for nonlocal inner bc processing.
     """
-    return """
-      if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares > 0) {
-        for (iter = 0; iter < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares; iter++) {
-          when receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
-            serial {
+    return f"""
+      if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares > 0) {{
+        for (iter = 0; iter < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares; iter++) {{
+          when receiv_nonlocalinnerbc_data[{which_gf}](int type_gfs, int src_chare_idx3, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
+            serial {{
               set_tmpBuffer_innerbc_receiv(src_chare_idx3, len_tmpBuffer, tmpBuffer, grid);
               type_gfs_nonlocal_innerbc = type_gfs;
-            }
-          }
-        }
-        serial {
+            }}
+          }}
+        }}
+        serial {{
           process_nonlocalinnerbc(type_gfs_nonlocal_innerbc, grid);
-        }
-      }
+        }}
+      }}
 """
 
 
@@ -88,7 +93,7 @@ def generate_mol_step_forward_code(
     if outer_bcs_type == "radiation":
         for rhs_output_exprs in rhs_output_exprs_list:
             return_str += generate_send_nonlocalinnerbc_data_code(rhs_output_exprs)
-            return_str += generate_process_nonlocalinnerbc_code()
+            return_str += generate_process_nonlocalinnerbc_code(rhs_output_exprs)
 
     return_str += f"""
     serial{{
@@ -103,7 +108,7 @@ def generate_mol_step_forward_code(
 """
         for post_rhs_output in post_rhs_output_list:
             return_str += generate_send_nonlocalinnerbc_data_code(post_rhs_output)
-            return_str += generate_process_nonlocalinnerbc_code()
+            return_str += generate_process_nonlocalinnerbc_code(post_rhs_output)
 
     return_str += f"""
     serial{{
@@ -111,7 +116,7 @@ def generate_mol_step_forward_code(
     }}
 """
     return_str += generate_send_nonlocalinnerbc_data_code("AUXEVOL_GFS")
-    return_str += generate_process_nonlocalinnerbc_code()
+    return_str += generate_process_nonlocalinnerbc_code("AUXEVOL_GFS")
 
     return return_str
 
@@ -132,11 +137,16 @@ def generate_send_neighbor_data_code(which_gf: str, neighbor_direction: str) ->
 
 
 def generate_process_ghost_code(
-    axis: str, pos_ghost_type: str, neg_ghost_type: str, nchare_var: str
+    which_gf: str, axis: str, pos_ghost_type: str, neg_ghost_type: str, nchare_var: str
 ) -> str:
     """
     Generate code for ghost zone processing.
 
+    Charm++ does not deliver messages in the order in which they were sent, so the type of
+    gridfunctions (the first parameter of the ghost entry methods) is used as a reference
+    number: a message sent by a chare that is already one exchange ahead is left in the queue.
+
+    :param which_gf: Which grid function
     :param axis: Axis index
     :param pos_ghost_type: Positive ghost zone type
     :param neg_ghost_type: Negative ghost zone type
@@ -148,14 +158,14 @@ def generate_process_ghost_code(
     neg_ghost_func = f"{neg_ghost_type.lower()}"
     return f"""
     if({this_index_var} < {nchare_var} - 1) {{
-        when {pos_ghost_func}(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
+        when {pos_ghost_func}[{which_gf}](int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
             serial {{
                 process_ghost({pos_ghost_type}, type_gfs, len_tmpBuffer, tmpBuffer, grid);
             }}
         }}
     }}
     if({this_index_var} > 0) {{
-        when {neg_ghost_func}(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
+        when {neg_ghost_func}[{which_gf}](int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {{
             serial {{
                 process_ghost({neg_ghost_type}, type_gfs, len_tmpBuffer, tmpBuffer, grid);
             }}
@@ -1153,7 +1163,7 @@ void Timestepping::send_nonlocalinnerbc_data(const int type_gfs, const int grid)
     int dst_chare_index1;
     int dst_chare_index2;
     REVERSE_IDX3GENERAL(idx3_of_dst_chares[which_dst_chare], Nchare0, Nchare1, dst_chare_index0, dst_chare_index1, dst_chare_index2);
-    thisProxy[CkArrayIndex3D(dst_chare_index0, dst_chare_index1, dst_chare_index2)].receiv_nonlocalinnerbc_data(idx3_this_chare, type_gfs, NUM_GFS * num_srcpts_tosend_each_chare[which_dst_chare], tmpBuffer_innerbc_send);
+    thisProxy[CkArrayIndex3D(dst_chare_index0, dst_chare_index1, dst_chare_index2)].receiv_nonlocalinnerbc_data(type_gfs, idx3_this_chare, NUM_GFS * num_srcpts_tosend_each_chare[which_dst_chare], tmpBuffer_innerbc_send);
 	}
 }
 """
@@ -1279,9 +1289,9 @@ def output_timestepping_ci(
         initial_data(&commondata, griddata_chare, INITIALDATA_APPLYBCS_INNERONLY);
       }"""
         file_output_str += generate_send_nonlocalinnerbc_data_code("Y_N_GFS")
-        file_output_str += generate_process_nonlocalinnerbc_code()
+        file_output_str += generate_process_nonlocalinnerbc_code("Y_N_GFS")
         file_output_str += generate_send_nonlocalinnerbc_data_code("AUXEVOL_GFS")
-        file_output_str += generate_process_nonlocalinnerbc_code()
+        file_output_str += generate_process_nonlocalinnerbc_code("AUXEVOL_GFS")
         file_output_str += """
       serial {
         initial_data(&commondata, griddata_chare, INITIALDATA_BIN_TWO);
@@ -1299,9 +1309,9 @@ def output_timestepping_ci(
             )
 
         file_output_str += generate_send_nonlocalinnerbc_data_code("Y_N_GFS")
-        file_output_str += generate_process_nonlocalinnerbc_code()
+        file_output_str += generate_process_nonlocalinnerbc_code("Y_N_GFS")
         file_output_str += generate_send_nonlocalinnerbc_data_code("AUXEVOL_GFS")
-        file_output_str += generate_process_nonlocalinnerbc_code()
+        file_output_str += generate_process_nonlocalinnerbc_code("AUXEVOL_GFS")
     else:
         # If NRPy elliptic
         file_output_str += """
@@ -1346,14 +1356,14 @@ def output_timestepping_ci(
             "Y_N_GFS", grid_split_direction
         )
         file_output_str += generate_process_ghost_code(
-            loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
+            "Y_N_GFS", loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
         )
 
         file_output_str += generate_send_neighbor_data_code(
             "AUXEVOL_GFS", grid_split_direction
         )
         file_output_str += generate_process_ghost_code(
-            loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
+            "AUXEVOL_GFS", loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
         )
 
     file_output_str += r"""
@@ -1566,14 +1576,22 @@ def output_timestepping_ci(
                     post_rhs_output, grid_split_direction
                 )
                 file_output_str += generate_process_ghost_code(
-                    loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
+                    post_rhs_output,
+                    loop_direction,
+                    pos_ghost_type,
+                    neg_ghost_type,
+                    nchare_var,
                 )
 
             file_output_str += generate_send_neighbor_data_code(
                 "AUXEVOL_GFS", grid_split_direction
             )
             file_output_str += generate_process_ghost_code(
-                loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
+                "AUXEVOL_GFS",
+                loop_direction,
+                pos_ghost_type,
+                neg_ghost_type,
+                nchare_var,
             )
 
     file_output_str += r"""
@@ -1632,7 +1650,7 @@ def output_timestepping_ci(
     entry void bottom_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void continue_timestepping();
     entry void receiv_nonlocalinnerbc_idx3srcpt_tosend(int idx3_of_sendingchare, int num_srcpts, int globalidx3_srcpts[num_srcpts]);
-    entry void receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
+    entry void receiv_nonlocalinnerbc_data(int type_gfs, int src_chare_idx3, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);"""
     if enable_residual_diagnostics:
         file_output_str += r"""
     entry void continue_after_residual_H_done();
-- 
2.43.0


From 4e37abc7c585d90901c7fdffb9d72b2fb8b0bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:17 +0000
Subject: [PATCH 07/17] fix: superB chares write diagnostics only when they
 have reached the step being output

diagnostics_ckio and the psi4 section broadcast ran in whatever state the
receiving chare was in, so a chare that lagged behind (or, for psi4, was
already ahead of) the chare that asked for the output wrote data of another
time into the file. Take these messages at the matching point of the main loop.
---
 .../superB/timestepping_chare.py              | 103 ++++++++++++------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index aadfbf5..881651e 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -183,8 +183,32 @@ z_pos_ghost_type = "TOP_GHOST"
 z_neg_ghost_type = "BOTTOM_GHOST"
 
 
+def generate_diagnostics_ckio_code(enable_residual_diagnostics: bool) -> str:
+    """
+    Generate code for writing this chare's part of one diagnostics file.
+
+    :param enable_residual_diagnostics: Whether or not residual diagnostics are enabled.
+    :return: Code for writing this chare's part of one diagnostics file
+    """
+    extra_arg = ", unused_var" if enable_residual_diagnostics else ""
+    extra_decl = "REAL unused_var[2];" if enable_residual_diagnostics else ""
+    return f"""
+    when diagnostics_ckio(Ck::IO::Session token, int which_output) {{
+        serial {{
+        const int thisIndex_arr[3] = {{thisIndex.x, thisIndex.y, thisIndex.z}};
+        {extra_decl}
+        diagnostics(&commondata, griddata_chare, griddata, token, which_output, which_grid_diagnostics, thisIndex_arr{extra_arg});
+        }}
+    }}
+    """
+
+
 def generate_diagnostics_code(
-    dimension: str, direction: str, num_fields: str, tot_num_diagnostic_pts: str
+    dimension: str,
+    direction: str,
+    num_fields: str,
+    tot_num_diagnostic_pts: str,
+    enable_residual_diagnostics: bool,
 ) -> str:
     """
     Generate code for diagnostics.
@@ -193,6 +217,7 @@ def generate_diagnostics_code(
     :param direction: Direction of diagnostics (e.g. "x", "y", "z")
     :param num_fields: Number of fields for diagnostics
     :param tot_num_diagnostic_pts: Total number of diagnostic points
+    :param enable_residual_diagnostics: Whether or not residual diagnostics are enabled.
     :return: Code for diagnostics
     """
     code = f"""
@@ -215,6 +240,7 @@ def generate_diagnostics_code(
         delete m_{dimension}_{direction};
         }}
     }}
+    {generate_diagnostics_ckio_code(enable_residual_diagnostics)}
     when test_written_{dimension}_{direction}(CkReductionMsg *m_{dimension}_{direction}) {{
         serial {{
         delete m_{dimension}_{direction};
@@ -1411,6 +1437,28 @@ def output_timestepping_ci(
               secProxy.recvMsg_to_contribute_localsums_for_psi4_decomp(msg);
             }
           }
+          when recvMsg_to_contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg) {
+            serial {
+              Ck::IO::Session token; // pass a null token
+              const int thisIndex_arr[3] = {thisIndex.x, thisIndex.y, thisIndex.z};
+              diagnostics(&commondata, griddata_chare, griddata, token, OUTPUT_PSI4, which_grid_diagnostics, thisIndex_arr);
+              contribute_localsums_for_psi4_decomp(msg, which_grid_diagnostics);
+            }
+          }
+          if (thisIndex.y == 0 && thisIndex.z == 0) {
+            when report_sums_for_psi4_diagnostics(CkReductionMsg *msg) {
+              serial {
+                int reducedArrSize = msg->getSize() / sizeof(double);
+                double *output = (double *)msg->getData();
+                const int length_localsums_for_psi4_decomp = griddata_chare[which_grid_diagnostics].diagnosticstruct.length_localsums_for_psi4_decomp;
+                for (int i = 0; i < length_localsums_for_psi4_decomp; i++) {
+                  griddata_chare[which_grid_diagnostics].diagnosticstruct.globalsums_for_psi4_decomp[i] = (REAL)output[i];
+                }
+                psi4_spinweightm2_decomposition_file_write(&commondata, &griddata_chare[which_grid_diagnostics].diagnosticstruct);
+                delete msg;
+              }
+            }
+          }
         }
         """
     if enable_residual_diagnostics:
@@ -1471,6 +1519,7 @@ def output_timestepping_ci(
         "y",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.num_output_quantities + 1",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.tot_num_diagnostic_1d_y_pts",
+        enable_residual_diagnostics,
     )
 
     # Generate code for 1d z diagnostics
@@ -1479,6 +1528,7 @@ def output_timestepping_ci(
         "z",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.num_output_quantities + 1",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.tot_num_diagnostic_1d_z_pts",
+        enable_residual_diagnostics,
     )
 
     # Generate code for 2d xy diagnostics
@@ -1487,6 +1537,7 @@ def output_timestepping_ci(
         "xy",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.num_output_quantities + 2",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.tot_num_diagnostic_2d_xy_pts",
+        enable_residual_diagnostics,
     )
 
     # Generate code for 2d yz diagnostics
@@ -1495,18 +1546,30 @@ def output_timestepping_ci(
         "yz",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.num_output_quantities + 2",
         "griddata_chare[which_grid_diagnostics].diagnosticstruct.tot_num_diagnostic_2d_yz_pts",
+        enable_residual_diagnostics,
     )
 
-    file_output_str += r"""
+    file_output_str += (
+        r"""
             if (count_filewritten == expected_count_filewritten) {
               serial {thisProxy.continue_timestepping(); }
             }
           } else {
             serial {thisProxy.continue_timestepping(); }
           }
+        } else {
+          // The other chares write their part of each file, and do so only once they have reached this step
+          if (write_diagnostics_this_step) {
+            for (iter = 0; iter < expected_count_filewritten; iter++) {
+"""
+        + generate_diagnostics_ckio_code(enable_residual_diagnostics)
+        + r"""
+            }
+          }
         }
         when continue_timestepping() { }
 """
+    )
     if enable_charm_checkpointing:
         file_output_str += r"""
         // periodically checkpointing
@@ -1629,19 +1692,7 @@ def output_timestepping_ci(
     entry void closed_1d_z(CkReductionMsg *m);
     entry void closed_2d_xy(CkReductionMsg *m);
     entry void closed_2d_yz(CkReductionMsg *m);
-    entry void diagnostics_ckio(Ck::IO::Session token, int which_output) {
-      serial {
-        const int thisIndex_arr[3] = {thisIndex.x, thisIndex.y, thisIndex.z};"""
-    if enable_residual_diagnostics:
-        file_output_str += r"""
-        REAL unused_var[2];
-        diagnostics(&commondata, griddata_chare, griddata, token, which_output, which_grid_diagnostics, thisIndex_arr, unused_var);"""
-    else:
-        file_output_str += r"""
-        diagnostics(&commondata, griddata_chare, griddata, token, which_output, which_grid_diagnostics, thisIndex_arr);"""
-    file_output_str += r"""
-      }
-    }
+    entry void diagnostics_ckio(Ck::IO::Session token, int which_output);
     entry void east_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void west_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
     entry void north_ghost(int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]);
@@ -1683,26 +1734,8 @@ def output_timestepping_ci(
     entry void receiv_wavespeed_at_outer_boundary(REAL wavespeed_at_outer_boundary);"""
     if enable_psi4_diagnostics:
         file_output_str += r"""
-    entry void recvMsg_to_contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg){
-      serial {
-        Ck::IO::Session token; // pass a null token
-        const int thisIndex_arr[3] = {thisIndex.x, thisIndex.y, thisIndex.z};
-        diagnostics(&commondata, griddata_chare, griddata, token, OUTPUT_PSI4, which_grid_diagnostics, thisIndex_arr);
-        contribute_localsums_for_psi4_decomp(msg, which_grid_diagnostics);
-      }
-    }
-    entry void report_sums_for_psi4_diagnostics(CkReductionMsg * msg) {
-      serial {
-        int reducedArrSize = msg->getSize() / sizeof(double);
-        double *output = (double *)msg->getData();
-        const int length_localsums_for_psi4_decomp = griddata_chare[which_grid_diagnostics].diagnosticstruct.length_localsums_for_psi4_decomp;
-        for (int i = 0; i < length_localsums_for_psi4_decomp; i++) {
-          griddata_chare[which_grid_diagnostics].diagnosticstruct.globalsums_for_psi4_decomp[i] = (REAL)output[i];
-        }
-        psi4_spinweightm2_decomposition_file_write(&commondata, &griddata_chare[which_grid_diagnostics].diagnosticstruct);
-        delete msg;
-      }
-    }"""
+    entry void recvMsg_to_contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg);
+    entry void report_sums_for_psi4_diagnostics(CkReductionMsg *msg);"""
 
     if enable_charm_checkpointing:
         file_output_str += r"""
-- 
2.43.0


From b331019ec6273393df2fe49437d98a8f3e389094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:28 +0000
Subject: [PATCH 08/17] fix: superB ends the run once every chare has finished,
 and not before

Each chare called Main::done(), so the first one to finish ended the program
for all; for NRPyElliptic the main loop went on after the stop condition was
met, so what had been written when CkExit() took effect depended on timing.
---
 .../superB_nrpyelliptic_conformally_flat.py        |  3 ---
 nrpy/infrastructures/superB/main_chare.py          |  2 +-
 nrpy/infrastructures/superB/timestepping_chare.py  | 14 +++++++++-----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/nrpy/examples/superB_nrpyelliptic_conformally_flat.py b/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
index cc91469..c6a5418 100644
--- a/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
+++ b/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
@@ -349,9 +349,6 @@ cmdpar.register_CFunction_cmdline_input_and_parfile_parser(
 post_MoL_step_forward_in_time = r"""
 serial {
   check_stop_conditions(&commondata, griddata_chare);
-  if (commondata.stop_relaxation) {
-    mainProxy.done();
-  }
 }
 """
 
diff --git a/nrpy/infrastructures/superB/main_chare.py b/nrpy/infrastructures/superB/main_chare.py
index ff4f04a..8253e8b 100644
--- a/nrpy/infrastructures/superB/main_chare.py
+++ b/nrpy/infrastructures/superB/main_chare.py
@@ -247,7 +247,7 @@ def output_main_ci(
 
   mainchare Main {
     entry Main(CkArgMsg* msg);
-    entry void done();
+    entry [reductiontarget] void done();
   };
 
 }
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 881651e..ddeee44 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1392,11 +1392,14 @@ def output_timestepping_ci(
             "AUXEVOL_GFS", loop_direction, pos_ghost_type, neg_ghost_type, nchare_var
         )
 
-    file_output_str += r"""
-      while (commondata.time < commondata.t_final) { // Main loop to progress forward in time.
-        serial {
+    stop_condition = (
+        " && !commondata.stop_relaxation" if enable_residual_diagnostics else ""
+    )
+    file_output_str += rf"""
+      while (commondata.time < commondata.t_final{stop_condition}) {{ // Main loop to progress forward in time.
+        serial {{
           time_start = commondata.time;
-        }
+        }}
         """
     if enable_residual_diagnostics:
         file_output_str += r"""
@@ -1677,7 +1680,8 @@ def output_timestepping_ci(
 """
     file_output_str += r"""
       serial{
-        mainProxy.done();
+        // exit once every chare has left the main loop
+        contribute(CkCallback(CkReductionTarget(Main, done), mainProxy));
       }
     };
     entry void start_write_1d_y(Ck::IO::SessionReadyMsg *m);
-- 
2.43.0


From ce1297b4c4fee43cf48b71e6596cb808bed69195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:01 +0000
Subject: [PATCH 09/17] fix: superB restores the complete state of a chare
 after migration or restart

The maps from chare index to source/destination chare id have one entry per
chare but were packed (and allocated on unpacking) with one entry per source/
destination chare; write_chckpt_this_step was not packed; and the destructor
freed uninitialized bcstruct pointers of an unpacked chare.
---
 .../superB/CurviBoundaryConditions.py              |  1 +
 nrpy/infrastructures/superB/superB/superB.h        |  1 +
 nrpy/infrastructures/superB/superB/superB_pup.py   | 14 ++++++++++----
 nrpy/infrastructures/superB/timestepping_chare.py  |  1 +
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/superB/CurviBoundaryConditions.py b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
index 818d30b..9a0b059 100644
--- a/nrpy/infrastructures/superB/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
@@ -163,6 +163,7 @@ def register_CFunction_bcstruct_chare_set_up(CoordSystem: str) -> None:
     }
 
     // Next set up nonlocalinnerbcstruct
+    nonlocalinnerbcstruct->tot_num_chares = tot_num_chares;
 
     // dstpt is in local grid, srcpt is not in local grid, count number of src chares
     int count_src_chares = 0;
diff --git a/nrpy/infrastructures/superB/superB/superB.h b/nrpy/infrastructures/superB/superB/superB.h
index 1a5401e..e36915e 100644
--- a/nrpy/infrastructures/superB/superB/superB.h
+++ b/nrpy/infrastructures/superB/superB/superB.h
@@ -129,6 +129,7 @@ typedef struct __tmpBuffers_struct__ {
 } tmpBuffers_struct;
 
 typedef struct __nonlocalinnerbc_struct__ {
+  int tot_num_chares; // size of idx3chare_to_src_chare_id and idx3chare_to_dst_chare_id
   // variables for this chare having the dst pt but not the src pt
   int tot_num_src_chares;
   int *restrict idx3_of_src_chares;
diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..912eae8 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -379,15 +379,16 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 
 // PUP routine for struct nonlocalinnerbc_struct
 void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+  p | nonlocal.tot_num_chares;
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -396,11 +397,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
@@ -427,6 +428,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
 void pup_griddata(PUP::er &p, griddata_struct &gd) {
   pup_params_struct(p, gd.params);
   if (p.isUnpacking()) {
+    // bcstruct is not PUP'ed, but the destructor of Timestepping frees its arrays
+    gd.bcstruct.inner_bc_array = NULL;
+    for (int ng = 0; ng < NGHOSTS * 3; ng++) {
+      gd.bcstruct.pure_outer_bc_array[ng] = NULL;
+    }
     gd.xx[0] = (REAL *restrict)malloc(sizeof(REAL) * gd.params.Nxx_plus_2NGHOSTS0);
     gd.xx[1] = (REAL *restrict)malloc(sizeof(REAL) * gd.params.Nxx_plus_2NGHOSTS1);
     gd.xx[2] = (REAL *restrict)malloc(sizeof(REAL) * gd.params.Nxx_plus_2NGHOSTS2);
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index ddeee44..e906b52 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -293,6 +293,7 @@ void Timestepping::pup(PUP::er &p) {
   p | iter;
   p | type_gfs_nonlocal_innerbc;
   p | write_diagnostics_this_step;
+  p | write_chckpt_this_step;
   p | f_1d_y;
   p | f_1d_z;
   p | f_2d_xy;
-- 
2.43.0


From 4a1382d9d70ffb47c010500957c5a0895c6328c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 10/17] fix: superB applies extrapolation boundary conditions
 in every substep of every MoL method

The boundary-condition step was left out of the generated code for
Butcher tables that are not diagonal, and for the second substep of
diagonal RK3 methods, so those runs evolved stale boundary points.
---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From 4d206f1a31ebd3315e08c01d9274d0624cc230a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 11/17] fix: superB diagnostics rows keep their length when a
 value needs three exponent digits or is not finite

Rows are written at fixed offsets of 23 bytes per field, but values such
as 1e-101, inf and nan do not print to 22 characters, which left garbage
in the file or cut rows short. Pad every field to the widest double.
---
 .../output_0d_1d_2d_nearest_gridpoint_slices.py  | 16 ++++++++--------
 .../infrastructures/superB/timestepping_chare.py |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
index e349752..86b46a6 100644
--- a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
+++ b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
@@ -204,12 +204,12 @@ for (int which_pt = 0; which_pt < num_diagnostic_pts; which_pt++) {{
   REAL xCart[3];
   xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart);
   const REAL xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
-  int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 1);
+  int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 1);
   char out[sizeinbytes+1];
   snprintf(out, sizeof(out),"""
-    output_to_file = """ "% .15e """
+    output_to_file = """ "% 23.15e """
     for key in out_quantities_dict.keys():
-        printf_c_type = "% .15e" if key[0] != "int" else "%d"
+        printf_c_type = "% 23.15e" if key[0] != "int" else "%23d"
         output_to_file += f"{printf_c_type} "
 
     output_to_file = f'{output_to_file[:-1]}\\n", xCart_axis, '
@@ -284,12 +284,12 @@ for (int which_pt = 0; which_pt < num_diagnostic_pts; which_pt++) {{
   const int i2 = i2_diagnostic_pt[which_pt];
   REAL xCart[3];
   xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart);
-  int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 2);
+  int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 2);
   char out[sizeinbytes+1];
   snprintf(out, sizeof(out),"""
-    output_to_file = """ "% .15e % .15e """
+    output_to_file = """ "% 23.15e % 23.15e """
     for key in out_quantities_dict.keys():
-        printf_c_type = "% .15e" if key[0] != "int" else "%d"
+        printf_c_type = "% 23.15e" if key[0] != "int" else "%23d"
         output_to_file += f"{printf_c_type} "
 
     if plane == "xy":
@@ -402,7 +402,7 @@ diagnosticstruct->locali2_diagnostic_1d_{axis}_pt = (int *restrict)malloc(sizeof
 diagnosticstruct->offset_diagnostic_1d_{axis}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 
 // compute offset in bytes for first field for each diagnostic pt
-int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 1);
+int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 1);
 int which_diagnostics_chare = 0;
 int which_diagnostic_global = 0;
 for (int i = 0; i < data_index; i++) {{
@@ -516,7 +516,7 @@ diagnosticstruct->locali2_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeo
 diagnosticstruct->localidx3_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 diagnosticstruct->offset_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 // compute offset in bytes for first field for each diagnostic pt
-int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 2);
+int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 2);
 
 int which_diagnostics_chare = 0;
 int which_diagnostic_global = 0;
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index e906b52..948097a 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -229,7 +229,7 @@ def generate_diagnostics_code(
         CkCallback sessionEnd_{dimension}_{direction}(CkIndex_Timestepping::test_written_{dimension}_{direction}(0), thisProxy);
         int num_fields = {num_fields};
         int tot_num_diagnostic_pts = {tot_num_diagnostic_pts};
-        int totsizeinbytes = 23 * num_fields * tot_num_diagnostic_pts;
+        int totsizeinbytes = 24 * num_fields * tot_num_diagnostic_pts;
         Ck::IO::startSession(f_{dimension}_{direction}, totsizeinbytes, 0, sessionStart_{dimension}_{direction}, sessionEnd_{dimension}_{direction});
         delete m_{dimension}_{direction};
         }}
-- 
2.43.0


From 9a236286aebedba75a6948d7d663f0a3ee7ba76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:58 +0000
Subject: [PATCH 12/17] fix: superB psi4 extraction no longer reads psi4 where
 no chare computed it

psi4 is evaluated in the interior of each chare only, but the radial
interpolation stencil of an extraction radius next to a chare boundary
also used the chare's ghost zones, which hold whatever was left in
memory. psi4 modes are linear in psi4: let every chare add the stencil
points it owns, and sum over all chares.
---
 nrpy/infrastructures/superB/diagnostics.py    | 34 ++++++-------------
 .../superB/timestepping_chare.py              | 10 +++---
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/nrpy/infrastructures/superB/diagnostics.py b/nrpy/infrastructures/superB/diagnostics.py
index c8a8502..45a26e6 100644
--- a/nrpy/infrastructures/superB/diagnostics.py
+++ b/nrpy/infrastructures/superB/diagnostics.py
@@ -37,9 +37,6 @@ def register_CFunction_psi4_diagnostics_set_up() -> Union[None, pcg.NRPyEnv_type
 
     body = r"""
 
-  const int Nchare0 = commondata->Nchare0;
-  const int Nchare1 = commondata->Nchare1;
-  const int Nchare2 = commondata->Nchare2;
   const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0;
   const int Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1;
   const int Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
@@ -51,7 +48,8 @@ def register_CFunction_psi4_diagnostics_set_up() -> Union[None, pcg.NRPyEnv_type
 #define num_of_R_exts 24
     const REAL list_of_R_exts[num_of_R_exts] = {10.0, 20.0, 21.0, 22.0, 23.0, 24.0, 25.0, 26.0, 27.0, 28.0, 29.0,  30.0,
                                                 31.0, 32.0, 33.0, 35.0, 40.0, 50.0, 60.0, 70.0, 80.0, 90.0, 100.0, 150.0};
-    // Find which R_exts lie in the chares's grid
+    // Find which R_exts lie in the global grid. The radial interpolation stencil of an R_ext may reach across
+    //  chare boundaries, so that every chare contributes to every R_ext.
     int count_num_of_R_exts_chare = 0;
     for (int which_R_ext = 0; which_R_ext < num_of_R_exts; which_R_ext++) {
       const REAL R_ext = list_of_R_exts[which_R_ext];
@@ -59,15 +57,7 @@ def register_CFunction_psi4_diagnostics_set_up() -> Union[None, pcg.NRPyEnv_type
       int Cart_to_i0i1i2[3];
       REAL closest_xx[3];
       Cart_to_xx_and_nearest_i0i1i2(commondata, params, xCart_R_ext, closest_xx, Cart_to_i0i1i2);
-
-      // To lie in this section only chare index 0 needs to be same as this chare
-      const int globalidx3 = IDX3GENERAL(Cart_to_i0i1i2[0], Cart_to_i0i1i2[1], Cart_to_i0i1i2[2], Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1);
-      const int chareidx3_of_pt = charecommstruct->globalidx3pt_to_chareidx3[globalidx3];
-      int chare_index0_pt;
-      int chare_index1_pt;
-      int chare_index2_pt;
-      REVERSE_IDX3GENERAL(chareidx3_of_pt, Nchare0, Nchare1, chare_index0_pt, chare_index1_pt, chare_index2_pt);
-      if (chare_index0_pt == chare_index[0]) {
+      if (IS_IN_GRID_INTERIOR(Cart_to_i0i1i2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, NGHOSTS)) {
         // count num R_exts_chare
         count_num_of_R_exts_chare++;
       }
@@ -85,15 +75,7 @@ def register_CFunction_psi4_diagnostics_set_up() -> Union[None, pcg.NRPyEnv_type
       int Cart_to_i0i1i2[3];
       REAL closest_xx[3];
       Cart_to_xx_and_nearest_i0i1i2(commondata, params, xCart_R_ext, closest_xx, Cart_to_i0i1i2);
-      const int globalidx3 = IDX3GENERAL(Cart_to_i0i1i2[0], Cart_to_i0i1i2[1], Cart_to_i0i1i2[2], Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1);
-
-      // To lie in this section only chare index 0 needs to be same as this chare
-      const int chareidx3_of_pt = charecommstruct->globalidx3pt_to_chareidx3[globalidx3];
-      int chare_index0_pt;
-      int chare_index1_pt;
-      int chare_index2_pt;
-      REVERSE_IDX3GENERAL(chareidx3_of_pt, Nchare0, Nchare1, chare_index0_pt, chare_index1_pt, chare_index2_pt);
-      if (chare_index0_pt == chare_index[0]) {
+      if (IS_IN_GRID_INTERIOR(Cart_to_i0i1i2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, NGHOSTS)) {
         // Set list_of_R_exts_chare
         diagnosticstruct->list_of_R_exts_chare[count_num_of_R_exts_chare] = R_ext;
         count_num_of_R_exts_chare++;
@@ -436,7 +418,10 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
     //  mask=+0, as all mask=+0 points will have at least
     //  NGHOSTS>=NinterpGHOSTS of filled neighbor pts.
     // Is grid interior of global grid, not chare's local grid ...
-    if (IS_IN_GRID_INTERIOR(Cart_to_i0i1i2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, NGHOSTS)) {
+    // ... and skip the chares whose interior does not contain any point of the interpolation stencil.
+    const int locali0_stencil_min = MAP_GLOBAL_TO_LOCAL_IDX0(chare_index[0], closest_i0 - N0 / 2, Nxx0chare);
+    if (IS_IN_GRID_INTERIOR(Cart_to_i0i1i2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, NGHOSTS) &&
+        locali0_stencil_min + N0 >= NGHOSTS && locali0_stencil_min < NGHOSTS + Nxx0chare) {
 
       // Step 2.a.i: Set radial interpolation coefficients for r=R_ext.
       REAL l0i__times__w0i_inv[2 * NinterpGHOSTS + 1];
@@ -472,6 +457,9 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
             //  Here we interpolate to specific radius.
             // Convert to local chare index for accessing diagnostic_output_gfs
             const int locali0 = MAP_GLOBAL_TO_LOCAL_IDX0(chare_index[0], i + closest_i0 - N0 / 2, Nxx0chare);
+            // psi4 is known only in the interior of this chare's grid; the other chares add the rest of the stencil.
+            if (locali0 < NGHOSTS || locali0 >= NGHOSTS + Nxx0chare)
+              continue;
             const int locali1 = i1;
             const int locali2 = i2;
 
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 948097a..966ac88 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1100,14 +1100,14 @@ void Timestepping::contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg, co
   }
 
   CkGetSectionInfo(cookie, msg);
-  CkCallback cb(CkIndex_Timestepping::report_sums_for_psi4_diagnostics(NULL), thisProxy[CkArrayIndex3D(thisIndex.x, 0, 0)]);
+  CkCallback cb(CkIndex_Timestepping::report_sums_for_psi4_diagnostics(NULL), thisProxy[CkArrayIndex3D(0, 0, 0)]);
   CProxySection_Timestepping::contribute(outdoubles, CkReduction::sum_double, cookie, cb);
   delete msg;
 }
 
-// section creation for reduction along section of chares for psi4 integration along theta and phi
+// section creation for reduction over all chares for psi4 interpolation along r and integration along theta and phi
 void Timestepping::create_section() {
-  secProxy = CProxySection_Timestepping::ckNew(thisProxy.ckGetArrayID(), thisIndex.x, thisIndex.x, 1, 0, commondata.Nchare1 - 1, 1, 0,
+  secProxy = CProxySection_Timestepping::ckNew(thisProxy.ckGetArrayID(), 0, commondata.Nchare0 - 1, 1, 0, commondata.Nchare1 - 1, 1, 0,
                                                      commondata.Nchare2 - 1, 1);
 }
 """
@@ -1436,7 +1436,7 @@ def output_timestepping_ci(
         file_output_str += r"""
         if (write_diagnostics_this_step) {
           serial {
-            if(thisIndex.y == 0 && thisIndex.z == 0) {
+            if(thisIndex.x == 0 && thisIndex.y == 0 && thisIndex.z == 0) {
               sectionBcastMsg *msg = new sectionBcastMsg(1);
               secProxy.recvMsg_to_contribute_localsums_for_psi4_decomp(msg);
             }
@@ -1449,7 +1449,7 @@ def output_timestepping_ci(
               contribute_localsums_for_psi4_decomp(msg, which_grid_diagnostics);
             }
           }
-          if (thisIndex.y == 0 && thisIndex.z == 0) {
+          if (thisIndex.x == 0 && thisIndex.y == 0 && thisIndex.z == 0) {
             when report_sums_for_psi4_diagnostics(CkReductionMsg *msg) {
               serial {
                 int reducedArrSize = msg->getSize() / sizeof(double);
-- 
2.43.0


From ec755daddbf05dd38aaa0e571a7ae585a20b97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:38 +0000
Subject: [PATCH 13/17] fix: superB exit no longer depends on what the project
 script calls when it stops

Main::done() only announces that a chare stops; the program ends with
Main::all_done(), once every chare has left its main loop.
---
 nrpy/examples/superB_nrpyelliptic_conformally_flat.py |  3 +++
 nrpy/infrastructures/superB/main_chare.py             | 10 ++++++++--
 nrpy/infrastructures/superB/timestepping_chare.py     |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/nrpy/examples/superB_nrpyelliptic_conformally_flat.py b/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
index c6a5418..cc91469 100644
--- a/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
+++ b/nrpy/examples/superB_nrpyelliptic_conformally_flat.py
@@ -349,6 +349,9 @@ cmdpar.register_CFunction_cmdline_input_and_parfile_parser(
 post_MoL_step_forward_in_time = r"""
 serial {
   check_stop_conditions(&commondata, griddata_chare);
+  if (commondata.stop_relaxation) {
+    mainProxy.done();
+  }
 }
 """
 
diff --git a/nrpy/infrastructures/superB/main_chare.py b/nrpy/infrastructures/superB/main_chare.py
index 8253e8b..6fe0918 100644
--- a/nrpy/infrastructures/superB/main_chare.py
+++ b/nrpy/infrastructures/superB/main_chare.py
@@ -116,6 +116,7 @@ class Main : public CBase_Main {
     file_output_str += r"""
   /// Entry Methods ///
   void done();
+  void all_done();
 };
 
 #endif //__MAIN_H__
@@ -199,7 +200,11 @@ Main::Main(CkMigrateMessage* msg) {
   mainProxy = thisProxy;
 }
 
-void Main::done() {
+// A chare has met its stop condition and is about to leave its main loop: nothing to do until all have.
+void Main::done() {}
+
+// Every chare has left its main loop.
+void Main::all_done() {
   CkPrintf("\nTotal wall clock time = %f s.\n", CkWallTimer() - start_time);
   CkExit();
 }
@@ -247,7 +252,8 @@ def output_main_ci(
 
   mainchare Main {
     entry Main(CkArgMsg* msg);
-    entry [reductiontarget] void done();
+    entry void done();
+    entry [reductiontarget] void all_done();
   };
 
 }
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 966ac88..41f1982 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1682,7 +1682,7 @@ def output_timestepping_ci(
     file_output_str += r"""
       serial{
         // exit once every chare has left the main loop
-        contribute(CkCallback(CkReductionTarget(Main, done), mainProxy));
+        contribute(CkCallback(CkReductionTarget(Main, all_done), mainProxy));
       }
     };
     entry void start_write_1d_y(Ck::IO::SessionReadyMsg *m);
-- 
2.43.0


From 0a44d043a075863e9189cb16c6b342f445a24e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:31 +0000
Subject: [PATCH 14/17] fix: generating CarpetX BSSN thorns does not depend on
 the working directory

rhs_eval compared its expressions with trusted results on every call, looked up
relative to the working directory: generation failed outside the source tree,
and wrote trusted-result files inside it. Validate only when asked to.
---
 .../CarpetX/general_relativity/rhs_eval.py        | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..0a9f584 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -324,19 +324,10 @@ def register_CFunction_rhs_eval(
         betaU[i] = vetU[i] * rfm.ReU[i]
 
     # Perform validation of BSSN_RHSs against trusted version.
-    results_dictionary = ve.process_dictionary_of_expressions(
-        local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
-    )
     if validate_expressions:
-        return results_dictionary
-    ve.compare_or_generate_trusted_results(
-        os.path.abspath(__file__),
-        os.getcwd(),
-        # File basename. If this is set to "trusted_module_test1", then
-        #   trusted results_dict will be stored in tests/trusted_module_test1.py
-        f"{os.path.splitext(os.path.basename(__file__))[0]}_{LapseEvolutionOption}_{ShiftEvolutionOption}_{CoordSystem}_T4munu{enable_T4munu}_KO{enable_KreissOliger_dissipation}_improvements{enable_SSL}",
-        results_dictionary,
-    )
+        return ve.process_dictionary_of_expressions(
+            local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
+        )
 
     body += lp.simple_loop(
         loop_body=ccg.c_codegen(
-- 
2.43.0


From f59a99bdac3c0df56b2c75a4169030edb973ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:36 +0000
Subject: [PATCH 15/17] fix: NewRad boundary conditions run after the
 right-hand side whatever name it is scheduled under

The NewRad routine of ETLegacy thorns was ordered after <thorn>_RHS; a thorn
that schedules its right-hand side under another name (WaveToy: rhs_eval) left
the two unordered, and the outer boundary then used stale or unset RHS values.
Schedule it in MoL_RHSBoundaries, which MoL runs after MoL_CalcRHS.
---
 nrpy/infrastructures/ETLegacy/boundary_conditions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/boundary_conditions.py b/nrpy/infrastructures/ETLegacy/boundary_conditions.py
index 3350f0d..176a7f1 100644
--- a/nrpy/infrastructures/ETLegacy/boundary_conditions.py
+++ b/nrpy/infrastructures/ETLegacy/boundary_conditions.py
@@ -265,14 +265,14 @@ Set up NewRad boundary conditions.
 
     ET_schedule_bins_entries = [
         (
-            "MoL_CalcRHS",
-            f"""
-schedule FUNC_NAME in MoL_CalcRHS after {thorn_name}_RHS
-{{
+            "MoL_RHSBoundaries",
+            """
+schedule FUNC_NAME in MoL_RHSBoundaries
+{
   LANG: C
   READS:  evol_variables(everywhere)
   WRITES: evol_variables_rhs(boundary)
-}} "NewRad boundary conditions, scheduled right after RHS eval."
+} "NewRad boundary conditions, scheduled right after RHS eval."
 """,
         ),
     ]
-- 
2.43.0


From 3bc45373c392bb3572108c1b06c6392de277961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:36 +0000
Subject: [PATCH 16/17] fix: ETLegacy BSSN_to_ADM runs after the determinant
 constraint is enforced

Both were scheduled in MoL_PostStep without an order between them, so the ADM
variables other thorns see could come from the metric before or after
enforcement (and before or after flooring the lapse).
---
 nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py
index d58d7cb..7803dea 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py
@@ -128,7 +128,7 @@ def register_CFunction_BSSN_to_ADM(
     schedule_poststep = (
         "MoL_PostStep",
         f"""
-schedule FUNC_NAME in MoL_PostStep after {thorn_name}_evol_ApplyBCs before ADMBase_SetADMVars
+schedule FUNC_NAME in MoL_PostStep after ({thorn_name}_evol_ApplyBCs {thorn_name}_enforce_detgammahat_constraint) before ADMBase_SetADMVars
 {{
   LANG: C
   READS:  aDD00GF, aDD01GF, aDD02GF, aDD11GF, aDD12GF, aDD22GF,
-- 
2.43.0


From a43fe984e89549a6ab97c1498dfed7bbd96c7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:36 +0000
Subject: [PATCH 17/17] fix: CarpetX BSSN constraints and T4UU are computed
 from the finished step

BSSN_constraints and T4DD_to_T4UU were unordered in ODESolvers_PostStep with
respect to floor_the_lapse, enforce_detgammahat_constraint and the setting of
the stress-energy tensor, so the constraints could mix stale and new data.
---
 .../CarpetX/general_relativity/BSSN_constraints.py              | 2 +-
 nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
index a680ad5..3080ae3 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
@@ -109,7 +109,7 @@ def register_CFunction_BSSN_constraints(
     schedule = f"""
 if(FD_order == {fd_order}) {{
   # Originally in MoL_PseudoEvolution; consider changing when subcycling is added
-  schedule FUNC_NAME in ODESolvers_PostStep as {thorn_name}_BSSN_constraints
+  schedule FUNC_NAME in ODESolvers_PostStep as {thorn_name}_BSSN_constraints after {thorn_name}_enforce_detgammahat_constraint
   {{
     LANG: C
     READS:  aDD00GF, aDD01GF, aDD02GF, aDD11GF, aDD12GF, aDD22GF,
diff --git a/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py b/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
index 7eea11f..658e315 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
@@ -122,7 +122,7 @@ schedule FUNC_NAME in ODESolvers_RHS before {thorn_name}_RHS
 }} "Compute T4UU from T4DD (provided in eT?? from TmunuBaseX), needed for BSSN RHSs"
 """
     schedule2 = f"""
-schedule FUNC_NAME in ODESolvers_PostStep before {thorn_name}_BSSN_constraints
+schedule FUNC_NAME in ODESolvers_PostStep after ({thorn_name}_enforce_detgammahat_constraint TmunuBaseX_SetTmunuVars) before {thorn_name}_BSSN_constraints
 {{
   LANG: C
   READS:  TmunuBaseX::stress_energy_scalar,
-- 
2.43.0

