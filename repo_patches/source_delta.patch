From 49b2282e0487999f80502c8903111797cf07c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 01/17] fix: HACC Discovery script imported a module without
 HEADER/get_outline

Every rank failed with AttributeError on the first table header.
---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..c0db73d 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From eac1df9cc14846e9c8adfaa63ee9c651083eacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 02/17] fix: collate ranks that fitted no halo or a single halo

np.genfromtxt returns an empty or 1-d array for them, so the concatenation
failed after all fits were done.
---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py        | 2 ++
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py     | 1 +
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 1 +
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py   | 1 +
 scripts/fitting_scripts/tng_diffmah_fitter_script.py            | 1 +
 5 files changed, 6 insertions(+)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..8617edc 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -115,6 +115,8 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            n_cols = len(cfh.HEADER_HALO_ID[1:].split())
+            fit_data = fit_data.reshape((-1, n_cols))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..8d3ad38 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -120,6 +120,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c0db73d..12c3cc7 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -132,6 +132,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..8827ba8 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -130,6 +130,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..8aaed95 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -96,6 +96,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 1f6b15fc0ea28f85d4ad196ac70c09a2a0a5c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 03/17] fix: Galacticus script failed when there are more ranks
 than halos

Ranks without halos raised IndexError before the first collective operation.
---
 .../fitting_scripts/galacticus_diffmah_fitter_script.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 8d3ad38..019ee67 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,9 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    # a rank without halos reads the empty slice [nhalos_tot:nhalos_tot]
+    istart = indx_for_rank[0] if len(indx_for_rank) > 0 else nhalos_tot
+    iend = istart + len(indx_for_rank)
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +74,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = max((t[-1] for t in times_for_rank), default=-np.inf)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
-- 
2.43.0


From d2d23e726d5d8615162f2929e57f3efd0ceb3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 04/17] fix: Last Journey script skipped the last subvolume by
 default

-iend is the end of a slice, so its default of -1 left out the last subvolume.
---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 8827ba8..53b4ee0 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend",
+        help="Last subvolume in loop",
+        type=int,
+        default=NUM_SUBVOLS_LASTJOURNEY,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 8a704f6f6a324271116e34eff65b786fb40f4130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 05/17] fix: quote directory names in the shell commands that
 delete temporary files

With a space or a shell metacharacter in the output directory, rm left the
temporary files behind or deleted other files.
---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py       | 3 ++-
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py    | 3 ++-
 .../hacc_discovery_sims_diffmah_fitter_script.py               | 3 ++-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py  | 3 ++-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py           | 3 ++-
 scripts/fitting_scripts/unchunk_last_journey_script.py         | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 8617edc..65130bf 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -4,6 +4,7 @@ Input MAH data for BPl is stored in the umachine_pyio format.
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -128,6 +129,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 019ee67..a48bf69 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -133,6 +134,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 12c3cc7..84d75c9 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from glob import glob
 from time import time
@@ -145,6 +146,6 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
+                fnpat = os.path.join(shlex.quote(outdir), bnpat)
                 command = "rm " + fnpat
                 subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 53b4ee0..09966ec 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -148,7 +149,7 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
+                fnpat = os.path.join(shlex.quote(outdir), bnpat)
                 command = "rm " + fnpat
                 subprocess.os.system(command)
             comm.Barrier()
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 8aaed95..0fe0bab 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from glob import glob
 from time import time
@@ -109,6 +110,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/unchunk_last_journey_script.py b/scripts/fitting_scripts/unchunk_last_journey_script.py
index 974b726..089fc4b 100644
--- a/scripts/fitting_scripts/unchunk_last_journey_script.py
+++ b/scripts/fitting_scripts/unchunk_last_journey_script.py
@@ -3,6 +3,7 @@
 import argparse
 import gc
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -98,5 +99,5 @@ if __name__ == "__main__":
 
     print("...deleting chunked files\n")
     for fname in fname_to_delete_list:
-        command = f"rm {fname}"
+        command = f"rm {shlex.quote(fname)}"
         raw_result = subprocess.check_output(command, shell=True)
-- 
2.43.0


From a0341ba2ee30fccc11c4e0e2082b3d2da341b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 06/17] fix: load_diffmahpop_targets counted the samples of
 another directory

The drn argument was ignored in favour of a hard-coded path.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..36bcebd 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
-- 
2.43.0


From 38ed5595b52a2a6ddc12400090ae7d434e2e8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 07/17] fix: load_diffmahpop_targets called mah_halopop with
 its old signature

t_peak is one of the five MAH parameters, so every call raised TypeError.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 36bcebd..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From 9fb233df04cc0a4ed766d10e93ce0240a4fb9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 08/17] fix: SMDPL tabulation called mah_halopop with its old
 signature

t_peak is one of the five MAH parameters, so every call raised TypeError.
---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..603408a 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From 2acb2691b46acbaa87588534bfa48d38ffd36a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 09/17] fix: SMDPL collation mixed in and deleted samples of
 other subvolume ranges

The collation globbed and deleted subvol_* whatever range was asked for, in the
arbitrary order of the directory, and could not be repeated because the output
directory existed.
---
 .../smdpl_diffmahpop_utils.py                 | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 603408a..54681ce 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -6,7 +6,6 @@ of diffmah fits to SMDPL and stores halo samples binned by (lgm_obs, t_obs).
 NH_CUT = 100
 
 import os
-import subprocess
 from glob import glob
 
 import h5py
@@ -62,6 +61,16 @@ def _get_subvol_bnpat(subvol, lgm_obs, t_obs, censat):
     return bnpat
 
 
+def _get_subvol_fnames(drn, istart, iend, lgm_obs, t_obs, censat):
+    """Existing files of subvolumes istart to iend-1 for a single bin, in order"""
+    bnames = [
+        _get_subvol_bnpat(subvol, lgm_obs, t_obs, censat)
+        for subvol in range(istart, iend)
+    ]
+    fnames = [os.path.join(drn, bn) for bn in bnames]
+    return [fn for fn in fnames if os.path.isfile(fn)]
+
+
 def _get_output_drn(drn, n_lgm, n_t, istart, iend):
     drnpat = f"NM_{n_lgm}_NT_{n_t}_ISTART_{istart}_IEND_{iend}"
     return os.path.join(drn, drnpat)
@@ -218,16 +227,18 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
     t_obs_arr = get_t_obs_table(t0, n_t)
 
     drnout = _get_output_drn(drn, n_m, n_t, istart, iend)
-    os.makedirs(drnout)
+    os.makedirs(drnout, exist_ok=True)
 
+    fnames_to_delete = []
     for t_obs in t_obs_arr:
         lgm_obs_arr = lgmarr_table_from_t_obs_kern(t_obs, n_m=n_m)
 
         for lgm_obs in lgm_obs_arr:
 
             # centrals
-            bnpat_cens = _get_subvol_bnpat("*", lgm_obs, t_obs, "cens")
-            fnlist_cens = glob(os.path.join(drn, bnpat_cens))
+            fnlist_cens = _get_subvol_fnames(
+                drn, istart, iend, lgm_obs, t_obs, "cens"
+            )
             bnlist_cens = [os.path.basename(fn) for fn in fnlist_cens]
 
             cendata_collector = []
@@ -242,10 +253,12 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 bnout = bnout.replace(".txt", "")
                 fnout = os.path.join(drnout, bnout)
                 np.save(fnout, cendata)
+                fnames_to_delete.extend(fnlist_cens)
 
             # satellites
-            bnpat_sats = _get_subvol_bnpat("*", lgm_obs, t_obs, "sats")
-            fnlist_sats = glob(os.path.join(drn, bnpat_sats))
+            fnlist_sats = _get_subvol_fnames(
+                drn, istart, iend, lgm_obs, t_obs, "sats"
+            )
             bnlist_sats = [os.path.basename(fn) for fn in fnlist_sats]
 
             satdata_collector = []
@@ -260,13 +273,10 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 bnout = bnout.replace(".txt", "")
                 fnout = os.path.join(drnout, bnout)
                 np.save(fnout, satdata)
+                fnames_to_delete.extend(fnlist_sats)
 
-    for subvol in range(10):
-        fname_pat = os.path.join(drn, f"subvol_{subvol}*")
-        fname_list = glob(fname_pat)
-        if len(fname_list) > 0:
-            command = "rm " + fname_pat
-            subprocess.check_output(command, shell=True)
+    for fn in fnames_to_delete:
+        os.remove(fn)
 
 
 def tabulate_target_means_vars(
-- 
2.43.0


From 8c31a2ecd00dc95be77e1bd18d2a3a50607ee869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 10/17] fix: Adam fit that converges early was reported as not
 terminating

fit_terminates is documented as 0 only if NaN or inf cut the fit short, but it
was also 0 when the loss reached tol or the warmup already found it.
---
 diffmah/fitting_helpers/fit_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..b6c7c51 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -98,7 +98,9 @@ def jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
+    n_step_fit = n_step if loss_init > tol else warmup_n_step
+    converged_early = fit_results[1] < tol
+    if len(fit_results[2]) < n_step_fit and not converged_early:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 6c0a6cd69d3f0cb621baa4bf3aae0a790b92a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 11/17] fix: raise i/o errors met when writing an hdf5 dataset

h5py drops an error that is only met when a dataset is closed, so that with
a full disk the fitting scripts reported success with a wrong table after
deleting the temporary files. Flush each dataset, which raises the error.
---
 diffmah/data_loaders/io_utils.py              |  3 +-
 .../fitting_helpers/diffmah_fitter_helpers.py | 37 ++++++++++---------
 .../smdpl_diffmahpop_utils.py                 |  4 +-
 .../bolshoi_planck_fitting_script.py          |  6 +--
 .../unchunk_last_journey_script.py            |  3 +-
 5 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..e59ee27 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -72,7 +72,8 @@ def write_namedtuple_to_hdf5(named_params, fn_out):
     """Write an hdf5 file to a namedtuple"""
     with h5py.File(fn_out, "w") as hdf:
         for pname, pval in zip(named_params._fields, named_params):
-            hdf[pname] = pval
+            # flush, because an i/o error met when closing the dataset is not raised
+            hdf.create_dataset(pname, data=pval).flush()
         hdf.attrs["_fields"] = np.array(named_params._fields, dtype="S")
 
 
diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..19e6c0d 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -172,6 +172,9 @@ def _check_for_logmah_vs_mah_mistake(mah_sim):
 def write_collated_data(outname, fit_data_strings):
     import h5py
 
+    # An i/o error that is only met when a dataset is closed is not raised by h5py,
+    # and so each dataset is explicitly flushed
+
     if fit_data_strings.shape[1] == 8:
         logm0 = fit_data_strings[:, 0].astype(float)
         logtc = fit_data_strings[:, 1].astype(float)
@@ -183,14 +186,14 @@ def write_collated_data(outname, fit_data_strings):
         fit_algo = fit_data_strings[:, 7].astype(int)
 
         with h5py.File(outname, "w") as hdf:
-            hdf["logm0"] = logm0
-            hdf["logtc"] = logtc
-            hdf["early_index"] = early_index
-            hdf["late_index"] = late_index
-            hdf["t_peak"] = t_peak
-            hdf["loss"] = loss
-            hdf["n_points_per_fit"] = n_points_per_fit
-            hdf["fit_algo"] = fit_algo
+            hdf.create_dataset("logm0", data=logm0).flush()
+            hdf.create_dataset("logtc", data=logtc).flush()
+            hdf.create_dataset("early_index", data=early_index).flush()
+            hdf.create_dataset("late_index", data=late_index).flush()
+            hdf.create_dataset("t_peak", data=t_peak).flush()
+            hdf.create_dataset("loss", data=loss).flush()
+            hdf.create_dataset("n_points_per_fit", data=n_points_per_fit).flush()
+            hdf.create_dataset("fit_algo", data=fit_algo).flush()
 
     elif fit_data_strings.shape[1] == 9:
         halo_id = fit_data_strings[:, 0].astype(int)
@@ -204,15 +207,15 @@ def write_collated_data(outname, fit_data_strings):
         fit_algo = fit_data_strings[:, 8].astype(int)
 
         with h5py.File(outname, "w") as hdf:
-            hdf["halo_id"] = halo_id
-            hdf["logm0"] = logm0
-            hdf["logtc"] = logtc
-            hdf["early_index"] = early_index
-            hdf["late_index"] = late_index
-            hdf["t_peak"] = t_peak
-            hdf["loss"] = loss
-            hdf["n_points_per_fit"] = n_points_per_fit
-            hdf["fit_algo"] = fit_algo
+            hdf.create_dataset("halo_id", data=halo_id).flush()
+            hdf.create_dataset("logm0", data=logm0).flush()
+            hdf.create_dataset("logtc", data=logtc).flush()
+            hdf.create_dataset("early_index", data=early_index).flush()
+            hdf.create_dataset("late_index", data=late_index).flush()
+            hdf.create_dataset("t_peak", data=t_peak).flush()
+            hdf.create_dataset("loss", data=loss).flush()
+            hdf.create_dataset("n_points_per_fit", data=n_points_per_fit).flush()
+            hdf.create_dataset("fit_algo", data=fit_algo).flush()
 
 
 @jjit
diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 54681ce..66ec7dc 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -366,8 +366,8 @@ def write_mean_variance_to_disk(mah_params_drn, fnout_cens, fnout_sats):
 
     with h5py.File(fnout_cens, "w") as hdfout:
         for key in cen_targets.keys():
-            hdfout[key] = cen_targets[key]
+            hdfout.create_dataset(key, data=cen_targets[key]).flush()
 
     with h5py.File(fnout_sats, "w") as hdfout:
         for key in sat_targets.keys():
-            hdfout[key] = sat_targets[key]
+            hdfout.create_dataset(key, data=sat_targets[key]).flush()
diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 65130bf..c376829 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -60,9 +60,9 @@ if __name__ == "__main__":
     # Write target MAHs to disk
     if rank == 0:
         with h5py.File(os.path.join(outdir, BN_TARGET_OUT), "w") as hdf_out:
-            hdf_out["halo_id"] = halo_ids
-            hdf_out["mpeak_history"] = mahs
-            hdf_out["bpl_t_table"] = bpl_t_table
+            hdf_out.create_dataset("halo_id", data=halo_ids).flush()
+            hdf_out.create_dataset("mpeak_history", data=mahs).flush()
+            hdf_out.create_dataset("bpl_t_table", data=bpl_t_table).flush()
 
     # Get data for rank
     if args.test:
diff --git a/scripts/fitting_scripts/unchunk_last_journey_script.py b/scripts/fitting_scripts/unchunk_last_journey_script.py
index 089fc4b..87b96c5 100644
--- a/scripts/fitting_scripts/unchunk_last_journey_script.py
+++ b/scripts/fitting_scripts/unchunk_last_journey_script.py
@@ -82,7 +82,8 @@ if __name__ == "__main__":
         fname_out = os.path.join(outdir, bname_out)
         with h5py.File(fname_out, "w") as hdfout:
             for key in colnames:
-                hdfout[key] = data_out[key]
+                # flush, because an i/o error met when closing is not raised
+                hdfout.create_dataset(key, data=data_out[key]).flush()
 
         del subvol_collector
         del data_out
-- 
2.43.0


From b733b425974049fccf3084fbd38d11d2dd847afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 12/17] fix: load_flat_hdf5 lost columns of a nested dataset

With dataset='a/b' every column was returned under the name 'b', so that all
but the last were lost.
---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index e59ee27..cefa3c3 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 255fcdc4908b03e00e34e6c18f31e081f3cf2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 13/17] fix: global c0/c1 fits failed because the optimizers
 pass a bare array

---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..343b3ee 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..2e4ec08 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..db0ddce 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..33af708 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..ba673a7 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..8f1e9a0 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..cdfad89 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..8f11347 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
-- 
2.43.0


From e77972cf9164e2064f0a71cc356dafbd4495a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 14/17] fix: history below lgm_min was used in the fit
 depending on roundoff

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 19e6c0d..e05cd3b 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -19,6 +19,7 @@ T_FIT_MIN = 1.0
 NPTS_FIT_MIN = 3  # Number of non-trivial points in the MAH, excluding MAH(z=0)
 NOFIT_FILL = -99.0
 EPSILON = 1e-7
+LG_EPSILON = -7.0
 
 HEADER = "# logm0 logtc early_index late_index t_peak loss n_points_per_fit fit_algo\n"  # noqa : E501
 FIT_COLNAMES = HEADER[1:].strip().split()
@@ -244,6 +245,8 @@ def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
     clip = EPSILON + 10**lgm_min
     clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    # Roundoff in log10(10**lgm_min) must not lift clipped points above lgm_min
+    clipped_log_mah = np.where(msk, max(lgm_min, LG_EPSILON), clipped_log_mah)
     return clipped_log_mah
 
 
-- 
2.43.0


From 36c09ce007cd0ca2c9f2bce123b96c8a705f91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 15/17] fix: non-finite BFGS parameters were reported as a
 successful fit

---
 diffmah/fitting_helpers/bfgs_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffmah/fitting_helpers/bfgs_wrapper.py b/diffmah/fitting_helpers/bfgs_wrapper.py
index 2ad7a6c..ad956a8 100644
--- a/diffmah/fitting_helpers/bfgs_wrapper.py
+++ b/diffmah/fitting_helpers/bfgs_wrapper.py
@@ -79,6 +79,7 @@ def bfgs_adam_fallback(val_and_grads, u_p_init, loss_data, nstep=200, n_warmup=1
     fit_terminates = _res[-1]
     loss_bfgs = _res[1]
     bfgs_succeeds = fit_terminates & (np.isfinite(loss_bfgs)) & (loss_bfgs > 0)
+    bfgs_succeeds = bfgs_succeeds & np.all(np.isfinite(_res[0]))
     if bfgs_succeeds:
         code_used = 0  # BFGS
         _res.append(code_used)
-- 
2.43.0


From 17eda95d7dae3fc053cc89e031d9c0b0b9270534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 16/17] fix: tabulation found no or foreign files in a
 directory named with wildcards

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 66ec7dc..70c410d 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -6,7 +6,7 @@ of diffmah fits to SMDPL and stores halo samples binned by (lgm_obs, t_obs).
 NH_CUT = 100
 
 import os
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -285,10 +285,10 @@ def tabulate_target_means_vars(
     """"""
     lgt0 = np.log10(T0_SMDPL)
 
-    cens_fname_list = glob(os.path.join(mah_params_drn, "*cens.npy"))
+    cens_fname_list = glob(os.path.join(escape(mah_params_drn), "*cens.npy"))
     cens_bname_list = [os.path.basename(fn) for fn in cens_fname_list]
 
-    sats_fname_list = glob(os.path.join(mah_params_drn, "*sats.npy"))
+    sats_fname_list = glob(os.path.join(escape(mah_params_drn), "*sats.npy"))
     sats_bname_list = [os.path.basename(fn) for fn in sats_fname_list]
 
     cens_lgm_obs_arr = np.array([float(bn.split("_")[1]) for bn in cens_bname_list])
-- 
2.43.0


From 7c56ed6a4d8fe0c03d9ee4dee257e79c13fa3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 17/17] fix: HACC Discovery script found no input in a
 directory named with brackets

---
 .../hacc_discovery_sims_diffmah_fitter_script.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 84d75c9..4eaae8d 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -4,7 +4,7 @@ import argparse
 import os
 import shlex
 import subprocess
-from glob import glob
+from glob import escape, glob
 from time import time
 
 import numpy as np
@@ -73,7 +73,7 @@ if __name__ == "__main__":
 
     start = time()
 
-    all_avail_subvol_fnames = glob(os.path.join(indir, "m000p.coreforest.*.hdf5"))
+    all_avail_subvol_fnames = glob(os.path.join(escape(indir), "m000p.coreforest.*.hdf5"))
     all_avail_subvol_bnames = [os.path.basename(fn) for fn in all_avail_subvol_fnames]
     all_avail_subvolumes = [int(s.split(".")[2]) for s in all_avail_subvol_bnames]
     all_avail_subvolumes = np.array(sorted(all_avail_subvolumes))
-- 
2.43.0

