"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

S = "scripts/fitting_scripts/"
FIT5 = [S + f for f in ("bolshoi_planck_fitting_script.py", "galacticus_diffmah_fitter_script.py",
    "hacc_discovery_sims_diffmah_fitter_script.py", "hacc_lastjourney_diffmah_fitter_script.py",
    "tng_diffmah_fitter_script.py")]
HELP = "diffmah/fitting_helpers/diffmah_fitter_helpers.py"

add("C01", "Every halo is fitted exactly once, in order, by a parallel fit job",
 "A parallel fit job (Bolshoi-Planck, Galacticus, HACC Discovery, HACC Last Journey, TNG) completes in every fault-free execution, and leaves a collated table with exactly one row per input halo, in input order. "
 "Each row is that halo's own result: the eight columns (five best-fit parameters, loss, number of non-trivial points, algorithm code), plus the halo id for Bolshoi-Planck, equal to six significant digits what fitting that halo alone on its catalogue's documented target history gives. "
 "The table depends neither on the number of ranks (including more ranks than halos, and a single halo per rank) nor on the order and speed in which ranks and messages progress.",
 ["schedules", "configurations", "inputs"],
 "all rank counts from 1 up, all interleavings of rank steps, message deliveries, short reads/writes and clock values, all splits of a catalogue of halos (including fitted, skipped, early-peaked, non-monotonic and vanishing-mass histories) over ranks, chunks and subvolumes",
 "No test runs a script or the per-rank loader at all (mpi4py and haccytrees are not installed); what a job does depends on the rank count and on how ranks interleave around the barriers.",
 FIT5 + [HELP, "diffmah/data_loaders/load_hacc_mahs.py", "diffmah/data_loaders/load_bpl_um_data.py", "diffmah/data_loaders/load_galacticus_eps_mahs.py", "diffmah/data_loaders/load_tng_mahs.py"],
 [("per-rank split of the halos", S + "bolshoi_planck_fitting_script.py:np.array_split"), ("one ASCII row per halo", HELP + ":get_outline"), ("barrier, then rank 0 concatenates rank files in rank order", S + "*:comm.Barrier/np.genfromtxt/np.concatenate"), ("column-by-column HDF5 output", HELP + ":write_collated_data")],
 [("temporary rank files", "rows fitted so far by one rank", "outdir/*tmp_mah_fits_rank_<rank>.dat"), ("collated table", "final product", "outdir/diffmah_fits.hdf5, subvol_S_chunk_C.hdf5, diffmah_tng_fits.hdf5")],
 ["collated HDF5 file after all ranks exit 0"])

add("C02", "Parallel fit jobs always terminate on every rank",
 "In any fault-free execution a parallel fit job reaches the end on every rank: no interleaving, message delay or choice between buffered and synchronous sends makes it deadlock, and no rank is left inside a collective operation or with an unreceived message. "
 "This holds for every number of ranks, including more ranks than halos, and every subvolume range asked for is processed. "
 "When an I/O error makes one rank fail, the job ends with a failure instead of being reported as done.",
 ["schedules", "configurations", "fault_sequences"],
 "all rank counts, interleavings, message delays and send modes permitted by MPI, and for the last clause all placements of one failing file operation on one rank",
 "Termination under every schedule and send mode is a liveness statement over schedules; no test runs two ranks.",
 FIT5 + ["diffmah/data_loaders/load_hacc_mahs.py"],
 [("every rank calls the same sequence of collectives", S + "*:comm.Barrier/reduce/allreduce"), ("root sends one block to every other rank, then broadcasts", "diffmah/data_loaders/load_hacc_mahs.py:_scatter_nd, load_mahs_per_rank"), ("subvolume and chunk loops", S + "hacc_lastjourney_diffmah_fitter_script.py")],
 None, ["exit status of every rank", "set of collated files written"])

add("C03", "Rerunning a fit job after a crash gives the undisturbed result",
 "If a parallel fit job is killed at any instant, one or several times, in any rank and in the middle of any file operation, and the machine may also lose recent unsynchronised file contents, then running the same job again in the same directory completes and leaves exactly the tables an undisturbed run leaves. "
 "This holds even when the rerun uses a different number of ranks than the killed run. "
 "No left-over of an earlier attempt ever contributes a row to the result, and after the rerun no temporary rank file of a table it rebuilt remains.",
 ["crash_points", "schedules", "histories", "configurations"],
 "all crash points (before, after and in the middle of each file-system operation of each rank), all interleavings up to the crash, one to three crashes in sequence, process crash and power loss, all pairs of rank counts",
 "A test would have to stop real processes at chosen system calls; none runs the scripts.",
 FIT5 + [HELP],
 [("rank files are opened truncating and only the current ranks' files are collated", S + "*:open(rank_outname, 'w'), range(nranks)"), ("output opened truncating", HELP + ":write_collated_data"), ("cleanup by pattern, not by rank count", S + "*:rm *_rank_*.dat")],
 None, ["outdir contents after the rerun"])

add("C04", "A failed file operation never loses fits or passes off a wrong table",
 "When file operations fail during a parallel fit job (no space, quota, I/O error, too many open files, permission, on open, read, write, truncate, close or delete), the job either ends with every collated table complete and correct or ends with a failure. "
 "In no execution, failing or not, is a rank's temporary fit file deleted before the collated table that replaces it is complete on the file system. "
 "A failure to delete temporary files alone never damages a table.",
 ["fault_sequences", "schedules", "configurations"],
 "all placements of one or more one-shot or persistent errors over the file operations of all ranks, all interleavings and rank counts",
 "The tests never make a file operation fail, and there is no test of the write-collate-delete sequence.",
 FIT5 + [HELP],
 [("delete is the last step, after the table has been written and closed", S + "*:write_collated_data then rm"), ("exceptions propagate and end the job", S + "*")],
 None, ["every unlink as it happens", "rank exit codes", "collated tables"])

add("C05", "A fit job touches only its own files and cleans up after itself",
 "A parallel fit job that completes without file errors leaves in its output directory its collated tables (and for Bolshoi-Planck the target-history file) and no temporary rank file; every file that was there before under another name is unchanged, its inputs are unchanged, and nothing outside the output directory is created, changed or deleted. "
 "Two HACC jobs working at the same time on disjoint subvolumes in one output directory each produce what they produce alone. "
 "This also holds when the output directory's name contains spaces, quotes, or shell wildcard characters.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of one or two jobs, all subvolume numbers (including ones that are string prefixes of each other), pre-existing files and output-directory names",
 "Clean-up is a shell command with a wildcard whose effect depends on what else is in the directory and on the directory's name; no test runs it.",
 FIT5,
 [("temporary and output names carry subvolume and chunk", S + "hacc_*:outbase_chunk"), ("wildcard clean-up", S + "*:rm <outdir>/<base>_*.dat")],
 None, ["directory tree before and after", "every mutating file operation"])

add("C06", "Un-chunking Last Journey fits never loses a fit",
 "Un-chunking writes for each subvolume one file holding, for every column, the rows of all its chunk files concatenated in chunk order, and only after all requested subvolumes are written deletes exactly the chunk files it read. "
 "Whenever it is killed or a file operation fails, every row is still readable from complete chunk files or from a complete collated file, and a run that failed or was killed before it began deleting can be repeated with the right final result. "
 "A run that hits a file error while reading or writing either produces the exact result anyway or ends with a failure having deleted nothing.",
 ["crash_points", "fault_sequences", "configurations", "inputs"],
 "all process-crash points and file-operation failures (single or repeated), all subvolume ranges, chunk sizes including empty ones, any order of reruns",
 "Needs crashes and failing operations between the write and the delete; no test covers the script.",
 [S + "unchunk_last_journey_script.py", "diffmah/data_loaders/io_utils.py"],
 [("delete list is processed after all writes", S + "unchunk_last_journey_script.py:fname_to_delete_list"), ("chunk files read in numeric order", S + "unchunk_last_journey_script.py:range(NCHUNKS)")],
 None, ["directory contents at every file operation and at the end"])

add("C07", "The parallel HACC loader partitions a chunk completely and in order",
 "For every number of ranks, the per-rank loader gives each rank a block of rows such that the blocks, joined in rank order, are exactly the rows of the requested chunk: none lost, duplicated, reordered or changed, with block sizes differing by at most one. "
 "The histories are cumulative peak masses converted from Msun/h to Msun for the named simulation, with the requested mass column, and every rank receives the same array of cosmic times of that simulation's outputs. "
 "This holds for any message timing, for successive calls for different chunks, when only the root rank can read the file, and when called on a communicator passed by the caller.",
 ["schedules", "configurations", "inputs", "histories"],
 "all rank counts (more ranks than rows included), interleavings, send modes, chunk sequences, communicators, simulations and mass columns",
 "The tests call the loader with one process at most; scattering needs several communicating ranks.",
 ["diffmah/data_loaders/load_hacc_mahs.py"],
 [("split on root and send blocks in rank order", "diffmah/data_loaders/load_hacc_mahs.py:_scatter_nd"), ("accumulate, unit conversion and time grid", "diffmah/data_loaders/load_hacc_mahs.py:load_mahs"), ("broadcast of the time grid", "diffmah/data_loaders/load_hacc_mahs.py:load_mahs_per_rank")],
 None, ["return values on each rank"])

add("C08", "Readers and writers of parameter and catalogue files are exact or fail",
 "Reading back a parameter file or flat table gives exactly what was written: same field names in the same order, same values, types and shapes, and for a row range or column subset exactly that part; a reader of a simulation catalogue (Galacticus, TNG, published MAH tables, Bolshoi-Planck) returns exactly the stored rows under its documented transformation. "
 "Under short or interrupted reads and writes nothing changes; when an operation fails, or the parameter file was cut off by a crash of its writer, the call raises instead of returning different values. "
 "A failed read has no lasting effect: a later read of an intact file in the same process is exact.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "all placements of short, interrupted and failing reads and writes, crashes of the writer at every file operation, sequences of reads and writes of several files in one process",
 "The tests do one clean round trip through a temporary file and never fail, shorten or tear an operation.",
 ["diffmah/data_loaders/io_utils.py", "diffmah/data_loaders/load_galacticus_eps_mahs.py", "diffmah/data_loaders/load_tng_mahs.py", "diffmah/data_loaders/load_diffmah_pub_data.py", "diffmah/data_loaders/load_bpl_um_data.py"],
 [("field order stored as an attribute after the values", "diffmah/data_loaders/io_utils.py:write_namedtuple_to_hdf5"), ("slices read straight from the file", "diffmah/data_loaders/io_utils.py:load_flat_hdf5")],
 None, ["return values and exceptions of the readers"])

add("C09", "Fitters survive a misbehaving objective and report honestly",
 "Whatever finite, non-finite or failing values the objective produces, and whether or not the primary optimizer succeeds, a fit ends within a bounded number of evaluations and returns a result, or passes on the objective's own exception. "
 "The reported loss is the objective's value at the reported parameters; from the primary optimizer it is that optimizer's own result, from the fallback it is the lowest seen on its reported stage (or the sentinel 999.99 when the very first evaluation of the fallback's final stage is unusable), the algorithm code is 0 exactly if the primary optimizer reported success with a finite positive loss at finite parameters and 1 if the fallback was used, and the termination flag is false exactly when the fallback was cut short by a non-finite value. "
 "A halo with too little usable history (fewer than three points below the peak above the documented mass and time cuts), or told to be skipped, is never optimized and gets the no-fit markers (-99 parameters and loss, code -1); any other halo is fitted to exactly the points above those cuts, and its parameters stay within the model's bounds with the imposed peak time.",
 ["fault_sequences", "inputs", "histories"],
 "all sequences of objective answers (finite, NaN, infinite, exceptions) at any evaluation of either optimizer, optimizer outcomes, and halo histories",
 "Tests run well-behaved fits; the fallback path after arbitrary failures at arbitrary evaluations is a fault-sequence property.",
 ["diffmah/fitting_helpers/bfgs_wrapper.py", "diffmah/fitting_helpers/fit_utils.py", HELP, "diffmah/diffmahpop_kernels/t_peak_kernels/utp_pdf_kernels.py"],
 [("acceptance test of the primary optimizer, fallback otherwise", "diffmah/fitting_helpers/bfgs_wrapper.py:bfgs_adam_fallback"), ("stop at the first non-finite value, return the best so far", "diffmah/fitting_helpers/fit_utils.py:_jax_adam_wrapper"), ("skip rule", HELP + ":get_loss_data, diffmah_fitter")],
 None, ["return values", "recorded objective evaluations"])

add("C10", "Results do not depend on other calls, threads or cancelled calls",
 "Every public entry point (the MAH kernels, the halo fitter and its table-row formatting, the population and Monte Carlo generators, the target-measurement helpers and the file readers) gives the same result bit for bit whether called alone, after any history of other calls, interleaved with calls on other threads, or after another call was interrupted by an exception or cancellation at any point. "
 "Calls leave their input arrays, the default parameter sets and the global random state unchanged. "
 "Monte Carlo output depends only on the key and arguments given.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of two or more calls at source-line granularity, all histories of earlier calls including interrupted ones at any line",
 "Tests call functions once, sequentially; interleavings and interruptions at arbitrary points are not sampled.",
 ["diffmah/diffmah_kernels.py", HELP, "diffmah/fitting_helpers/bfgs_wrapper.py", "diffmah/fitting_helpers/fit_utils.py", "diffmah/fitting_helpers/measure_mahs.py", "diffmah/diffmahpop_kernels/mc_bimod_cens.py", "diffmah/diffmahpop_kernels/mc_bimod_sats.py", "diffmah/utils.py", "diffmah/data_loaders/io_utils.py"],
 [("no module-level mutable state; explicit PRNG keys", "diffmah/**")],
 [("default parameter namedtuples", "must never change", "diffmah/defaults.py, diffmah/diffmah_kernels.py")], ["return values", "inputs and defaults before and after"])

add("C11", "Population targets are faithful subsamples whatever the random draws",
 "Loading the halo-population targets from a directory returns, for exactly the bins that pass the cuts (mass below the maximum, time above the minimum, at least the requested number of samples) and in file order, the stored mean and variance data plus the requested number of distinct rows drawn from that bin's own sample file in that same directory. "
 "For every outcome of the random draw the five parameters attached to a sample are those of one stored halo, and the attached histories are the model's histories of those parameters, the rescaled ones equal to the bin's mass at the last time. "
 "A missing, truncated or unreadable file makes loading fail rather than return partial or mixed data.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all random draws, all placements of short, interrupted and failing reads, all bin tables, cuts and sample sizes",
 "There is no test of this loader; its outcome depends on the global random source and on several files.",
 ["diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py"],
 [("same index array used for all five columns", "diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py:_attach_samples"), ("cuts", "diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py:_attach_samples")],
 None, ["returned tables"])

add("C12", "SMDPL tabulation collates exactly its own subvolumes' samples",
 "Tabulating population samples over a range of subvolumes leaves, for each observation time and mass bin, one file for centrals and one for satellites holding, in subvolume order and to four decimals, the parameters of the first halos (up to the per-subvolume maximum) of each subvolume that fall in the bin at that time, bad fits excluded, and no file for an empty bin. "
 "The outcome does not depend on the order in which the directory lists files, on left-overs of earlier attempts on the same inputs, or on such an attempt having been killed at any point; a rerun gives the undisturbed result. "
 "Runs over disjoint ranges sharing one output directory, at the same time or one after another, each leave what they leave alone, and when file operations fail no tabulated sample is deleted before the collated file that holds it is complete.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all directory orders, crash points, failing operations, interleavings of two runs on disjoint ranges, left-over files, bin grids and halo samples",
 "No test covers the tabulation; it depends on directory order and on what other runs left or are writing.",
 ["scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py", "scripts/diffmahpop_tabulation/measure_smdpl_diffmahpop.py"],
 [("per-subvolume text files, then per-bin concatenation", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:smdpl_diffmahpop_subvolume_loop, collate_subvolume_samples"), ("bin selection", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:get_target_mah_params")],
 None, ["collated .npy files and directory contents"])

add("C13", "Target tables are computed from each bin's own samples",
 "Tabulating mean and variance targets from a directory of collated samples gives one row for exactly the bins, centrals and satellites apart, whose file holds more than the minimum number of halos: the bin's mass and time, the time grid ending at that time, and the mean, scatter and peaked fraction over time of the histories of just that file's halos, rescaled to the bin's mass if asked. "
 "The set of rows and their values do not depend on the order in which the directory is listed, on the directory's name, on other files in it or on earlier calls. "
 "A truncated or unreadable sample file, or a failing write, makes the call fail; tables written to disk load back as exactly that, and tables left by an interrupted write are rejected or complete, never wrong values.",
 ["schedules", "fault_sequences", "crash_points", "inputs", "histories"],
 "all listing orders, directory names, extra files, sample files, failing operations and crash points of the writer, histories of tabulating, writing and loading",
 "No test covers the tabulation of targets; its outcome depends on directory listing order, file names and several files.",
 ["scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py", "diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py"],
 [("bin taken from the file's own name", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:tabulate_target_means_vars"), ("one dataset per column", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:write_mean_variance_to_disk")],
 None, ["returned tables", "mean_var_*.h5 files"])

# ---- pure properties: stated, not claimed (no schedule, clock, fault or history in them)
K = "diffmah/diffmah_kernels.py"
def pure(id, title, st, files, mech, why="Unit tests sample a handful of parameter values; the statement quantifies over all of them."):
    add(id, title, st, ["inputs"], "all parameter values within bounds and all time grids", why, files, mech)
pure("N01", "Mass accretion histories are monotonic and flat after peak time",
 "For all parameters, halo mass never decreases with time, is constant after the peak time, and the accretion rate is non-negative and zero after it.", [K], [("clip at t_peak", K + ":_log_mah_kern")])
pure("N02", "Histories are normalised to the z=0 mass",
 "For all parameters the history evaluated at the present age equals the mass parameter.", [K], [("power-law normalised at t0", K + ":_log_mah_kern")])
pure("N03", "The accretion rate is the time derivative of the mass",
 "For all parameters the returned accretion rate equals the derivative of the returned mass in Msun/yr.", [K], [("autodiff of the kernel", K + ":_mah_kern")])
pure("N04", "Bounded and unbounded parameters are inverse maps within bounds",
 "For all parameters within bounds, unbounding and then bounding returns them, and bounding any real numbers gives parameters within bounds.", [K, "diffmah/diffmahpop_kernels/bimod_censat_params.py"], [("sigmoid and inverse", "diffmah/utils.py:_sigmoid, _inverse_sigmoid")])
pure("N05", "Fits recover noiseless model histories",
 "Fitting a history generated by the model recovers it to within the model's documented precision.", [HELP], [("L-BFGS-B on the MSE loss", HELP + ":diffmah_fitter")])
pure("N06", "Population model outputs stay in their physical range",
 "For all population parameters, fractions lie in [0,1], scatters are positive, covariance matrices are positive definite and generated parameters lie within model bounds.", ["diffmah/diffmahpop_kernels"], [("sigmoid-bounded sub-models", "diffmah/diffmahpop_kernels/bimod_*")])
pure("N07", "Predictions are differentiable with finite gradients",
 "Gradients of kernels and population summary statistics with respect to all parameters are finite for all parameters within bounds.", [K, "diffmah/diffmahpop_kernels"], [("smooth functions only", K)])
pure("N08", "The peak-time distribution is a proper distribution",
 "For all parameters the peak-time density is non-negative, integrates to one on its support, and generated peak times lie in the support.", ["diffmah/diffmahpop_kernels/t_peak_kernels"], [("inverse-transform sampling", "diffmah/diffmahpop_kernels/t_peak_kernels/utp_pdf_kernels.py")])
pure("N09", "Fit targets are selected by the documented cuts",
 "The points used in a fit are exactly those above the mass cuts and after the time cut, accumulated to be non-decreasing.", [HELP], [("mask", HELP + ":_get_target_data")])
pure("N10", "Numerical helpers match their definitions",
 "Time steps, trimmed means, Cholesky and covariance helpers equal their mathematical definitions for all inputs.", ["diffmah/utils.py"], [("helpers", "diffmah/utils.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
assert all(len(p["title"]) <= 80 for p in P)
print(len(P))
