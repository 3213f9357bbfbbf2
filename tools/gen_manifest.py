"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
DONE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"]
TECH = "deterministic simulation with fault injection: "
T = {
    "C01": ("seeded search over rank counts, schedules and workloads of whole MPI fit jobs; table compared with serial per-halo reference",
            "Samples schedules and workloads; mpi4py and haccytrees are simulated, the scripts, numpy, h5py, shell and files are real."),
    "C02": ("seeded schedules, send modes and single file-operation errors over whole MPI jobs; deadlock, mismatch, loss and progress checks",
            "Liveness is bounded: no progress within the step budget, or no runnable process, is a failure. The launcher is modelled as one that kills the job when a rank dies."),
    "C03": ("seeded crash, rank-kill and power-loss points in one or more attempts, then an undisturbed rerun compared with the reference table",
            "Power loss is modelled as: files unsynced at the crash may be lost, torn, zero-filled, resurrected or kept."),
    "C04": ("seeded failing, partial and persistent file-operation errors and crashes; invariant checked at every deletion and over the exit status",
            "Errors are injected at libc calls made on files below the job's directory."),
    "C05": ("seeded schedules of one or two jobs, foreign files and directory names; whole directory tree compared before and after",
            "Destructive calls outside the scratch directory are denied and recorded, never executed."),
    "C06": ("seeded kill points and file-operation errors over sequences of un-chunking attempts; row-survival invariant at every operation",
            "Process-crash model (page cache survives), no power loss."),
    "C07": ("seeded schedules, send modes, chunk sequences and sub-communicators over simulated ranks calling the loader",
            "mpi4py and haccytrees are simulated stand-ins; the loader, jax and h5py are real."),
    "C08": ("seeded short, interrupted and failing file operations and writer crashes around the readers and writers",
            "Real h5py/HDF5 and numpy above the file seam."),
    "C09": ("seeded fault sequences in the objective and optimizer seams of the fitters, checked against a reference over the recorded evaluation history",
            "The objective and the primary optimizer are stand-ins behind the fitters' own callable parameters; fitters, jax, its optimizers and (unless an outcome is imposed) scipy's L-BFGS-B are real."),
    "C10": ("seeded interleaving of caller threads at source-line granularity and cancellation at seeded lines; results compared bit for bit with solo calls",
            "Only lines of diffmah's own code are scheduling points; library internals run atomically."),
    "C11": ("seeded random-draw seam and read faults around the target loader, checked against the stored files",
            "The model's histories are compared with the model itself evaluated in this process."),
    "C12": ("seeded directory orders, crash points, errors and interleavings of tabulation runs, compared with an independent tabulation",
            "umachine_pyio is real; haccytrees and mpi4py are simulated stand-ins."),
    "C13": ("seeded listing orders, directory names, operation errors and writer crashes over histories of tabulating, writing and loading, compared with an independent model",
            "Expected histories come from a numpy model written for this check."),
}
NA = "No schedule, clock, fault, interleaving or history in it: a pure function of its input, so simulation has nothing to decide (input generation or proof would be the right tool)."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=TECH + T[i][0], level="exploration",
                           level_note="Seeded sampling, not enumeration: a clean batch is evidence, not proof. " + T[i][1]))
    elif i.startswith("N"):
        na.append(dict(property=i, reason=NA))
    else:
        na.append(dict(property=i, reason="Addressable by this technique; its check is still being built."))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: all seams lie below (libc file calls), beside (mpi4py, haccytrees stand-ins, clock) or at parameters of the code under test.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
