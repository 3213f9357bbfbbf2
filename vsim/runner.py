"""Runs the tasks of a check on forked workers, minimises and records failures."""
import copy
import importlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import engine, setup

WALL = {"quick": 90.0, "thorough": 3000.0}
MIN_WALL = {"quick": 60.0, "thorough": 150.0}


def module_of(prop):
    return importlib.import_module("vsim." + {"C01": "jobs", "C02": "jobs", "C03": "jobs", "C04": "jobs", "C05": "jobs", "C06": "unchunk", "C07": "loader",
                                               "C08": "readers", "C09": "fitter", "C10": "purity", "C11": "targets", "C12": "smdpl", "C13": "targets"}[prop])


def relevant(mod, prop, bad):
    ks = mod.KINDS[prop]
    return [b for b in bad if b[0] in ks]


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Reader:
    def __init__(self, fd):
        self.fd, self.buf, self.eof = fd, b"", False

    def pump(self):
        d = os.read(self.fd, 1 << 16)
        if not d:
            self.eof = True
        self.buf += d
        out = []
        while len(self.buf) >= 8:
            (n,) = struct.unpack("<Q", self.buf[:8])
            if len(self.buf) < 8 + n:
                break
            out.append(pickle.loads(self.buf[8:8 + n]))
            self.buf = self.buf[8 + n:]
        return out


# ------------------------------------------------------------------ minimiser
def minimise(mod, prop, plan, res, deadline):
    """Greedy reduction of workload, ranks, faults, knobs; then of the schedule."""
    kind = relevant(mod, prop, res["bad"])[0][0]
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            r = mod.execute(p)
        except Exception:
            return None  # not a plan the harness can run
        b = relevant(mod, prop, r["bad"])
        return r if b and b[0][0] == kind else None

    best, bres = plan, res
    if "mode" in res and not plan.get("mode"):
        best = dict(plan, mode=res["mode"])
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for p in mod.shrinks(best):
            if time.monotonic() > deadline:
                break
            r = fails(p)
            if r is not None:
                best, bres, changed = p, r, True
                break
    more = getattr(mod, "shrinks_res", None)
    changed = more is not None
    while changed and time.monotonic() < deadline:
        changed = False
        for p in more(best, bres):
            if time.monotonic() > deadline:
                break
            r = fails(p)
            if r is not None:
                best, bres, changed = p, r, True
                break
    if getattr(mod, "SCHEDULED", True) and best.get("policy") not in (None, "default"):
        # make the schedule explicit: deviations from the default one
        devs = [(i, s, k) for i, l in bres["log"].items() for s, k in l]

        def with_devs(ds):
            m = {}
            for i, s, k in ds:
                m.setdefault(i, []).append([s, k])
            return dict(best, sched=m, policy="explicit")

        p = with_devs(devs)
        r = fails(p)
        if r is not None:
            cur, bres, n = devs, r, 2
            while len(cur) >= 1 and time.monotonic() < deadline:
                size = max(1, len(cur) // n)
                hit = False
                for lo in range(0, len(cur), size):
                    ds = cur[:lo] + cur[lo + size:]
                    if time.monotonic() > deadline:
                        break
                    r = fails(with_devs(ds))
                    if r is not None:
                        cur, bres, hit = ds, r, True
                        n = max(2, n - 1)
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(cur), n * 2)
            best = with_devs(cur)
    return best, bres, tried


# ------------------------------------------------------------------ workers
def worker(mod, prop, tier, tasks, qfd, out, stop_at):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        b = os.read(qfd, 4)
        if len(b) < 4 or time.monotonic() > stop_at:
            break
        task = tasks[struct.unpack("<I", b)[0]]
        stop = []

        def emit(plan, r):
            bad = relevant(mod, prop, r["bad"])
            rec = dict(sched=r["sched"], digest=r["digest"], steps=r["steps"], choices=r["choices"], simtime=r["simtime"], fired=r["fired"],
                       probes=r["probes"], events=r["events"], other=[b[0] for b in r["bad"] if b not in bad], mode=r.get("mode"),
                       sample=mod.describe(plan), extra=r.get("extra"), known=None)
            if bad:
                kf = match_known(prop, bad[0], plan)
                if kf:
                    rec["known"] = kf
                    send(out, ("run", rec))
                    return False
                send(out, ("run", rec))
                send(out, ("found", bad[0]))
                p, r2, n = minimise(mod, prop, plan, r, time.monotonic() + MIN_WALL[tier])
                send(out, ("violation", dict(plan=p, bad=relevant(mod, prop, r2["bad"])[0], digest=r2["digest"], orig_plan=plan if r.get("mode") is None else dict(plan, mode=r["mode"]),
                                             orig_bad=bad[0], orig_digest=r["digest"], tried=n, notes=r2.get("notes"))))
                stop.append(1)
                return True
            send(out, ("run", rec))
            return time.monotonic() > stop_at

        try:
            mod.run_task(task, emit)
        except BaseException:
            send(out, ("error", dict(task=task, tb=traceback.format_exc())))
            stop.append(1)
        if stop:
            break
        send(out, ("task", None))
    send(out, ("end", None))


def zygote(mod, prop, tier, group, tasks, nworkers, wfds, stop_at):
    """Child of the check process: import, warm up, fork the workers."""
    import gc

    setup.imports()
    mod.init(group)
    gc.collect()
    gc.freeze()
    time.sleep(0.2)
    qr, qw = os.pipe()
    os.write(qw, b"".join(struct.pack("<I", i) for i in range(len(tasks)))[:65536 // 4 * 4])
    os.close(qw)
    pids = []
    for w in range(nworkers):
        pid = os.fork()
        if pid == 0:
            for k, fd in enumerate(wfds):
                if k != w:
                    os.close(fd)
            worker(mod, prop, tier, tasks, qr, wfds[w], stop_at)
            os._exit(0)
        pids.append(pid)
    for fd in wfds:
        os.close(fd)
    for pid in pids:
        os.waitpid(pid, 0)


def worker_main(prop, tier, seed, group, qfd, wfd, stop_in):
    """A worker in an interpreter of its own (modules whose runs use XLA)."""
    stop_at = time.monotonic() + stop_in
    mod = module_of(prop)
    try:
        setup.imports()
        mod.init(group)
        tasks = [t for t in mod.tasks(prop, tier, seed) if t["group"] == group]
    except BaseException:
        send(wfd, ("error", dict(task=group, tb=traceback.format_exc())))
        return 3
    worker(mod, prop, tier, tasks, qfd, wfd, stop_at)
    return 0


def start_spawned(prop, tier, seed, g, n, pipes, stop_at):
    qr, qw = os.pipe()
    os.write(qw, b"".join(struct.pack("<I", i) for i in range(n))[:65536 // 4 * 4])
    os.close(qw)
    pids = []
    for r, w in pipes:
        p = subprocess.Popen([setup.PY, "-B", os.path.join(setup.VERIF, "check.py"), "--worker", prop, tier, str(seed), g, str(qr), str(w), str(stop_at - time.monotonic())],
                             pass_fds=[qr, w], start_new_session=True, stdin=subprocess.DEVNULL)
        pids.append(p.pid)
    os.close(qr)
    return pids


KNOWN = os.path.join(setup.VERIF, "known_findings.txt")


def load_known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                if ln.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in ln[8:].split(" :: ")[0].split())
                    d["text"] = ln.split(" :: ", 1)[1].strip() if " :: " in ln else ""
                    out.append(d)
    return out


def match_known(prop, bad, plan):
    for d in load_known():
        if d.get("property") == prop and d.get("kind") in (None, bad[0]) and d.get("key", "") in bad[1]:
            return d["text"]
    return None


def run_check(prop, tier, seed, wall=None):
    t0 = time.monotonic()
    mod = module_of(prop)
    alltasks = mod.tasks(prop, tier, seed)
    groups = {}
    for t in alltasks:
        groups.setdefault(t["group"], []).append(t)
    stop_at = t0 + (wall or WALL[tier])
    readers, zpids = {}, []
    for g, ts in groups.items():
        nw = min(mod.WORKERS.get(g, 1), len(ts))
        pipes = [os.pipe() for _ in range(nw)]
        sys.stdout.flush()
        if getattr(mod, "SPAWNED", False):
            zpids += start_spawned(prop, tier, seed, g, len(ts), pipes, stop_at)
            for r, w in pipes:
                os.close(w)
                readers[r] = Reader(r)
            continue
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for r in readers.values():
                    os.close(r.fd)
                for r, _ in pipes:
                    os.close(r)
                zygote(mod, prop, tier, g, ts, nw, [w for _, w in pipes], stop_at)
                os._exit(0)
            except BaseException:
                try:
                    send(pipes[0][1], ("error", dict(task=g, tb=traceback.format_exc())))
                finally:
                    os._exit(3)
        zpids.append(pid)
        for r, w in pipes:
            os.close(w)
            readers[r] = Reader(r)
    runs, errors, found, viol = [], [], None, None
    done_tasks, finder = 0, None
    known = {}
    while readers:
        if finder is not None and finder not in readers:
            break
        rd, _, _ = select.select(list(readers), [], [], 5.0)
        if not rd and time.monotonic() > stop_at + 420:
            errors.append(dict(task="watchdog", tb="workers did not stop"))
            break
        for fd in rd:
            r = readers[fd]
            for kind, d in r.pump():
                if kind == "run":
                    if d["known"]:
                        known[d["known"]] = known.get(d["known"], 0) + 1
                    runs.append(d)
                elif kind == "task":
                    done_tasks += 1
                elif kind == "error":
                    errors.append(d)
                elif kind == "found" and finder is None:
                    finder = fd
                elif kind == "violation" and fd == finder:
                    viol = d
            if r.eof:
                os.close(fd)
                del readers[fd]
        if viol is not None or errors and finder is None:
            break
    for pid in zpids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    sweep_scratch()
    wall_s = time.monotonic() - t0
    return dict(mod=mod, runs=runs, errors=errors, viol=viol, wall=wall_s, known=known, ntasks=len(alltasks), done_tasks=done_tasks)


def sweep_scratch():
    """Remove what killed workers of this check left behind."""
    import shutil

    d = setup.scratch()
    me = f"vsim-{os.environ.get('VSIM_RUN', '0')}-"
    for n in os.listdir(d):
        if n.startswith(me):
            shutil.rmtree(os.path.join(d, n), ignore_errors=True)


# ------------------------------------------------------------------ replay
def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop, plan = d["property"], d["plan"]
    mod = module_of(prop)
    setup.imports()
    mod.init(mod.group_of(plan) if hasattr(mod, "group_of") else next(g for g, fs in mod.GROUPS.items() if plan["fam"] in fs))
    time.sleep(0.2)
    r = mod.execute(dict(plan, trace=1))
    bad = relevant(mod, prop, r["bad"])
    same = r["digest"] == d.get("digest")
    for t in r.get("trace", [])[-int(os.environ.get("VSIM_TAIL", "60")):]:
        print("  ", t)
    print(f"replay of {path}: {len(bad)} violation(s); event log {'identical' if same else 'DIFFERS'}")
    for b in bad:
        print(f"  {b[0]}: {b[1]}")
    sweep_scratch()
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def save_replay(prop, v, which):
    d = os.path.join(setup.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    plan, bad, dig = (v["plan"], v["bad"], v["digest"]) if which == "min" else (v["orig_plan"], v["orig_bad"], v["orig_digest"])
    p = os.path.join(d, f"{prop}-{dig[:10]}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, violation=list(bad), digest=dig, plan=plan, how="run: ./check PROPERTY --replay THIS_FILE"), f, indent=1, default=str)
    return p


def confirm(prop, path):
    """The replay file must fail again in a fresh process."""
    env = dict(os.environ)
    env.pop("VSIM_RUN", None)
    p = subprocess.run([setup.PY, "-B", os.path.join(setup.VERIF, "check.py"), prop, "--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    return p.returncode == 1, p.stdout.decode(errors="replace")


def evidence(prop, tier, seed, R, violated):
    mod, runs = R["mod"], R["runs"]
    fired, probes, other = {}, {}, {}
    for r in runs:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k in r["other"]:
            other[k] = other.get(k, 0) + 1
    nontriv = {r["sched"] + r["digest"] for r in runs if r["choices"] > 0 or r["fired"]}
    samples = [r["sample"] for r in runs[:: max(1, len(runs) // 4)][:4]]
    cov = dict(evaluations=len(runs), distinct_nontrivial=len(nontriv),
               rule=getattr(mod, "RULE", "one evaluation is one simulated execution decided by one seed (workload, rank counts, schedule policy, fault placement); "
                            "non-trivial: it had at least one scheduling choice or a fault that fired; distinct by the hash of the schedule choices and of the whole event log"),
               samples=samples, runs_per_hour=round(len(runs) / max(R["wall"], 1e-9) * 3600), seeds=R["done_tasks"], tasks_planned=R["ntasks"],
               seeds_per_hour=round(R["done_tasks"] / max(R["wall"], 1e-9) * 3600), simulated_seconds=round(sum(r["simtime"] for r in runs), 3),
               scheduling_steps=sum(r["steps"] for r in runs), scheduling_choices=sum(r["choices"] for r in runs), events=sum(r["events"] for r in runs),
               distinct_schedules=len({r["sched"] for r in runs}), distinct_event_logs=len({r["digest"] for r in runs}),
               faults_fired=dict(sorted(fired.items())), probes=dict(sorted(probes.items())),
               real_fit_runs=sum(1 for r in runs if r["mode"] == "spawn"), runs_with_a_fault=sum(1 for r in runs if r["fired"]),
               real_components=getattr(mod, "REAL", []), stubbed_components=getattr(mod, "STUB", []), deviations_left_to_other_properties=other,
               known_findings=R["known"])
    for r in runs:
        for k, v in (r["extra"] or {}).items():
            cov[k] = cov.get(k, 0) + v
    d = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(R["wall"], 2), violations=violated,
             assumptions=getattr(mod, "ASSUME", {}).get(prop, getattr(mod, "ASSUMPTIONS", [])))
    os.makedirs(os.path.join(setup.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(setup.VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--digests", help="write the digest of every run here (determinism test)")
    a = ap.parse_args(argv)
    setup.enter()
    os.environ["VSIM_RUN"] = str(os.getpid())
    if a.replay:
        return replay(a.replay)
    print(f"{a.property}: tier {a.tier}, seed {a.seed}")
    R = run_check(a.property, a.tier, a.seed, a.wall)
    if a.digests:
        with open(a.digests, "w") as f:
            for r in sorted(R["runs"], key=lambda r: json.dumps(r["sample"], sort_keys=True, default=str)):
                f.write(json.dumps([r["sample"], r["digest"], r["sched"]], sort_keys=True, default=str) + "\n")
    for k, n in R["known"].items():
        print(f"KNOWN-FINDING: property={a.property} {k}")
    if R["viol"]:
        v = R["viol"]
        evidence(a.property, a.tier, a.seed, R, 1)
        for which in ("min", "orig"):
            path = save_replay(a.property, v, which)
            ok, out = confirm(a.property, path)
            if ok:
                print(out[-6000:])
                print(f"{v['bad'][0]}: {v['bad'][1]}")
                print(f"{len(R['runs'])} runs before the violation; {v['tried']} runs to minimise it; seed {v['plan'].get('seed')}")
                print(f"VIOLATION property={a.property} replay={path}")
                return 1
        print(out[-4000:])
        print(f"UNREPRODUCED: {v['orig_bad']} did not fail again in a fresh process")
        return 2
    evidence(a.property, a.tier, a.seed, R, 0)
    if R["errors"]:
        for e in R["errors"][:3]:
            print("ERROR", e["task"], e["tb"])
        return 2
    if not R["runs"]:
        print("ERROR no run finished")
        return 2
    print(f"{a.property}: held on {len(R['runs'])} simulated runs ({R['done_tasks']} of {R['ntasks']} seeds) in {R['wall']:.1f} s")
    return 0
