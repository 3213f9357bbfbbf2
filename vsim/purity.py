"""Check C10: calls do not influence one another.

Every run is a history of calls in an interpreter of its own (puritychild):
episodes of one to three caller threads, interleaved by the seeded scheduler at
source-line granularity, with cancelled calls.  Every call that was not
cancelled must return, bit for bit, what the same call returned alone in the
reference interpreters."""
import copy
import hashlib
import json
import os
import random
import shutil
import subprocess
import tempfile

from . import setup
from .engine import mix

KINDS = {"C10": {"result-differs", "input-changed", "defaults-changed", "rng-changed", "precision-changed", "files-changed", "stuck"}}
GROUPS = {"plain": [], "x64": []}
WORKERS = {"plain": 6, "x64": 2}
SCHEDULED = False
RULE = ("one evaluation is one history of calls in a fresh interpreter decided by one seed (calls, threads, hand-overs at source lines, cancellations); "
        "non-trivial: it had a scheduling choice or a cancellation; distinct by the hash of hand-overs, results and cancellations")
REAL = ["diffmah (all public entry points listed in vsim/puritychild.py)", "jax, scipy, numpy, h5py", "real threads, of which the scheduler lets exactly one run"]
STUB = ["hand-over points are the source lines of diffmah executed outside a jax trace; code below them runs atomically"]
REF, NLINES = {}, {}
NAMES = []
CACHE = None
SLICES = 5


def child(plan, timeout=240):
    d = tempfile.mkdtemp(prefix=f"vsim-{os.environ.get('VSIM_RUN', '0')}-", dir=setup.scratch())
    try:
        env = dict(os.environ, PYTHONPATH=setup.VERIF)
        env.pop("LD_PRELOAD", None)
        p = subprocess.run([setup.PY, "-B", "-m", "vsim.puritychild"], input=json.dumps(dict(plan, repo=os.path.realpath(setup.REPO), cache=CACHE)).encode(), cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode or not p.stdout:
            raise RuntimeError("history ended with code %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]))
        return json.loads(p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def init(group):
    """The reference: every call of the menu, alone in its caller's thread."""
    global CACHE
    from concurrent.futures import ThreadPoolExecutor

    from . import puritychild
    NAMES[:] = [m[0] for m in puritychild.menu()]
    CACHE = tempfile.mkdtemp(prefix=f"vsim-{os.environ.get('VSIM_RUN', '0')}-", dir=setup.scratch())
    n = len(NAMES)

    def one(k):
        plan = dict(seed=1, group=group, episodes=[dict(threads=[[dict(i=i) for i in range(k, n, SLICES)]])])
        return child(plan)
    with ThreadPoolExecutor(SLICES) as ex:
        for r in ex.map(one, range(SLICES)):
            for x in r["res"]:
                REF[x["i"]] = (x.get("dig"), x.get("raised"), x.get("brief"), bool(x.get("inputs_changed")))
                NLINES[x["i"]] = x["nlines"]


def execute(plan):
    r = child(plan)
    bad, h = [], hashlib.sha256(r["sched"].encode())
    ncmp = ncan = 0
    probes, trace = {}, []
    for x in r["res"]:
        fam = x["name"].split("#")[0]
        tag = f"episode {x['e']} thread {x['t']} call {x['k']} ({x['name']})"
        h.update(repr((x["e"], x["t"], x["k"], x.get("dig"), x.get("raised"))).encode())
        trace.append(f"{tag}: {x.get('raised') or x['dig']} {'cancelled at line ' + str(x['nlines']) if x['cancelled'] else ''}")
        probes[fam] = probes.get(fam, 0) + 1
        if x.get("inputs_changed"):
            bad.append(("input-changed", f"{tag}: an argument was changed by the call"))
        if x["cancelled"]:
            ncan += 1
            continue
        ncmp += 1
        d0, r0, b0, _ = REF[x["i"]]
        if (x.get("dig"), x.get("raised")) != (d0, r0):
            bad.append(("result-differs", f"{tag}: {x.get('raised') or x.get('brief')}; alone: {r0 or b0}"))
    for i, e in enumerate(r["eps"]):
        if e.get("defaults"):
            bad.append(("defaults-changed", f"after episode {i}: {e['defaults']}"))
        if e.get("rng"):
            bad.append(("rng-changed", f"after episode {i}: the global random state changed"))
        if e.get("x64"):
            bad.append(("precision-changed", f"after episode {i}: jax_enable_x64 changed"))
        if e.get("files"):
            bad.append(("files-changed", f"after episode {i}: an input file changed"))
        if e.get("stuck"):
            bad.append(("stuck", f"episode {i}: calls that never end: {e['stuck']}"))
    trace += [f"hand-over at step {a} to thread {b}" for a, b in r["log"][:200]]
    return dict(bad=bad, events=len(r["res"]), digest=h.hexdigest(), sched=r["sched"], steps=r["steps"], choices=r["choices"], simtime=0.0, fired={"interrupt:" + k: v for k, v in r["fired"].items()},
                probes=probes, log={}, hand=r["log"], trace=trace, extra=dict(calls_compared=ncmp, calls_cancelled=ncan, hand_overs=len(r["log"]), distinct_lines_seen_per_run_total=r["nlines"]))


HEAVY = ("mc_diffmah", "mc_cenpop", "mc_satpop", "predict", "diffmahpop_params#1", "diffmahpop_params#2")


def heavy(i):
    return NAMES[i].startswith(HEAVY)


def gen(rng, group, seed):
    n = len(NAMES)
    fams = {}
    for i in range(n):
        fams.setdefault(NAMES[i].split("#")[0], []).append(i)
    light = [f for f in fams if not any(heavy(i) for i in fams[f])]
    hv = [f for f in fams if f not in light]
    sub = []
    for f in rng.sample(light, rng.randint(3, 7)):
        sub += rng.sample(fams[f], rng.randint(1, min(4, len(fams[f]))))
    # weight on what has many lines, hence many points to interfere at
    for f in ("diffmah_fitter", "bfgs_adam_fallback", "jax_adam_wrapper"):
        if rng.random() < 0.4:
            sub += rng.sample(fams[f], 2)
    if rng.random() < 0.4:
        f = rng.choice(hv)
        sub += rng.sample(fams[f], rng.randint(1, min(3, len(fams[f]))))
    eps = []
    for _ in range(rng.randint(3, 7)):
        nt = rng.choice([1, 2, 2, 2, 3])
        focus = rng.random() < 0.5
        pool = sub
        if focus:
            f = NAMES[rng.choice(sub)].split("#")[0]
            pool = [i for i in sub if NAMES[i].split("#")[0] == f] + rng.sample(sub, 1)
        th = []
        for _ in range(nt):
            cs = []
            for _ in range(rng.randint(1, 5 if nt > 1 else 8)):
                i = rng.choice(pool)
                c = dict(i=i)
                x = rng.random()
                if x < 0.22:
                    m = max(1, NLINES.get(i, 20)) if rng.random() < 0.7 else 25
                    c["cancel"] = dict(n=rng.randint(1, m), exc=rng.choice(["cancel", "keyboard", "memory", "runtime", "os"]))
                elif x < 0.5:
                    c["scribble"] = 1
                cs.append(c)
            th.append(cs)
        eps.append(dict(threads=th))
    return dict(prop="C10", seed=seed, group=group, p=rng.choice([0.02, 0.1, 0.3, 0.6, 0.9]), episodes=eps)


def run_task(task, emit):
    seed, g = task["seed"], task["group"]
    n = len(NAMES)
    if task.get("order") is not None:
        idx = list(range(n))
        k = task["order"]
        if k == 0:
            idx = idx[::-1]
        else:
            random.Random(k).shuffle(idx)
        idx = idx[:n // 2 if k else n // 3] if k % 2 == 0 else idx[n // 2:]
        plan = dict(prop="C10", seed=seed, group=g, p=0.0, episodes=[dict(threads=[[dict(i=i) for j in idx for i in (j, j)]])])
    else:
        plan = gen(random.Random(mix(seed, "case")), g, seed)
    emit(plan, execute(plan))


def tasks(prop, tier, seed):
    q = tier == "quick"
    out = []
    for g, n, no in (("plain", 150 if q else 6000, 3 if q else 20), ("x64", 40 if q else 1500, 1 if q else 8)):
        out += [dict(group=g, seed=mix(seed, prop, g, "o", i) >> 12, order=i) for i in range(no)]
        out += [dict(group=g, seed=mix(seed, prop, g, i) >> 12) for i in range(n)]
    return out


def shrinks(plan):
    def cp():
        return copy.deepcopy(plan)
    E = plan["episodes"]
    if len(E) > 1:
        for i in range(len(E)):
            p = cp(); del p["episodes"][i]; yield p
    if plan.get("switches") is None and plan["p"]:
        p = cp(); p["p"] = 0.0; yield p
    for i, e in enumerate(E):
        T = e["threads"]
        if len(T) > 1:
            for t in range(len(T)):
                p = cp(); del p["episodes"][i]["threads"][t]; yield p
        for t, cs in enumerate(T):
            if len(cs) > 3:
                p = cp(); p["episodes"][i]["threads"][t] = cs[:len(cs) // 2]; yield p
                p = cp(); p["episodes"][i]["threads"][t] = cs[len(cs) // 2:]; yield p
            if len(cs) > 1:
                for c in range(len(cs)):
                    p = cp(); del p["episodes"][i]["threads"][t][c]; yield p
            for c in range(len(cs)):
                for k in ("cancel", "scribble"):
                    if k in cs[c]:
                        p = cp(); p["episodes"][i]["threads"][t][c].pop(k); yield p


def shrinks_res(plan, res):
    """Hand-overs made explicit, then fewer of them."""
    if plan.get("switches") is None:
        if res["hand"]:
            yield dict(copy.deepcopy(plan), switches={str(a): b for a, b in res["hand"]})
        return
    ks = sorted(plan["switches"], key=int)
    size = max(1, len(ks) // 2)
    while ks:
        for lo in range(0, len(ks), size):
            yield dict(copy.deepcopy(plan), switches={k: plan["switches"][k] for k in ks[:lo] + ks[lo + size:]})
        if size == 1:
            break
        size = max(1, size // 2)


def group_of(plan):
    return plan["group"]


def describe(plan):
    return dict(group=plan["group"], p=plan["p"], episodes=[[[NAMES[c["i"]] + ("!" + c["cancel"]["exc"] + str(c["cancel"]["n"]) if "cancel" in c else "") for c in t] for t in e["threads"]] for e in plan["episodes"]], seed=plan["seed"])
