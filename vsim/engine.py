"""The simulator: runs a set of processes (MPI ranks, single programs and the
commands they execute) one at a time, deciding every interleaving, message
delivery, clock value, directory order and fault from one seed.

A *plan* (JSON) fixes everything:
  seed        integer all derived choices come from
  policy      name of the scheduling policy
  knobs       short/eintr probability, send mode, directory permutation, ...
  incs        incarnations: {"jobs": [...], "faults": [...]}
  sched       None (policy decides) or {inc: [[step, key], ...]} deviations from
              the default schedule
"""
import ctypes
import errno
import hashlib
import os
import pickle
import random
import select
import shutil
import signal
import socket
import struct
import time as _time

from . import fakes

OPS = {1: "hello", 2: "open", 3: "read", 4: "write", 5: "close", 6: "fsync", 7: "trunc", 8: "unlink",
       9: "rename", 10: "mkdir", 11: "rmdir", 12: "opendir", 13: "stat", 14: "link", 15: "deny", 16: "chmod"}
GO, ERR, SHORT, TEAR, KILL, AFTER = range(6)
REQ = struct.Struct("<IIIiqqII")
REP = struct.Struct("<iiq")
FAULTABLE = {"open", "read", "write", "close", "fsync", "trunc", "unlink", "rename", "mkdir", "rmdir", "opendir", "link"}
# errno choices per operation
ERRNOS = {
    "open_r": ["EMFILE", "EACCES", "EIO", "ENOENT"],
    "open_w": ["ENOSPC", "EMFILE", "EACCES", "EDQUOT", "EIO", "EROFS"],
    "read": ["EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "close": ["EIO", "EDQUOT"],
    "fsync": ["EIO", "ENOSPC"],
    "trunc": ["EIO", "ENOSPC"],
    "unlink": ["EIO", "EACCES", "EROFS"],
    "rename": ["EIO", "ENOSPC", "EACCES"],
    "mkdir": ["ENOSPC", "EACCES"],
    "rmdir": ["EIO"],
    "opendir": ["EMFILE", "EACCES", "EIO"],
    "link": ["EIO", "ENOSPC"],
}
O_ACCMODE, O_CREAT, O_TRUNC = 3, 0o100, 0o1000


class NeedFresh(Exception):
    """A forked rank needed XLA, which does not survive a fork: the run must be
    repeated with each rank in an interpreter of its own (mode "spawn")."""


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


def mix(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, "little")


class Actor:
    def __init__(self, aid, name, job, rank):
        self.aid, self.name, self.job, self.rank = aid, name, job, rank
        self.pid, self.sock, self.conns = None, None, []
        self.pending = None       # ("fs", conn, dict) | ("mpi", msg)
        self.exited = False
        self.status = None        # exit code, or -signal
        self.exc = None
        self.result = None
        self.nfs = 0              # faultable operations issued
        self.collseq = {}
        self.main_seen = False
        self.dead = False         # killed by the simulator
        self.prio = 0.0
        self.ready_t = 0.0        # virtual time at which the pending request completes


class Job:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.actors = []
        self.colls = {}
        self.inflight = {}        # (cid, src, dst) -> [ [tag, blob, sync_actor, msgid] ]
        self.mail = {}            # (cid, dst) -> [ [src, tag, blob, sync_actor] ]
        self.aborting = None      # steps left until the launcher kills the rest
        self.killed = False


class Sim:
    """One run.  `root` is a fresh scratch directory; root/fs is the simulated
    file system visible to the processes."""

    def __init__(self, plan, root, child_fn, shim, observer=None, uid=65534):
        self.plan, self.root, self.child_fn, self.shim = plan, root, child_fn, shim
        self.prefix = os.path.join(root, "fs")
        self.obs = observer
        self.uid = uid
        self.knobs = dict(short=0.0, eintr=0.0, sync=0, perm=0, slow=0, jump=0, buf=0, buf_size=0)
        self.knobs.update(plan.get("knobs", {}))
        self.seed = plan["seed"]
        self.events = hashlib.sha256()
        self.nev = 0
        self.trace_on = bool(plan.get("trace"))
        self.trace = []
        self.sched_hash = hashlib.sha256()
        self.simtime = 0.0
        self.clock_off = 1.7e9 + (self.seed % 1000)
        self.fired = {}
        self.probes = {}
        self.choice_log = {}      # inc -> list of deviations
        self.opcounts = {}        # (inc, actor) -> nfs
        self.oplist = {}          # (inc, actor) -> [(op, path)]
        self.nchoice = 0
        self.steps_total = 0
        self.max_steps = plan.get("max_steps", 60000)
        self.inc = 0
        self.journal = None
        self.mode = plan.get("mode", "fork")
        self.wall_limit = plan.get("wall_limit", 300)
        self.idle_limit = 4 if self.mode == "fork" else 30

    # ------------------------------------------------------------ logging
    def log(self, *e):
        self.events.update(repr(e).encode())
        self.nev += 1
        if self.trace_on:
            self.trace.append((self.inc, round(self.simtime, 6)) + e)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def rel(self, p):
        if p.startswith(self.prefix):
            return p[len(self.prefix) + 1:] or "."
        return p

    # ------------------------------------------------------------ processes
    def start(self, incspec):
        self.sockpath = os.path.join(self.root, f"ctl{self.inc}")
        self.lsock = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.lsock.bind(self.sockpath)
        os.chmod(self.sockpath, 0o777)
        self.lsock.listen(64)
        self.jobs, self.actors = [], []
        for j, spec in enumerate(incspec["jobs"]):
            job = Job(j, spec)
            self.jobs.append(job)
            for r in range(spec["nranks"]):
                a = Actor(len(self.actors), f"{j}.{r}", job, r)
                job.actors.append(a)
                self.actors.append(a)
        self.rng = random.Random(mix(self.seed, "sched", self.inc))
        for a in self.actors:
            a.prio = self.rng.random()
            a.slow = 1.0 + (9.0 * self.rng.random() if self.knobs["slow"] and self.rng.random() < 0.5 else 0)
        for a in self.actors:
            self.fork(a)
        # everyone stops at its first request
        for a in self.actors:
            self.wait(a)

    def fork(self, a):
        sp, sc = socket.socketpair()
        if self.mode == "spawn":
            a.popen = spawn(self, a, sc)
            sc.close()
            a.pid, a.sock = a.popen.pid, sp
            return
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                sp.close()
                self.lsock.close()
                for b in self.actors:
                    if b.sock is not None:
                        b.sock.close()
                self.child_fn(self, a, sc)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(99)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        sc.close()
        a.pid, a.sock = pid, sp

    def _read_conn(self, conn):
        """-> request dict or None at EOF"""
        try:
            b = conn.recv(65536)
        except ConnectionResetError:
            b = b""
        if not b:
            return None
        op, actor, pid, fd, x, y, l1, l2 = REQ.unpack_from(b)
        o = REQ.size
        p1 = os.fsdecode(b[o:o + l1])
        p2 = os.fsdecode(b[o + l1:o + l1 + l2])
        return dict(op=OPS[op], actor=actor, pid=pid, a=x, b=y, p1=p1, p2=p2)

    def wait(self, a):
        """Wait until actor `a` has a pending request or has exited."""
        t0 = _time.monotonic()
        cpu, idle = None, 0
        while True:
            if a.pending is not None or a.exited:
                return
            po = select.poll()
            po.register(self.lsock, select.POLLIN)
            fds = {self.lsock.fileno(): self.lsock}
            for c in a.conns:
                po.register(c, select.POLLIN | select.POLLHUP)
                fds[c.fileno()] = c
            if a.sock is not None:
                po.register(a.sock, select.POLLIN | select.POLLHUP)
                fds[a.sock.fileno()] = a.sock
            evs = po.poll(1000)
            if not evs:
                c = group_cpu(a.pid)
                idle = idle + 1 if c == cpu else 0
                cpu = c
                if idle >= self.idle_limit or _time.monotonic() - t0 > self.wall_limit:
                    self.kill_all()
                    if self.mode == "fork":
                        raise NeedFresh(f"process {a.name} is stuck")
                    raise Violation("hang", f"process {a.name} makes no progress")
                continue
            for fd, _ in sorted(evs):
                c = fds[fd]
                if c is self.lsock:
                    n, _ = c.accept()
                    r = self._read_conn(n)
                    if r is None:
                        n.close()
                        continue
                    b = self.actors[r["actor"]]
                    b.conns.append(n)
                    if b.pending is not None:
                        b.conns_extra = getattr(b, "conns_extra", []) + [("fs", n, r)]
                    else:
                        b.pending = ("fs", n, r)
                elif c is a.sock:
                    try:
                        m = fakes.recv_msg(c)
                    except (EOFError, ConnectionResetError):
                        self.reap(a)
                        return
                    if a.pending is not None:
                        raise HarnessError(f"{a.name} has two pending requests")
                    a.pending = ("mpi", None, m)
                else:
                    r = self._read_conn(c)
                    if r is None:
                        a.conns.remove(c)
                        c.close()
                        continue
                    if a.pending is not None:
                        a.conns_extra = getattr(a, "conns_extra", []) + [("fs", c, r)]
                    else:
                        a.pending = ("fs", c, r)
            if a.pending is not None or a.exited:
                return

    def reap(self, a):
        _, st = os.waitpid(a.pid, 0)
        try:
            os.killpg(a.pid, signal.SIGKILL)  # stray grandchildren
        except OSError:
            pass
        a.exited = True
        a.status = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        a.sock.close()
        a.sock = None
        for c in a.conns:
            c.close()
        a.conns = []
        a.pending = None
        if a.status == 97:
            self.kill_all()
            raise NeedFresh(a.exc or a.name)
        if a.status == 99:
            self.kill_all()
            raise HarnessError(f"child {a.name} failed to start; see its log")

    def kill_actor(self, a):
        if not a.exited:
            a.dead = True
            try:
                os.killpg(a.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(a.pid, signal.SIGKILL)
            except OSError:
                pass
            self.reap_killed(a)

    def reap_killed(self, a):
        _, st = os.waitpid(a.pid, 0)
        a.exited, a.status = True, -9 if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        if a.sock is not None:
            a.sock.close()
        a.sock = None
        # drain until EOF so that grandchildren are gone too
        for c in a.conns:
            c.settimeout(5)
            try:
                while c.recv(65536):
                    pass
            except OSError:
                pass
            c.close()
        a.conns, a.pending = [], None

    def kill_all(self):
        for a in getattr(self, "actors", []):
            if not a.exited:
                self.kill_actor(a)

    def close(self):
        self.kill_all()
        if getattr(self, "lsock", None):
            self.lsock.close()
            self.lsock = None
            try:
                os.unlink(self.sockpath)
            except OSError:
                pass

    # ------------------------------------------------------------ what can happen next
    def enabled(self):
        out = []
        for a in self.actors:
            if a.exited or a.pending is None:
                continue
            if self.can_go(a):
                out.append("a" + a.name)
        for job in self.jobs:
            if job.killed:
                continue
            for ch, q in job.inflight.items():
                if q:
                    out.append(f"m{job.idx}:{ch[0]}:{ch[1]}>{ch[2]}")
            if job.aborting is not None and any(not x.exited for x in job.actors):
                out.append(f"k{job.idx}")
        return out

    def can_go(self, a):
        kind, _, m = a.pending
        if kind == "fs":
            return True
        k = m[0]
        if k == "coll":
            return self.coll_ready(a, m)
        if k == "recv":
            return self.match(a, m) is not None
        if k == "send_wait":
            return m[1]["taken"]
        if k == "sleep":
            return self.simtime >= m[2]
        return True

    def coll_reg(self, a, m):
        _, cid, rank, size, kind, root, blob = m
        seq = a.collseq.get(cid, 0)
        a.collseq[cid] = seq + 1
        c = a.job.colls.setdefault((cid, seq), dict(kind=kind, root=root, size=size, ent={}, done=0))
        if (c["kind"], c["root"], c["size"]) != (kind, root, size):
            raise Violation("mpi-mismatch", f"collective #{seq} on {cid}: rank {rank} calls {kind}(root={root}) while another called {c['kind']}(root={c['root']})")
        c["ent"][rank] = blob
        a.coll = c

    def coll_ready(self, a, m):
        _, cid, rank, size, kind, root, blob = m
        c = a.coll
        full = len(c["ent"]) == size
        sync = self.knobs["sync"]
        if kind in ("bcast", "scatter"):
            if rank == root:
                return full if sync else True
            return root in c["ent"] and (full or not sync)
        if kind == "gather" or kind.startswith("reduce"):
            if rank == root:
                return full
            return full if sync else True
        return full

    def match(self, a, m):
        _, cid, rank, src, tag = m
        box = a.job.mail.get((cid, rank), [])
        for i, e in enumerate(box):
            if (src == fakes.ANY_SOURCE or e[0] == src) and (tag == fakes.ANY_TAG or e[1] == tag):
                return i
        return None

    # ------------------------------------------------------------ scheduling
    def default_key(self, en):
        cur = "a" + self.cur if self.cur else None
        if cur in en:
            return cur
        ms = [k for k in en if k[0] == "m"]
        if ms:
            return ms[0]
        as_ = [k for k in en if k[0] == "a"]
        return as_[0] if as_ else en[0]

    def choose(self, en):
        d = self.default_key(en)
        if len(en) == 1:
            return en[0]
        self.nchoice += 1
        sched = self.plan.get("sched")
        if sched is not None:
            k = self.devs.get(self.step)
            return k if k in en else d
        k = self.policy(en, d)
        if k != d:
            self.dev_out.append([self.step, k])
        return k

    def policy(self, en, d):
        p, rng = self.plan.get("policy", "uniform"), self.rng
        if p == "default":
            return d
        if p == "uniform":
            return rng.choice(en)
        if p == "sticky":
            return d if rng.random() < 0.85 else rng.choice(en)
        if p == "pct":
            # random priorities, lowered at a few random steps
            if rng.random() < 0.01:
                rng.choice(self.actors).prio = rng.random() - 1.0
            best, bk = None, None
            for k in en:
                pr = self.byname[k[1:]].prio if k[0] == "a" else (self.chanprio(k))
                if best is None or pr > best:
                    best, bk = pr, k
            return bk
        if p == "starve":
            # one rank runs only when nothing else can
            victim = "a" + self.actors[self.seed % len(self.actors)].name
            rest = [k for k in en if k != victim]
            return rng.choice(rest) if rest else victim
        if p == "favor":
            # one rank runs whenever it can
            fav = "a" + self.actors[self.seed % len(self.actors)].name
            return fav if fav in en else rng.choice(en)
        if p == "vtime":
            best, bk = None, None
            for k in en:
                t = self.byname[k[1:]].ready_t if k[0] == "a" else self.simtime + 1e-5
                if best is None or t < best:
                    best, bk = t, k
            return bk
        raise HarnessError("policy " + p)

    def chanprio(self, k):
        return (mix(self.seed, "ch", k) % 1000) / 1000.0

    # ------------------------------------------------------------ main loop
    def run_inc(self, i, incspec):
        """Run one incarnation to its end.  Returns a list of per-job dicts."""
        self.inc = i
        self.cur = None
        self.step = 0
        self.dev_out = []
        self.choice_log[str(i)] = self.dev_out
        sched = self.plan.get("sched")
        self.devs = {s: k for s, k in (sched or {}).get(str(i), [])}
        self.faults = {}
        for f in incspec.get("faults", []):
            self.faults.setdefault((f["actor"], f["n"]), []).append(f)
        self.persist = {}
        self.crashed = None
        self.journal = None
        if any(f["kind"] == "power" for f in incspec.get("faults", [])):
            self.journal = Journal(self.prefix, incspec.get("durable_dirs", ["."]))
        self.start(incspec)
        self.byname = {a.name: a for a in self.actors}
        for a in self.actors:
            self.announce(a)
        try:
            while not all(a.exited for a in self.actors):
                en = self.enabled()
                if not en:
                    sl = [a.pending[2][2] for a in self.actors if not a.exited and a.pending and a.pending[0] == "mpi" and a.pending[2][0] == "sleep"]
                    if sl:
                        self.simtime = min(sl)
                        continue
                    self.deadlock()
                k = self.choose(en)
                if len(en) > 1:
                    self.sched_hash.update(k.encode())
                self.step += 1
                self.steps_total += 1
                if self.steps_total > self.max_steps:
                    self.kill_all()
                    raise Violation("no-progress", f"run did not finish within {self.max_steps} steps")
                for job in self.jobs:
                    if job.aborting is not None and not job.killed:
                        job.aborting -= 1
                        if job.aborting < 0:
                            self.kill_job(job)
                if k[0] == "k":
                    self.kill_job(self.jobs[int(k[1:])])
                elif k[0] == "m":
                    self.deliver(k)
                else:
                    a = self.byname[k[1:]]
                    if not a.exited:
                        self.grant(a)
        finally:
            self.close()
        for a in self.actors:
            self.opcounts[f"{i}:{a.name}"] = a.nfs
        out = []
        for job in self.jobs:
            left = sum(len(q) for q in job.inflight.values()) + sum(len(q) for q in job.mail.values())
            out.append(dict(status=[a.status for a in job.actors], exc=[a.exc for a in job.actors],
                            results=[a.result for a in job.actors], unreceived=left,
                            ok=all(a.status == 0 for a in job.actors), killed=self.crashed is not None or job.killed))
        return out

    def deadlock(self):
        desc = []
        for a in self.actors:
            if not a.exited:
                m = a.pending[2]
                desc.append(f"rank {a.name} waits in {m[0]}" + (f":{m[4]}" if m[0] == "coll" else f" source={m[3]}" if m[0] == "recv" else ""))
            else:
                desc.append(f"rank {a.name} exited {a.status}")
        self.kill_all()
        raise Violation("deadlock", "; ".join(desc))

    def kill_job(self, job):
        for a in job.actors:
            if not a.exited:
                self.kill_actor(a)
        job.killed = True
        self.log("jobkill", job.idx)

    def deliver(self, k):
        jid, cid, rest = k[1:].split(":")
        s, d = rest.split(">")
        job = self.jobs[int(jid)]
        key = (cid, int(s), int(d))
        e = job.inflight[key].pop(0)
        job.mail.setdefault((cid, int(d)), []).append([int(s)] + e)
        self.simtime += 1e-5
        self.log("deliver", key, e[0], len(e[1]))

    def announce(self, a):
        """Called when an actor's new request has arrived."""
        if a.exited or a.pending is None:
            return
        kind, conn, m = a.pending
        if kind == "mpi" and m[0] == "coll":
            self.coll_reg(a, m)
        if kind == "mpi" and m[0] == "sleep":
            a.pending = (kind, conn, ("sleep", m[1], self.simtime + max(0.0, float(m[1]))))
        lat = 1e-4 if kind == "fs" else 2e-5
        r = random.Random(mix(self.seed, "lat", self.inc, a.name, a.nfs, self.step if self.plan.get("policy") == "vtime" else 0))
        a.ready_t = self.simtime + lat * a.slow * (0.2 + r.expovariate(1.0))

    def after(self, a):
        self.wait(a)
        if a.exited:
            self.log("exit", a.name, a.status)
            if a.status != 0 and not a.dead and a.job.aborting is None:
                a.job.aborting = self.plan.get("abort_delay", 5)
                if a.exc is None:
                    a.exc = ("killed" if a.status < 0 else "exit", str(a.status))
        else:
            self.announce(a)

    # ------------------------------------------------------------ granting a request
    def grant(self, a):
        self.cur = a.name
        kind, conn, m = a.pending
        extra = getattr(a, "conns_extra", None)
        a.pending = extra.pop(0) if extra else None
        self.simtime += 1e-5 + (0.0 if kind == "mpi" else 5e-5 * (1 + mix(self.seed, a.name, a.nfs) % 100))
        if kind == "mpi":
            self.grant_mpi(a, m)
        else:
            self.grant_fs(a, conn, m)

    def reply(self, a, val):
        fakes.send_msg(a.sock, ("ok", val))
        self.after(a)

    def grant_mpi(self, a, m):
        k, job = m[0], a.job
        if k == "coll":
            c = a.coll
            self.log("coll", a.name, m[1], m[4])
            n = m[3]
            kind, root = m[4], m[5]
            if kind in ("bcast", "scatter"):
                val = {root: c["ent"][root]}
            elif kind == "gather" or kind.startswith("reduce"):
                val = [c["ent"][r] for r in range(n)] if m[2] == root else None
            else:
                val = [c["ent"][r] for r in range(n)]
            self.reply(a, val)
        elif k == "send":
            _, cid, rank, dest, tag, blob, mode = m
            self.log("send", a.name, cid, dest, tag, len(blob))
            sync = mode == "sync" or (mode == "std" and (self.knobs["sync"] == 1 or (self.knobs["sync"] == 2 and mix(self.seed, "snd", a.name, dest, a.nfs) & 1)))
            e = dict(taken=False)
            job.inflight.setdefault((cid, rank, dest), []).append([tag, blob, e])
            if sync:
                self.probe("rendezvous_send")
                a.pending = ("mpi", None, ("send_wait", e))
                self.announce(a)
            else:
                self.reply(a, None)
        elif k == "send_wait":
            self.reply(a, None)
        elif k == "recv":
            i = self.match(a, m)
            box = job.mail[(m[1], m[2])]
            if m[3] == fakes.ANY_SOURCE:
                # any source: first message of a seeded choice of source
                srcs = sorted({e[0] for e in box if m[4] in (fakes.ANY_TAG, e[1])})
                s = srcs[mix(self.seed, "any", a.name, self.step) % len(srcs)]
                i = next(j for j, e in enumerate(box) if e[0] == s and m[4] in (fakes.ANY_TAG, e[1]))
            src, tag, blob, e = box.pop(i)
            e["taken"] = True
            self.log("recv", a.name, src, tag, len(blob))
            self.reply(a, (src, tag, blob))
        elif k == "time":
            t = self.clock_off + self.simtime
            if self.knobs["jump"]:
                j = mix(self.seed, "clk", self.inc, a.name, self.step)
                if j % 4 == 0:
                    t += ((j >> 8) % 20001) - 10000  # a clock that jumps by hours, either way
                    self.fire("clock_jump")
            self.log("time", a.name)
            self.reply(a, t)
        elif k == "sleep":
            self.simtime = max(self.simtime, m[2] if len(m) > 2 else self.simtime)
            self.reply(a, None)
        elif k == "abort":
            self.log("abort", a.name)
            a.exc = ("Abort", str(m[1]))
            job.aborting = 0
            self.kill_job(job)
        elif k == "exc":
            a.exc = m[1]
            self.log("exc", a.name, m[1][0])
            self.reply(a, None)
        elif k == "done":
            a.result = m[1]
            self.log("done", a.name)
            self.reply(a, None)
        elif k == "compile":
            a.exc = m[1]
            self.reply(a, None)
        elif k == "note":
            b = repr(m[1])
            self.log("note", a.name, b if len(b) < 160 else b[:120] + "... " + hashlib.sha1(pickle.dumps(m[1])).hexdigest()[:12])
            if hasattr(self.obs, "on_note"):
                self.obs.on_note(self, a, m[1])
            self.reply(a, None)
        else:
            raise HarnessError(f"unknown request {k}")

    def classify(self, r):
        op = r["op"]
        if op == "open":
            fl = r["a"]
            return "open_w" if (fl & O_ACCMODE) or (fl & (O_CREAT | O_TRUNC)) else "open_r"
        return op

    def grant_fs(self, a, conn, r):
        op = r["op"]
        path = self.rel(r["p1"])
        cls = self.classify(r)
        if op == "deny":
            self.log("deny", a.name, path)
            if self.obs:
                self.obs.on_outside(self, a, OPS.get(r["a"], "?"), r["p1"])
            return self.fs_reply(a, conn, GO, 0, 0)
        if op == "hello":
            # pid differs from the rank's own: a command it runs
            self.log("hello", a.name, path)
            if a.main_seen:
                self.probe("subprocess")
            a.main_seen = True
            return self.fs_reply(a, conn, GO, 0, 0)
        if op == "stat":
            self.log("stat", a.name, path)
            return self.fs_reply(a, conn, GO, 0, 0)
        if op not in FAULTABLE:
            self.log(op, a.name, path)
            return self.fs_reply(a, conn, GO, 0, 0)
        a.nfs += 1
        n = a.nfs
        if self.plan.get("record_ops"):
            self.oplist.setdefault(f"{self.inc}:{a.name}", []).append((cls, path))
        if self.obs and op in ("unlink", "rename", "rmdir"):
            self.obs.on_remove(self, a, op, r["p1"], r["p2"])
        if self.obs and cls in ("open_w", "mkdir", "trunc", "link"):
            self.obs.on_mutate(self, a, cls, r["p1"])
        if self.journal:
            self.journal.before(op, r["p1"])
        act, err, cnt = GO, 0, 0
        # persistent errors
        pk = self.persist.get("*")
        if pk and cls in pk["ops"]:
            act, err = ERR, pk["err"]
            self.fire("persist_" + pk["name"])
        for f in self.faults.get((a.name, n), []):
            kind = f["kind"]
            if kind == "err":
                if cls == "opendir":  # glob treats an unreadable directory as empty: not injected
                    continue
                names = ERRNOS[cls]
                nm = names[f.get("e", 0) % len(names)]
                act, err = ERR, getattr(errno, nm)
                self.fire(f"{cls}_{nm}")
                if f.get("persist") and cls in ("write", "open_w", "trunc"):
                    self.persist["*"] = dict(ops=("write", "open_w", "trunc", "mkdir"), err=errno.ENOSPC, name="ENOSPC")
                if f.get("partial") and cls == "write" and r["a"] > 1:
                    # the disk fills up in the middle of a write
                    act, cnt = SHORT, 1 + f["partial"] % (r["a"] - 1)
                    self.persist["*"] = dict(ops=("write", "open_w", "trunc", "mkdir"), err=errno.ENOSPC, name="ENOSPC")
                    self.fire("write_partial_then_full")
            elif kind in ("crash", "power", "kill"):
                mode = f.get("mode", "before")
                if mode == "torn" and op != "write":
                    mode = "after"
                self.fire(f"{kind}_{mode}")
                self.fire(f"{kind}_at_{cls}")
                self.log(kind, a.name, cls, path, mode)
                if mode == "before":
                    conn.send(REP.pack(KILL, 0, 0))
                elif mode == "torn":
                    conn.send(REP.pack(TEAR, 0, f.get("arg", 0) % max(1, r["a"])))
                else:
                    conn.send(REP.pack(AFTER, 0, 0))
                self.crash(a, kind, f)
                return
        if act == GO and cls in ("read", "write") and r["a"] > 1 and self.knobs["short"]:
            z = random.Random(mix(self.seed, "short", self.inc, a.name, n))
            if z.random() < self.knobs["short"]:
                act, cnt = SHORT, z.randint(1, r["a"] - 1)
                self.fire("short_" + cls)
        if act == GO and cls in ("read", "write") and self.knobs["eintr"] and r["pid"] == a.pid:
            if (mix(self.seed, "eintr", self.inc, a.name, n) % 1000) < 1000 * self.knobs["eintr"]:
                act, err = ERR, errno.EINTR
                self.fire("eintr")
        if op == "opendir" and act == GO and self.knobs["perm"]:
            cnt = (mix(self.seed, "perm", self.inc, a.name, n) & 0x7FFFFFFF) | 1
            self.fire("dir_permuted")
        self.log(cls, a.name, path, r["a"] if op in ("read", "write", "trunc") else 0, r["b"], act, err, cnt)
        self.fs_reply(a, conn, act, err, cnt)

    def fs_reply(self, a, conn, act, err, n):
        conn.send(REP.pack(act, err, n))
        self.after(a)

    def crash(self, a, kind, f):
        # let the dying process finish dying
        try:
            self.wait_dead(a)
        finally:
            pass
        if kind == "kill":
            # only this rank's process dies; the launcher notices later
            a.exc = ("SIGKILL", "")
            if a.job.aborting is None:
                a.job.aborting = f.get("delay", 5)
            return
        jobs = self.jobs if kind == "power" or f.get("scope") == "all" else [a.job]
        for job in jobs:
            self.kill_job(job)
        self.crashed = kind
        if kind == "power":
            self.journal.power_loss(random.Random(mix(self.seed, "power", self.inc, f.get("arg", 0))), self)

    def wait_dead(self, a):
        # the process (possibly a command run by the rank) kills itself
        # after its reply; then the whole rank goes down with it
        for c in list(a.conns):
            pass
        t0 = _time.monotonic()
        # wait for EOF on the connection used
        if a.exited:
            return
        while _time.monotonic() - t0 < 5:
            po = select.poll()
            for c in a.conns:
                po.register(c, select.POLLIN | select.POLLHUP)
            po.register(a.sock, select.POLLIN | select.POLLHUP)
            evs = po.poll(200)
            stop = False
            for fd, ev in evs:
                if ev & (select.POLLHUP | select.POLLIN):
                    stop = True
            if stop:
                break
        self.kill_actor(a)
        a.status = -9


class Journal:
    """Durable state for power-loss faults: what was on disk when the
    incarnation started, updated by fsync; everything else may be lost."""

    def __init__(self, prefix, dirs):
        self.prefix = prefix
        self.dirs = [os.path.join(prefix, d) for d in dirs]
        self.durable = self.scan()
        self.removed = {}

    def scan(self):
        out = {}
        for d in self.dirs:
            for dp, _, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(dp, f)
                    with open(p, "rb") as fh:
                        out[p] = fh.read()
        return out

    def before(self, op, path):
        if op == "unlink" and os.path.isfile(path) and any(path.startswith(d + "/") for d in self.dirs):
            with open(path, "rb") as fh:
                self.removed[path] = fh.read()

    def power_loss(self, rng, sim):
        now = self.scan()
        for p in sorted(set(now) | set(self.durable) | set(self.removed)):
            cur, old = now.get(p), self.durable.get(p)
            if cur is not None and cur == old:
                continue
            opts = []
            if cur is not None:
                opts += [cur, cur[: rng.randint(0, len(cur))], b"", cur[: rng.randint(0, len(cur))] if cur else b""]
                z = rng.randint(0, len(cur))
                opts.append(cur[:z] + b"\0" * (len(cur) - z))
            else:
                opts.append(None)
                if p in self.removed:
                    opts.append(self.removed[p])
            opts.append(old)  # None: the file's creation was lost
            new = rng.choice(opts)
            if new is None:
                if os.path.exists(p):
                    os.unlink(p)
                    sim.fire("power_lost_file")
            elif new != cur:
                with open(p, "wb") as fh:
                    fh.write(new)
                os.chmod(p, 0o666)
                sim.fire("power_resurrected" if cur is None else "power_torn_file")


def group_cpu(pgid):
    """CPU ticks used by the processes of a group."""
    tot = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    x = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(x[2]) == pgid:
                tot += int(x[11]) + int(x[12])
    return tot


def spawn(sim, a, sc):
    """Start the rank in a fresh interpreter."""
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    blob = os.path.join(sim.root, f"spawn_i{sim.inc}_{a.name}.pkl")
    with open(blob, "wb") as f:
        pickle.dump(dict(plan=sim.plan, root=sim.root, inc=sim.inc, sockpath=sim.sockpath, shim=sim.shim, uid=sim.uid, knobs=sim.knobs, seed=sim.seed,
                         aid=a.aid, name=a.name, rank=a.rank, spec=a.job.spec, fd=sc.fileno()), f)
    env = {k: v for k, v in os.environ.items() if not k.startswith("VSIM_") or k == "VSIM_REPO"}
    return subprocess.Popen([sys.executable, "-B", "-m", "vsim.spawned", blob], cwd=here, env=env, pass_fds=[sc.fileno()], start_new_session=True,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


# ---------------------------------------------------------------- child side
def libshim():
    lib = ctypes.CDLL(None)
    lib.vsim_attach.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
    return lib


def fresh_root(base):
    import tempfile
    d = tempfile.mkdtemp(prefix=f"vsim-{os.environ.get('VSIM_RUN', '0')}-", dir=base)
    os.chmod(d, 0o755)
    fs = os.path.join(d, "fs")
    os.mkdir(fs)
    os.chmod(fs, 0o777)
    os.mkdir(os.path.join(d, "log"))
    os.chmod(os.path.join(d, "log"), 0o777)
    return d


def drop_root(d):
    shutil.rmtree(d, ignore_errors=True)
