"""Stand-ins for what is not installed here: mpi4py, haccytrees, diffsky.

mpi4py: every call is a request to the simulator, which owns message delivery,
collective completion and the choice of who runs.  haccytrees: reads the
simulated coreforest files with h5py (real I/O under the file-system seam).
diffsky: its load_flat_hdf5 is the one in diffmah.data_loaders.io_utils.
"""
import pickle
import struct
import sys
import types

import numpy as np

RT = types.SimpleNamespace(sock=None, rank=0, size=1, sim=False)


# ------------------------------------------------------------------ wire
def send_msg(sock, obj):
    b = pickle.dumps(obj, protocol=5)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def recv_exact(sock, n):
    out = bytearray()
    while len(out) < n:
        c = sock.recv(n - len(out))
        if not c:
            raise EOFError("simulator closed the connection")
        out += c
    return bytes(out)


def recv_msg(sock):
    (n,) = struct.unpack("<Q", recv_exact(sock, 8))
    return pickle.loads(recv_exact(sock, n))


def rpc(*msg):
    send_msg(RT.sock, msg)
    rep = recv_msg(RT.sock)
    if rep[0] == "raise":
        raise MPIException(rep[1])
    return rep[1]


class MPIException(RuntimeError):
    pass


# ------------------------------------------------------------------ MPI
class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) and a.ndim else (a if a >= b else b))
MIN = Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) and a.ndim else (a if a <= b else b))
LAND = Op("LAND", lambda a, b: bool(a) and bool(b))
LOR = Op("LOR", lambda a, b: bool(a) or bool(b))
ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED = -2, -1, -3, -32766


class Status:
    def __init__(self):
        self.source, self.tag = None, None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, f=None):
        self.f, self.done, self.val = f, f is None, None

    def wait(self, status=None):
        if not self.done:
            self.val, self.done = self.f(), True
        return self.val

    Wait = wait

    def test(self, status=None):
        return (True, self.wait())

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


def _buf(x):
    if isinstance(x, (list, tuple)):
        x = x[0]
    return np.asarray(x)


class Comm:
    def __init__(self, cid, members):
        self._cid, self._members = cid, members  # members: world ranks
        self._nsplit = 0

    @property
    def rank(self):
        return self._members.index(RT.rank)

    @property
    def size(self):
        return len(self._members)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _coll(self, kind, root, blob):
        if not RT.sim:
            return [blob]
        return rpc("coll", self._cid, self.rank, self.size, kind, root, blob)

    # -- collectives
    def Barrier(self):
        self._coll("barrier", None, b"")

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        b = pickle.dumps(obj, 5) if self.rank == root else None
        r = self._coll("bcast", root, b)
        return obj if self.rank == root else pickle.loads(r[root])

    def scatter(self, sendobj=None, root=0):
        b = None
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(sendobj)}")
            b = [pickle.dumps(x, 5) for x in sendobj]
        r = self._coll("scatter", root, b)
        return sendobj[self.rank] if self.rank == root else pickle.loads(r[root][self.rank])

    def gather(self, sendobj, root=0):
        r = self._coll("gather", root, pickle.dumps(sendobj, 5))
        return [pickle.loads(x) for x in r] if self.rank == root else None

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._coll("allgather", None, pickle.dumps(sendobj, 5))]

    def alltoall(self, sendobj):
        r = self._coll("alltoall", None, [pickle.dumps(x, 5) for x in sendobj])
        return [pickle.loads(x[self.rank]) for x in r]

    def _fold(self, r, op):
        xs = [pickle.loads(x) for x in r]
        acc = xs[0]
        for x in xs[1:]:
            acc = (op or SUM)(acc, x)
        return acc

    def reduce(self, sendobj, op=SUM, root=0):
        r = self._coll("reduce:" + op.name, root, pickle.dumps(sendobj, 5))
        return self._fold(r, op) if self.rank == root else None

    def allreduce(self, sendobj, op=SUM):
        return self._fold(self._coll("allreduce:" + op.name, None, pickle.dumps(sendobj, 5)), op)

    # -- buffer variants
    def Bcast(self, buf, root=0):
        a = _buf(buf)
        a[...] = self.bcast(a, root).reshape(a.shape)

    def Reduce(self, s, r, op=SUM, root=0):
        v = self.reduce(_buf(s), op, root)
        if self.rank == root:
            _buf(r)[...] = v

    def Allreduce(self, s, r, op=SUM):
        _buf(r)[...] = self.allreduce(_buf(s), op)

    def Gather(self, s, r, root=0):
        v = self.gather(_buf(s), root)
        if self.rank == root:
            a = _buf(r)
            a[...] = np.concatenate([np.ravel(x) for x in v]).reshape(a.shape)

    def Gatherv(self, s, r, root=0):
        v = self.gather(_buf(s), root)
        if self.rank == root:
            a = _buf(r)
            f = np.concatenate([np.ravel(x) for x in v])
            a.reshape(-1)[: f.size] = f

    def Allgather(self, s, r):
        v = self.allgather(_buf(s))
        a = _buf(r)
        a[...] = np.concatenate([np.ravel(x) for x in v]).reshape(a.shape)

    def Scatter(self, s, r, root=0):
        parts = np.array_split(np.ravel(_buf(s)), self.size) if self.rank == root else None
        a = _buf(r)
        a[...] = np.asarray(self.scatter(parts, root)).reshape(a.shape)

    def Scatterv(self, s, r, root=0):
        parts = None
        if self.rank == root:
            flat = np.ravel(_buf(s))
            counts = s[1] if isinstance(s, (list, tuple)) and len(s) > 1 else None
            if isinstance(counts, (tuple, list)) and len(counts) == 2 and np.ndim(counts[0]):
                counts, displs = counts
            else:
                displs = None
            if counts is None:
                parts = np.array_split(flat, self.size)
            else:
                if displs is None:
                    displs = np.concatenate([[0], np.cumsum(counts)[:-1]])
                parts = [flat[d : d + c] for c, d in zip(counts, displs)]
        a = _buf(r)
        v = np.asarray(self.scatter(parts, root))
        a.reshape(-1)[: v.size] = v

    # -- point to point
    def send(self, obj, dest, tag=0):
        if dest == PROC_NULL:
            return
        rpc("send", self._cid, self.rank, dest, tag, pickle.dumps(obj, 5), "std")

    def ssend(self, obj, dest, tag=0):
        rpc("send", self._cid, self.rank, dest, tag, pickle.dumps(obj, 5), "sync")

    def bsend(self, obj, dest, tag=0):
        rpc("send", self._cid, self.rank, dest, tag, pickle.dumps(obj, 5), "buf")

    def isend(self, obj, dest, tag=0):
        rpc("send", self._cid, self.rank, dest, tag, pickle.dumps(obj, 5), "buf")
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, blob = rpc("recv", self._cid, self.rank, source, tag)
        if status is not None:
            status.source, status.tag = src, tg
        return pickle.loads(blob)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(source=source, tag=recvtag, status=status)

    def Send(self, buf, dest, tag=0):
        self.send(np.array(_buf(buf)), dest, tag)

    def Isend(self, buf, dest, tag=0):
        return self.isend(np.array(_buf(buf)), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        v = np.asarray(self.recv(source=source, tag=tag, status=status))
        a = _buf(buf)
        if v.size > a.size:
            raise MPIException("message truncated")
        a.reshape(-1)[: v.size] = v.reshape(-1)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(buf, source, tag))

    # -- communicators
    def Split(self, color=0, key=0):
        infos = self.allgather((color, key, RT.rank))
        self._nsplit += 1
        mem = [w for c, k, w in sorted(((c, k, w) for c, k, w in infos if c == color), key=lambda x: (x[1], infos.index(x)))]
        return Comm(f"{self._cid}/s{self._nsplit}.{color}", mem)

    def Dup(self):
        self.Barrier()
        self._nsplit += 1
        return Comm(f"{self._cid}/d{self._nsplit}", list(self._members))

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=1):
        rpc("abort", code)


def make_comm(cid, members):
    return Comm(cid, list(members))


def install_mpi():
    m = types.ModuleType("mpi4py")
    M = types.ModuleType("mpi4py.MPI")
    for k in ("SUM", "PROD", "MAX", "MIN", "LAND", "LOR", "ANY_SOURCE", "ANY_TAG", "PROC_NULL", "UNDEFINED", "Status", "Request", "Comm", "Op"):
        setattr(M, k, globals()[k])
    M.Intracomm = Comm
    M.Exception = MPIException
    M.COMM_WORLD = Comm("w", [0])
    M.DOUBLE = M.FLOAT = M.INT = M.LONG = M.BYTE = None
    M.Is_initialized = lambda: True
    M.Is_finalized = lambda: False
    M.Init = M.Finalize = lambda: None
    M.Wtime = lambda: sys.modules["time"].time()
    m.MPI = M
    m.rc = types.SimpleNamespace()
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, M
    return M


def enter_world(size, rank):
    """Called in a forked rank: COMM_WORLD keeps its identity."""
    RT.rank, RT.size, RT.sim = rank, size, True
    W = sys.modules["mpi4py.MPI"].COMM_WORLD
    W._members = list(range(size))


# ------------------------------------------------------------------ haccytrees
class _Cosmo:
    def __init__(self, Om, w0, wa, h):
        self.Omega_m, self.w0, self.wa, self.h = Om, w0, wa, h


class _Sim:
    def __init__(self, name, steps, zs, cosmo):
        self.name, self.cosmotools_steps, self._z, self.cosmo = name, list(steps), dict(zip(steps, zs)), cosmo

    def step2z(self, steps):
        return np.array([self._z[int(s)] for s in np.atleast_1d(steps)])


def _mk_sims():
    n = 24
    steps = np.linspace(80, 499, n).astype(int)
    out = {}
    for name, (Om, w0, wa, h) in {
        "LastJourney": (0.310, -1.0, 0.0, 0.6766),
        "DiscoveryLCDM": (0.3096, -1.0, 0.0, 0.6766),
        "DiscoveryW0WA": (0.3096, -0.45, -1.79, 0.72),
    }.items():
        zs = 1.0 / np.linspace(0.16, 1.0, n) - 1.0
        if name == "DiscoveryW0WA":
            zs = 1.0 / np.linspace(0.17, 1.0, n) - 1.0
        out[name] = _Sim(name, steps, zs, _Cosmo(Om, w0, wa, h))
    return out


class Simulation:
    simulations = _mk_sims()

    @staticmethod
    def parse_config(name):
        if name.endswith("CustomSim"):
            s = _mk_sims()["DiscoveryW0WA"]
            s.name = name
            return s
        raise FileNotFoundError(name)


def chunk_bounds(nroots, nchunks, chunknum):
    """Contiguous blocks of whole trees, as haccytrees splits a file."""
    size = nroots // nchunks
    lo = size * chunknum
    hi = nroots if chunknum == nchunks - 1 else lo + size
    return lo, hi


def corematrix_reader(filename, calculate_secondary_host_row=False, nchunks=None, chunknum=None, simulation=None, **kw):
    import h5py

    assert simulation is not None
    out = {}
    with h5py.File(filename, "r") as f:
        n = f["infall_tree_node_mass"].shape[0]
        if nchunks is None or chunknum is None:
            lo, hi = 0, n
        else:
            if not 0 <= chunknum < nchunks:
                raise ValueError("invalid chunknum")
            lo, hi = chunk_bounds(n, int(nchunks), int(chunknum))
        for k in f.keys():
            out[k] = f[k][lo:hi]
    return out


def install_hacc():
    m = types.ModuleType("haccytrees")
    c = types.ModuleType("haccytrees.coretrees")
    c.corematrix_reader = corematrix_reader
    m.Simulation, m.coretrees = Simulation, c
    sys.modules["haccytrees"], sys.modules["haccytrees.coretrees"] = m, c


def install_diffsky():
    m = types.ModuleType("diffsky")
    d = types.ModuleType("diffsky.data_loaders")

    def load_flat_hdf5(*a, **kw):
        from diffmah.data_loaders import io_utils

        return io_utils.load_flat_hdf5(*a, **kw)

    d.load_flat_hdf5 = load_flat_hdf5
    m.data_loaders = d
    sys.modules["diffsky"], sys.modules["diffsky.data_loaders"] = m, d


def install_all():
    install_mpi()
    install_hacc()
    install_diffsky()
