"""A simulated mpi4py.

Semantics follow the MPI standard where a program may rely on it, and are
adversarial where it may not: sends may be buffered or synchronous, collectives
may or may not synchronise, a predefined commutative reduction may be folded in
any order, messages between different pairs overtake each other freely (never
within one pair and tag).  Erroneous use (mismatching collectives, truncation,
non-contiguous or mistyped buffers) is reported as MPIMisuse.  Objects travel
pickled, arrays as copies, so ranks never share memory.
"""

from bisect import insort
from collections import deque

import numpy as np

from . import simset
from .core import MPIMisuse, SimKilled, current


def _entries(obj):
    if isinstance(obj, dict):
        return len(obj)
    return sum(_entries(x) for x in obj) if isinstance(obj, (list, tuple)) else 0


def _pack(obj):
    """Pickle a message; with a message limit set on this rank, one with too many dictionary entries does not fit."""
    ctx = current()
    limit = getattr(ctx, "msg_limit", None)
    if limit is not None and _entries(obj) > limit:
        ctx.sim.fire("message_too_large")
        raise OverflowError(f"a message of {_entries(obj)} entries does not fit (injected limit {limit})")
    return simset.dumps(obj, 5)


class Message:
    __slots__ = ("src", "dst", "tag", "space", "data", "kind", "matched", "mid")

    def __init__(self, src, dst, tag, space, kind, data, mid):
        self.src, self.dst, self.tag, self.space, self.kind, self.data = src, dst, tag, space, kind, data
        self.matched = False
        self.mid = mid


class Network:
    def __init__(self, sim):
        self.sim = sim
        self.flight = {}  # (src, dst, space) -> deque, never empty
        self.order = []  # the same keys, sorted
        self.box = {}  # (dst, space) -> list in order of arrival
        self.coll = {}  # (comm id, index) -> signature
        self.sent = 0
        self.delivered = 0
        self.bytes = 0
        self.bcast_log = []
        sim.net = self

    def post(self, src, dst, tag, space, kind, data):
        self.sent += 1
        m = Message(src, dst, tag, space, kind, data, self.sent)
        key = (src, dst, space)
        q = self.flight.get(key)
        if q is None:
            q = self.flight[key] = deque()
            insort(self.order, (src, dst, space[0], space[1] if space[1] == "p" else f"c{space[1][1]:08d}", key))
        q.append(m)
        return m

    def deliverable(self):
        return [t[4] for t in self.order]

    def deliver(self, key):
        q = self.flight[key]
        m = q.popleft()
        if not q:
            del self.flight[key]
            self.order = [t for t in self.order if t[4] != key]
        self.delivered += 1
        self.box.setdefault((m.dst, m.space), []).append(m)

    def match(self, dst, space, source, tag):
        for m in self.box.get((dst, space), ()):
            if (source == ANY_SOURCE or m.src == source) and (tag == ANY_TAG or m.tag == tag):
                return m
        return None

    def take(self, m):
        b = self.box[(m.dst, m.space)]
        b.remove(m)
        if not b:
            del self.box[(m.dst, m.space)]
        m.matched = True

    def leftovers(self):
        left = [m for q in self.flight.values() for m in q] + [m for q in self.box.values() for m in q]
        return [(m.src, m.dst, str(m.tag)) for m in left]


ANY_SOURCE = -2
ANY_TAG = -1


class Op:
    def __init__(self, name, py, npf):
        self.name, self.py, self.npf = name, py, npf

    def __call__(self, a, b):
        return self.py(a, b)

    def __repr__(self):
        return self.name


def _logical(f):
    return lambda a, b: bool(f(bool(a), bool(b)))


SUM = Op("SUM", lambda a, b: a + b, np.add)
PROD = Op("PROD", lambda a, b: a * b, np.multiply)
MAX = Op("MAX", lambda a, b: max(a, b), np.maximum)
MIN = Op("MIN", lambda a, b: min(a, b), np.minimum)
LOR = Op("LOR", _logical(lambda a, b: a or b), np.logical_or)
LAND = Op("LAND", _logical(lambda a, b: a and b), np.logical_and)
BOR = Op("BOR", lambda a, b: a | b, np.bitwise_or)
BAND = Op("BAND", lambda a, b: a & b, np.bitwise_and)


class _Const:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


IN_PLACE = _Const("IN_PLACE")
_DTYPES = {
    "DOUBLE": "f8", "FLOAT": "f4", "INT": "i4", "LONG": "i8", "INT64_T": "i8", "INT32_T": "i4", "UINT64_T": "u8",
    "DOUBLE_COMPLEX": "c16", "C_DOUBLE_COMPLEX": "c16", "COMPLEX16": "c16", "COMPLEX": "c8", "BYTE": "u1", "BOOL": "?",
    "CHAR": "S1", "UNSIGNED_LONG": "u8", "UINT32_T": "u4", "INT8_T": "i1",
}  # fmt: skip


class Datatype:
    def __init__(self, name):
        self.name = name
        self.dtype = np.dtype(_DTYPES[name])


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.nbytes = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.nbytes


class Request:
    def __init__(self, wait, test=None):
        self._wait, self._test, self._done, self._val = wait, test, False, None

    def wait(self, status=None):
        if not self._done:
            self._val = self._wait()
            self._done = True
        return self._val

    Wait = wait

    def test(self, status=None):
        if not self._done and self._test is not None and not self._test():
            return False, None
        return True, self.wait()

    Test = test

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


def _buf(spec, need_write=False):
    """Array behind an mpi4py buffer specification."""
    arr = spec
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        count = None
        for x in spec[1:]:
            if isinstance(x, (int, np.integer)):
                count = int(x)
        if count is not None:
            return np.asarray(arr).reshape(-1)[:count]
    if isinstance(arr, (bytearray, memoryview)):
        arr = np.frombuffer(arr, dtype=np.uint8)
    if not isinstance(arr, np.ndarray):
        raise MPIMisuse(f"object of type {type(arr).__name__} used as a communication buffer")
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise MPIMisuse("ndarray is not contiguous")
    if need_write and not arr.flags.writeable:
        raise MPIMisuse("receive buffer is read-only")
    return arr


def _assign(arr, data, what):
    if arr.dtype != data.dtype:
        raise MPIMisuse(f"{what}: sent {data.dtype}, receive buffer holds {arr.dtype}")
    if data.size > arr.size:
        raise MPIMisuse(f"{what}: message truncated, {data.size} elements sent, room for {arr.size}")
    order = "C" if arr.flags.c_contiguous else "F"
    flat = arr.reshape(-1, order=order) if order == "C" else arr.T.reshape(-1)
    flat[: data.size] = data
    if not np.shares_memory(flat, arr) and arr.size:
        raise MPIMisuse("receive buffer is not contiguous")


def _flat(arr):
    return (arr.reshape(-1) if arr.flags.c_contiguous else arr.T.reshape(-1)).copy()


class Comm:
    def __init__(self, sim, me, cid="W", members=None):
        self._sim = sim
        self._global = me
        self._cid = cid
        self._members = list(range(sim.n)) if members is None else members
        self._rank = self._members.index(me)
        self._count = 0

    # -- basics
    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._members)

    name = "MPI_COMM_WORLD"

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._members)

    def _enter(self, what):
        """Every MPI call is an interaction point: fault injection, then the scheduler decides who runs."""
        sim = self._sim
        ctx = current()
        if ctx is None:
            raise RuntimeError("MPI used outside of a simulated rank")
        if ctx.rank != self._global:
            raise RuntimeError("communicator of another rank used")
        sim.yield_point(what)
        n = ctx.counters["mpi"] = ctx.counters.get("mpi", 0) + 1
        if len(ctx.op_log) < 20000:
            ctx.op_log.append(what)
        for f in sim.faults:
            if f["kind"] == "kill_job" and f.get("call") == n and f["rank"] == ctx.rank:
                f["at"] = 0  # takes effect at the next interaction point
            if f["kind"] == "rank_error" and f["rank"] == ctx.rank and f["at"] == n and not f.get("_done"):
                f["_done"] = True
                sim.fire("rank_error:" + f["exc"])
                raise {"OSError": OSError(5, "Input/output error (injected)"),
                       "MemoryError": MemoryError("injected"),
                       "RuntimeError": RuntimeError("injected"),
                       "KeyboardInterrupt": KeyboardInterrupt("injected")}[f["exc"]]
        return ctx

    def _misuse(self, text):
        self._sim.misuse.append(f"rank {self._rank}: {text}")
        raise SimKilled()

    def _wait_until(self, what, pred):
        if not pred():
            self._sim.yield_point(what, pred)

    def _peer(self, r, what):
        if not isinstance(r, (int, np.integer)) or not 0 <= r < self.size:
            self._misuse(f"{what}: invalid rank {r}")
        return self._members[int(r)]

    # -- point to point
    def _send_raw(self, dest, tag, kind, data, what, sync=None, space="p"):
        sim = self._sim
        m = sim.net.post(self._global, dest, tag, (self._cid, space), kind, data)
        if sync is None:
            sync = dest != self._global and sim.flip(sim.p_sync)
        if sync:
            self._wait_until(what + "(sync)", lambda: m.matched)
        return m

    def _recv_raw(self, source, tag, what, space="p"):
        net = self._sim.net
        sp = (self._cid, space)
        src = source if source == ANY_SOURCE else source
        self._wait_until(what, lambda: net.match(self._global, sp, src, tag) is not None)
        m = net.match(self._global, sp, src, tag)
        net.take(m)
        return m

    def send(self, obj, dest, tag=0):
        self._enter(f"send->{dest}#{tag}")
        self._send_raw(self._peer(dest, "send"), tag, "obj", _pack(obj), f"send->{dest}#{tag}")

    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._enter(f"ssend->{dest}#{tag}")
        self._send_raw(self._peer(dest, "ssend"), tag, "obj", _pack(obj), f"ssend->{dest}#{tag}", sync=True)

    def isend(self, obj, dest, tag=0):
        self._enter(f"isend->{dest}#{tag}")
        m = self._send_raw(self._peer(dest, "isend"), tag, "obj", _pack(obj), "isend", sync=False)
        return Request(lambda: self._wait_until("isend.wait", lambda: True), lambda: True if m else True)

    def _status(self, status, m):
        if status is not None:
            status.source = self._members.index(m.src)
            status.tag = m.tag
            status.nbytes = len(m.data) if m.kind == "obj" else m.data.nbytes

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._enter(f"recv<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "recv")
        m = self._recv_raw(src, tag, f"recv<-{source}#{tag}")
        if m.kind != "obj":
            self._misuse("recv matched a buffer message")
        self._status(status, m)
        return simset.loads(m.data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._enter(f"irecv<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "irecv")
        sp = (self._cid, "p")
        return Request(lambda: simset.loads(self._recv_raw(src, tag, f"irecv<-{source}#{tag}").data),
                       lambda: self._sim.net.match(self._global, sp, src, tag) is not None)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._enter(f"sendrecv->{dest}<-{source}")
        self._send_raw(self._peer(dest, "sendrecv"), sendtag, "obj", _pack(sendobj), "sendrecv", sync=False)
        src = source if source == ANY_SOURCE else self._peer(source, "sendrecv")
        m = self._recv_raw(src, recvtag, "sendrecv")
        self._status(status, m)
        return simset.loads(m.data)

    def Send(self, buf, dest, tag=0):
        self._enter(f"Send->{dest}#{tag}")
        self._send_raw(self._peer(dest, "Send"), tag, "buf", self._get(buf), f"Send->{dest}#{tag}")

    def Isend(self, buf, dest, tag=0):
        self._enter(f"Isend->{dest}#{tag}")
        self._send_raw(self._peer(dest, "Isend"), tag, "buf", self._get(buf), "Isend", sync=False)
        return Request(lambda: None, lambda: True)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._enter(f"Recv<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "Recv")
        m = self._recv_raw(src, tag, f"Recv<-{source}#{tag}")
        if m.kind != "buf":
            self._misuse("Recv matched an object message")
        self._status(status, m)
        self._put(buf, m.data, "Recv")

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        self._enter(f"Irecv<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "Irecv")
        sp = (self._cid, "p")
        return Request(lambda: self._put(buf, self._recv_raw(src, tag, "Irecv").data, "Irecv"),
                       lambda: self._sim.net.match(self._global, sp, src, tag) is not None)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._enter(f"probe<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "probe")
        sp = (self._cid, "p")
        self._wait_until("probe", lambda: self._sim.net.match(self._global, sp, src, tag) is not None)
        self._status(status, self._sim.net.match(self._global, sp, src, tag))
        return True

    Probe = probe

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._enter(f"iprobe<-{source}#{tag}")
        src = source if source == ANY_SOURCE else self._peer(source, "iprobe")
        m = self._sim.net.match(self._global, (self._cid, "p"), src, tag)
        if m is not None:
            self._status(status, m)
        return m is not None

    Iprobe = iprobe

    def _get(self, spec):
        try:
            return _flat(_buf(spec))
        except MPIMisuse as e:
            self._misuse(str(e))

    def _put(self, spec, data, what):
        try:
            _assign(_buf(spec, need_write=True), data, what)
        except MPIMisuse as e:
            self._misuse(str(e))

    # -- collectives
    def _collective(self, sig):
        """Register this call and check it is the same collective the other ranks are in."""
        self._enter(sig)
        self._count += 1
        key = (self._cid, self._count)
        first = self._sim.net.coll.setdefault(key, (sig, self._rank))
        if first[0] != sig:
            self._misuse(f"collective #{self._count} is {sig} here but {first[0]} on rank {first[1]}")
        return ("c", self._count)

    def _from_root(self, sp, root, kind, data, what):
        """Root's payload to everybody else; root may or may not wait for the receivers."""
        g = self._members[root]
        if self._rank == root:
            ms = [self._sim.net.post(g, d, 0, (self._cid, sp), kind, data) for d in self._members if d != g]
            if ms and self._sim.flip(self._sim.p_sync):
                self._wait_until(what + "(sync)", lambda: all(m.matched for m in ms))
            return None
        return self._recv_raw(g, 0, what, sp).data

    def _to_root(self, sp, root, kind, data, what):
        """Everybody's payload to root, indexed by rank there; contributors may or may not wait."""
        g = self._members[root]
        if self._rank != root:
            m = self._sim.net.post(self._global, g, 0, (self._cid, sp), kind, data)
            if self._sim.flip(self._sim.p_sync):
                self._wait_until(what + "(sync)", lambda: m.matched)
            return None
        out = [None] * self.size
        out[root] = data
        for i, src in enumerate(self._members):
            if i != root:
                out[i] = self._recv_raw(src, 0, what, sp).data
        return out

    def _all_to_all(self, sp, kind, datas, what):
        for i, d in enumerate(self._members):
            if i != self._rank:
                self._sim.net.post(self._global, d, 0, (self._cid, sp), kind, datas[i])
        out = [None] * self.size
        out[self._rank] = datas[self._rank]
        for i, src in enumerate(self._members):
            if i != self._rank:
                out[i] = self._recv_raw(src, 0, what, sp).data
        return out

    def _order(self, op):
        """Order in which a reduction is folded: any for MPI's commutative operations."""
        idx = list(range(self.size))
        if isinstance(op, Op):
            for i in range(len(idx) - 1, 0, -1):
                j = self._sim.choose(i + 1)
                idx[i], idx[j] = idx[j], idx[i]
        return idx

    def _check_root(self, root, what):
        if not isinstance(root, (int, np.integer)) or not 0 <= root < self.size:
            self._misuse(f"{what}: invalid root {root}")
        return int(root)

    def bcast(self, obj, root=0):
        root = self._check_root(root, "bcast")
        sp = self._collective(f"bcast(root={root})")
        data = _pack(obj) if self._rank == root else None
        got = self._from_root(sp, root, "obj", data, f"bcast(root={root})")
        return obj if self._rank == root else simset.loads(got)

    def Bcast(self, buf, root=0):
        root = self._check_root(root, "Bcast")
        sp = self._collective(f"Bcast(root={root})")
        if self._rank == root:
            self._from_root(sp, root, "buf", self._get(buf), f"Bcast(root={root})")
        else:
            data = self._from_root(sp, root, "buf", None, f"Bcast(root={root})")
            arr = _buf(buf, need_write=True)
            if arr.size != data.size:
                self._misuse(f"Bcast: root sends {data.size} elements, this rank expects {arr.size}")
            self._put(buf, data, "Bcast")

    def reduce(self, sendobj, op=SUM, root=0):
        root = self._check_root(root, "reduce")
        sp = self._collective(f"reduce(root={root})")
        got = self._to_root(sp, root, "obj", _pack(sendobj), f"reduce(root={root})")
        if self._rank != root:
            return None
        return self._fold_objs(got, op)

    def _fold_objs(self, blobs, op):
        idx = self._order(op)
        acc = simset.loads(blobs[idx[0]])
        for i in idx[1:]:
            acc = op(acc, simset.loads(blobs[i]))
        return acc

    def allreduce(self, sendobj, op=SUM):
        sp = self._collective("allreduce")
        blobs = self._all_to_all(sp, "obj", [_pack(sendobj)] * self.size, "allreduce")
        # all ranks get the same value: the fold order is decided once per collective
        key = ("order", self._cid, sp)
        net = self._sim.net
        if key not in net.coll:
            net.coll[key] = self._order(op)
        idx = net.coll[key]
        acc = simset.loads(blobs[idx[0]])
        for i in idx[1:]:
            acc = op(acc, simset.loads(blobs[i]))
        return acc

    def _fold_arrays(self, arrs, op, idx=None):
        for i, a in enumerate(arrs):
            if a.dtype != arrs[0].dtype or a.size != arrs[0].size:
                self._misuse(f"reduction: rank {i} contributes {a.size} x {a.dtype}, rank 0 {arrs[0].size} x {arrs[0].dtype}")
        idx = self._order(op) if idx is None else idx
        acc = arrs[idx[0]].copy()
        for i in idx[1:]:
            acc = op.npf(acc, arrs[i])
        return acc

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        root = self._check_root(root, "Reduce")
        sp = self._collective(f"Reduce(root={root})")
        if sendbuf is IN_PLACE:
            if self._rank != root:
                self._misuse("Reduce: IN_PLACE on a non-root rank")
            mine = self._get(recvbuf)
        else:
            mine = self._get(sendbuf)
        got = self._to_root(sp, root, "buf", mine, f"Reduce(root={root})")
        if self._rank == root:
            if sendbuf is not IN_PLACE and np.shares_memory(_buf(sendbuf), _buf(recvbuf)) and mine.size:
                self._misuse("Reduce: send and receive buffer are the same memory")
            acc = self._fold_arrays(got, op)
            arr = _buf(recvbuf, need_write=True)
            if arr.size != acc.size:
                self._misuse(f"Reduce: {acc.size} elements into a buffer of {arr.size}")
            self._put(recvbuf, acc, "Reduce")

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        sp = self._collective("Allreduce")
        mine = self._get(recvbuf if sendbuf is IN_PLACE else sendbuf)
        arrs = self._all_to_all(sp, "buf", [mine] * self.size, "Allreduce")
        key = ("order", self._cid, sp)
        net = self._sim.net
        if key not in net.coll:
            net.coll[key] = self._order(op)
        acc = self._fold_arrays(arrs, op, net.coll[key])
        if _buf(recvbuf).size != acc.size:
            self._misuse("Allreduce: buffer size")
        self._put(recvbuf, acc, "Allreduce")

    def gather(self, sendobj, root=0):
        root = self._check_root(root, "gather")
        sp = self._collective(f"gather(root={root})")
        got = self._to_root(sp, root, "obj", _pack(sendobj), f"gather(root={root})")
        return None if got is None else [simset.loads(b) for b in got]

    def allgather(self, sendobj):
        sp = self._collective("allgather")
        return [simset.loads(b) for b in self._all_to_all(sp, "obj", [_pack(sendobj)] * self.size, "allgather")]

    def scatter(self, sendobj, root=0):
        root = self._check_root(root, "scatter")
        sp = self._collective(f"scatter(root={root})")
        g = self._members[root]
        if self._rank == root:
            items = list(sendobj)
            if len(items) != self.size:
                self._misuse(f"scatter: {len(items)} items for {self.size} ranks")
            for i, d in enumerate(self._members):
                if i != root:
                    self._sim.net.post(g, d, 0, (self._cid, sp), "obj", _pack(items[i]))
            return items[root]
        return simset.loads(self._recv_raw(g, 0, f"scatter(root={root})", sp).data)

    def alltoall(self, sendobj):
        sp = self._collective("alltoall")
        items = [_pack(x) for x in sendobj]
        return [simset.loads(b) for b in self._all_to_all(sp, "obj", items, "alltoall")]

    def Gather(self, sendbuf, recvbuf, root=0):
        root = self._check_root(root, "Gather")
        sp = self._collective(f"Gather(root={root})")
        got = self._to_root(sp, root, "buf", self._get(sendbuf), f"Gather(root={root})")
        if got is not None:
            self._put(recvbuf, np.concatenate(got), "Gather")

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self.Gather(sendbuf, recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf, root)

    def Allgather(self, sendbuf, recvbuf):
        sp = self._collective("Allgather")
        got = self._all_to_all(sp, "buf", [self._get(sendbuf)] * self.size, "Allgather")
        if len({g.size for g in got}) > 1:
            self._misuse("Allgather: different contribution sizes")
        self._put(recvbuf, np.concatenate(got), "Allgather")

    def Allgatherv(self, sendbuf, recvbuf):
        sp = self._collective("Allgatherv")
        got = self._all_to_all(sp, "buf", [self._get(sendbuf)] * self.size, "Allgatherv")
        self._put(recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf, np.concatenate(got), "Allgatherv")

    def barrier(self):
        sp = self._collective("barrier")
        self._all_to_all(sp, "obj", [b""] * self.size, "barrier")

    Barrier = barrier

    def scan(self, sendobj, op=SUM):
        sp = self._collective("scan")
        blobs = self._all_to_all(sp, "obj", [_pack(sendobj)] * self.size, "scan")
        acc = simset.loads(blobs[0])
        for i in range(1, self._rank + 1):
            acc = op(acc, simset.loads(blobs[i]))
        return acc

    def exscan(self, sendobj, op=SUM):
        sp = self._collective("exscan")
        blobs = self._all_to_all(sp, "obj", [_pack(sendobj)] * self.size, "exscan")
        acc = None
        for i in range(self._rank):
            x = simset.loads(blobs[i])
            acc = x if acc is None else op(acc, x)
        return acc

    def Dup(self):
        self.barrier()
        return Comm(self._sim, self._global, f"{self._cid}d{self._count}", self._members)

    def Split(self, color=0, key=0):
        got = self.allgather((color, key, self._rank))
        mine = sorted((k, r) for c, k, r in got if c == color)
        return Comm(self._sim, self._global, f"{self._cid}s{self._count}.{color}", [self._members[r] for _, r in mine])

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        sim = self._sim
        ctx = current()
        if ctx is not None and ctx.kill:
            raise SimKilled()
        if sim.aborted is None:
            sim.aborted = (self._rank, errorcode)
            sim.note(f"ABORT{self._rank}")
        raise SimKilled()

    def __reduce__(self):
        raise TypeError("cannot pickle a communicator")


class MPIError(RuntimeError):
    pass


class MPIModule:
    """What `from mpi4py import MPI` gives to one rank."""

    def __init__(self, sim, rank):
        self.COMM_WORLD = Comm(sim, rank)
        self.COMM_SELF = Comm(sim, rank, f"S{rank}", [rank])
        self.COMM_NULL = None
        self._sim = sim
        self._rank = rank
        self.__name__ = "mpi4py.MPI"

    ANY_SOURCE = ANY_SOURCE
    ANY_TAG = ANY_TAG
    PROC_NULL = -3
    UNDEFINED = -32766
    IN_PLACE = IN_PLACE
    SUM, PROD, MAX, MIN, LOR, LAND, BOR, BAND = SUM, PROD, MAX, MIN, LOR, LAND, BOR, BAND
    Status = Status
    Request = Request
    Comm = Comm
    Intracomm = Comm
    Op = Op
    Exception = MPIError
    THREAD_MULTIPLE = 3

    def Wtime(self):
        return self._sim.now + self._sim.ranks[self._rank].clock_skew

    def Is_initialized(self):
        return True

    def Is_finalized(self):
        return False

    def Get_processor_name(self):
        return f"simnode{self._rank}"

    def __getattr__(self, name):
        if name in _DTYPES:
            return Datatype(name)
        raise AttributeError(f"simulated MPI has no {name}")
