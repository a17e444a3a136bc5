"""SimMPI: the part of mpi4py a program can use, implemented on the simulator core.

Semantics follow the MPI standard and mpi4py 4 (what the real library promises, not more): standard-mode
sends may or may not block, messages between a pair of ranks on one communicator do not overtake, collectives
may complete on some ranks before others have entered them where the standard allows it, and reductions may
associate in any order (lower-case ones keep rank order, as mpi4py does)."""
import json
import os
import pickle
import random
import sys
from collections import deque

import numpy as np

from . import gpu
from .core import HarnessError, SimAbort

_NAMES = json.load(open(os.path.join(os.path.dirname(__file__), "mpi4py_names.json")))
_COMM_NAMES = set(_NAMES["Intracomm"]) | set(_NAMES["Comm"])

ANY_SOURCE, ANY_TAG, PROC_NULL, ROOT, UNDEFINED = -1, -1, -2, -3, -32766
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3
SUCCESS, ERR_BUFFER, ERR_COUNT, ERR_TYPE, ERR_TAG, ERR_COMM, ERR_RANK, ERR_REQUEST, ERR_ROOT, ERR_GROUP, ERR_OP, \
    ERR_TOPOLOGY, ERR_DIMS, ERR_ARG, ERR_UNKNOWN, ERR_TRUNCATE, ERR_OTHER, ERR_INTERN = range(18)
ERR_PROC_FAILED = 75


class _InPlace:
    def __reduce__(self):
        return "IN_PLACE"

    def __bool__(self):
        return True


IN_PLACE = _InPlace()
BOTTOM = None


class Exception(RuntimeError):  # noqa: A001 - mpi4py's name
    def __init__(self, ierr=SUCCESS, msg=""):
        self.ob_mpi = ierr
        RuntimeError.__init__(self, ierr)
        self.msg = msg or f"simulated MPI error {ierr}"

    def Get_error_code(self):
        return self.ob_mpi

    def Get_error_class(self):
        return self.ob_mpi

    def Get_error_string(self):
        return self.msg

    error_code = property(Get_error_code)
    error_class = property(Get_error_class)
    error_string = property(Get_error_string)

    def __int__(self):
        return int(self.ob_mpi)

    def __str__(self):
        return self.msg

    def __repr__(self):
        return f"MPI.Exception({self.msg})"


def proc_failed():
    return Exception(ERR_PROC_FAILED, "MPI_ERR_PROC_FAILED: simulated process failure")


# --------------------------------------------------------------------------------------------------
# datatypes and operators


class Datatype:
    def __init__(self, name="", np_dtype=None):
        self._name = name
        self._np = None if np_dtype is None else np.dtype(np_dtype)

    def Get_size(self):
        return self._np.itemsize

    size = property(Get_size)
    extent = property(Get_size)

    def Get_extent(self):
        return (0, self._np.itemsize)

    def Get_name(self):
        return self._name

    name = property(Get_name)

    def Commit(self):
        return self

    def Free(self):
        pass

    def tocode(self):
        return self._np.char

    @property
    def typechar(self):
        return self._np.char

    @property
    def typestr(self):
        return self._np.str

    def __repr__(self):
        return f"MPI.{self._name}"


_DT = {
    "BYTE": "u1", "CHAR": "S1", "SIGNED_CHAR": "i1", "UNSIGNED_CHAR": "u1", "SHORT": "i2", "UNSIGNED_SHORT": "u2",
    "INT": "i4", "UNSIGNED": "u4", "UNSIGNED_INT": "u4", "SIGNED_INT": "i4", "LONG": "i8", "UNSIGNED_LONG": "u8",
    "SIGNED_LONG": "i8", "LONG_LONG": "i8", "UNSIGNED_LONG_LONG": "u8", "SIGNED_LONG_LONG": "i8", "FLOAT": "f4",
    "DOUBLE": "f8", "C_BOOL": "?", "CXX_BOOL": "?", "BOOL": "?", "INT8_T": "i1", "INT16_T": "i2", "INT32_T": "i4",
    "INT64_T": "i8", "UINT8_T": "u1", "UINT16_T": "u2", "UINT32_T": "u4", "UINT64_T": "u8", "COMPLEX": "c8",
    "DOUBLE_COMPLEX": "c16", "C_COMPLEX": "c8", "C_FLOAT_COMPLEX": "c8", "C_DOUBLE_COMPLEX": "c16",
    "CXX_FLOAT_COMPLEX": "c8", "CXX_DOUBLE_COMPLEX": "c16", "F_FLOAT": "f4", "F_DOUBLE": "f8", "F_COMPLEX": "c8",
    "F_DOUBLE_COMPLEX": "c16", "FLOAT32_T": "f4", "FLOAT64_T": "f8", "REAL": "f4", "DOUBLE_PRECISION": "f8",
    "REAL4": "f4", "REAL8": "f8", "COMPLEX8": "c8", "COMPLEX16": "c16", "INTEGER": "i4", "F_INT": "i4",
    "INTEGER4": "i4", "INTEGER8": "i8", "AINT": "i8", "COUNT": "i8", "OFFSET": "i8", "SINT8_T": "i1",
    "SINT16_T": "i2", "SINT32_T": "i4", "SINT64_T": "i8", "WCHAR": "i4", "PACKED": "u1", "FLOAT16_T": "f2",
}
DATATYPES = {k: Datatype(k, v) for k, v in _DT.items()}
_by_char = {}
for _k in ("C_BOOL", "INT8_T", "INT16_T", "INT32_T", "INT64_T", "UINT8_T", "UINT16_T", "UINT32_T", "UINT64_T",
           "FLOAT16_T", "FLOAT", "DOUBLE", "C_FLOAT_COMPLEX", "C_DOUBLE_COMPLEX"):
    _by_char[DATATYPES[_k]._np.str] = DATATYPES[_k]


def from_numpy_dtype(dt):
    return _by_char[np.dtype(dt).str]


class Op:
    def __init__(self, name="", py=None, arr=None, commute=True):
        self._name, self._py, self._arr, self._commute = name, py, arr, commute

    @classmethod
    def Create(cls, function, commute=False):
        def arr(a, b):
            out = b.copy()
            function(memoryview(a.copy().view(np.uint8)), memoryview(out.view(np.uint8)), from_numpy_dtype(a.dtype))
            return out
        return cls("user", function, arr, commute)

    def Free(self):
        pass

    def Reduce_local(self, inbuf, inoutbuf):
        a, b = Buf(inbuf), Buf(inoutbuf)
        b.write(np.asarray(self._arr(a.read(), b.read())))

    def Is_commutative(self):
        return self._commute

    is_commutative = property(Is_commutative)

    @property
    def is_predefined(self):
        return self._name != "user"

    def __call__(self, x, y):
        return self._py(x, y)

    def __repr__(self):
        return f"MPI.{self._name}"


def _maxloc(a, b):
    (x, i), (y, j) = a, b
    return (x, i) if x > y else (y, j) if y > x else (x, min(i, j))


def _minloc(a, b):
    (x, i), (y, j) = a, b
    return (x, i) if x < y else (y, j) if y < x else (x, min(i, j))


OPS = {
    "SUM": Op("SUM", lambda x, y: x + y, np.add),
    "PROD": Op("PROD", lambda x, y: x * y, np.multiply),
    "MAX": Op("MAX", lambda x, y: y if y > x else x, np.maximum),
    "MIN": Op("MIN", lambda x, y: y if y < x else x, np.minimum),
    "LAND": Op("LAND", lambda x, y: bool(x) & bool(y), lambda a, b: np.logical_and(a, b).astype(a.dtype)),
    "LOR": Op("LOR", lambda x, y: bool(x) | bool(y), lambda a, b: np.logical_or(a, b).astype(a.dtype)),
    "LXOR": Op("LXOR", lambda x, y: bool(x) ^ bool(y), lambda a, b: np.logical_xor(a, b).astype(a.dtype)),
    "BAND": Op("BAND", lambda x, y: x & y, np.bitwise_and),
    "BOR": Op("BOR", lambda x, y: x | y, np.bitwise_or),
    "BXOR": Op("BXOR", lambda x, y: x ^ y, np.bitwise_xor),
    "MAXLOC": Op("MAXLOC", _maxloc, None),
    "MINLOC": Op("MINLOC", _minloc, None),
    "REPLACE": Op("REPLACE", lambda x, y: y, lambda a, b: b.copy()),
    "NO_OP": Op("NO_OP", lambda x, y: x, lambda a, b: a.copy()),
}


class Status:
    def __init__(self):
        self._src, self._tag, self._n, self._err = ANY_SOURCE, ANY_TAG, 0, SUCCESS

    def Get_source(self):
        return self._src

    def Get_tag(self):
        return self._tag

    def Get_error(self):
        return self._err

    def Get_count(self, datatype=None):
        return self._n if datatype is None else self._n // datatype.Get_size()

    Get_elements = Get_count

    def Is_cancelled(self):
        return False

    source = property(Get_source, lambda s, v: setattr(s, "_src", v))
    tag = property(Get_tag, lambda s, v: setattr(s, "_tag", v))
    error = property(Get_error)
    count = property(lambda s: s._n)
    cancelled = property(lambda s: False)

    def _set(self, msg):
        self._src, self._tag = msg.src, msg.tag
        self._n = len(msg.data) if msg.kind == "p" else msg.data.nbytes


# --------------------------------------------------------------------------------------------------
# buffers


class Buf:
    __slots__ = ("arr", "flat", "count", "dt", "counts", "displs")

    def __init__(self, spec, vector=False, nblocks=1):
        self.counts = self.displs = None
        dt = None
        count = None
        if isinstance(spec, (list, tuple)):
            spec = list(spec)
            arr = spec[0]
            for s in spec[1:]:
                if isinstance(s, (Datatype, str)):
                    dt = s
                elif isinstance(s, (tuple, list)) and len(s) == 2 and all(
                        hasattr(t, "__len__") or t is None for t in s):
                    self.counts, self.displs = s
                elif s is None:
                    pass
                elif self.counts is not None or count is not None:
                    if self.counts is None:
                        self.counts = count
                    self.displs = s
                else:
                    if hasattr(s, "__len__"):
                        self.counts = s
                    else:
                        count = int(s)
        else:
            arr = spec
        if isinstance(arr, gpu.ndarray):
            arr = arr._h        # CUDA-aware MPI
        if isinstance(dt, str):
            dt = Datatype(dt, np.dtype(dt))
        if isinstance(arr, np.ndarray) or isinstance(arr, np.generic):
            a = np.asarray(arr)
        elif arr is None:
            a = np.empty(0, np.uint8)
        else:
            try:
                a = np.asarray(memoryview(arr))
            except TypeError:
                raise TypeError(f"a bytes-like object is required, not '{type(arr).__name__}'")
        if a.dtype.kind not in "biufcS":
            raise KeyError(a.dtype.char)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError("ndarray is not contiguous")
        self.arr = a
        flat = a.reshape(-1, order="A")
        if dt is not None and dt._np is not None and dt._np != flat.dtype:
            flat = flat.view(dt._np)
        self.flat = flat
        self.dt = flat.dtype
        self.count = flat.size if count is None else count
        if self.count > flat.size:
            raise ValueError(f"message: buffer too small for requested count {self.count}")
        if vector:
            if self.counts is None:
                if flat.size % nblocks:
                    q, r = divmod(flat.size, nblocks)
                    self.counts = [q + (1 if i < r else 0) for i in range(nblocks)]
                else:
                    self.counts = [flat.size // nblocks] * nblocks
            self.counts = [int(c) for c in self.counts]
            if self.displs is None:
                self.displs = [int(s) for s in np.cumsum([0] + self.counts[:-1])]
            self.displs = [int(d) for d in self.displs]

    def read(self):
        return np.array(self.flat[:self.count], copy=True)

    def block(self, i):
        return np.array(self.flat[self.displs[i]:self.displs[i] + self.counts[i]], copy=True)

    def write(self, data, off=0):
        if not self.arr.flags.writeable:
            raise ValueError("buffer source array is read-only")
        self.flat[off:off + data.size] = data.reshape(-1).view(self.dt) if data.dtype != self.dt else data.reshape(-1)


# --------------------------------------------------------------------------------------------------
# requests


class Request:
    """done(): may it complete?  finish(): complete it and return the python object (or None)"""

    def __init__(self, rs=None, done=None, finish=None, desc="request", status_msg=None):
        self._rs, self._done, self._finish, self._desc = rs, done, finish, desc
        self._complete = rs is None
        self._value = None
        self._msg = status_msg
        if rs is not None:
            rs.live_reqs += 1

    def _is_done(self):
        return self._complete or self._done()

    def _end(self, status=None):
        if not self._complete:
            self._complete = True
            self._rs.live_reqs -= 1
            self._value = self._finish() if self._finish is not None else None
        if status is not None and self._msg is not None:
            m = self._msg()
            if m is not None:
                status._set(m)
        v, self._value = self._value, None
        return v

    def wait(self, status=None):
        if not self._complete:
            w = self._rs.world
            if w.abort:
                raise SimAbort()
            if not self._done():
                w.switch(self._rs, self._done, self._desc)
        return self._end(status)

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        if self._complete:
            return (True, self._end(status))
        w = self._rs.world
        w.switch(self._rs, None, "test " + self._desc)
        if self._done():
            return (True, self._end(status))
        self._rs.polling = True
        return (False, None)

    def Test(self, status=None):
        return self.test(status)[0]

    def Get_status(self, status=None):
        if self._complete:
            return True
        self._rs.world.switch(self._rs, None, "get_status " + self._desc)
        if not self._done():
            self._rs.polling = True
            return False
        return True

    get_status = Get_status

    def Free(self):
        if not self._complete and self._rs is not None:
            self._rs.live_reqs -= 1
        self._complete = True

    def Cancel(self):
        pass

    cancel = Cancel

    @classmethod
    def waitall(cls, requests, statuses=None):
        reqs = list(requests)
        live = [r for r in reqs if not r._complete]
        if live:
            w = live[0]._rs.world
            w.switch(live[0]._rs, lambda: all(r._is_done() for r in live), f"waitall of {len(live)} requests")
        return [r._end(statuses[i] if statuses else None) for i, r in enumerate(reqs)]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        cls.waitall(requests, statuses)
        return True

    @classmethod
    def waitany(cls, requests, status=None):
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if not r._complete]
        if not live:
            return (UNDEFINED, None)
        rs = reqs[live[0]]._rs
        w = rs.world
        w.switch(rs, lambda: any(reqs[i]._done() for i in live), "waitany")
        ready = [i for i in live if reqs[i]._done()]
        i = ready[w.ch.choose(len(ready))]
        return (i, reqs[i]._end(status))

    @classmethod
    def Waitany(cls, requests, status=None):
        return cls.waitany(requests, status)[0]

    @classmethod
    def waitsome(cls, requests, statuses=None):
        i, v = cls.waitany(requests)
        return (None, None) if i == UNDEFINED else ([i], [v])

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        i, _ = cls.waitany(requests)
        return None if i == UNDEFINED else [i]

    @classmethod
    def testall(cls, requests, statuses=None):
        reqs = list(requests)
        live = [r for r in reqs if not r._complete]
        if live:
            rs = live[0]._rs
            rs.world.switch(rs, None, "testall")
            if not all(r._is_done() for r in live):
                rs.polling = True
                return (False, None)
        return (True, [r._end() for r in reqs])

    @classmethod
    def Testall(cls, requests, statuses=None):
        return cls.testall(requests, statuses)[0]

    @classmethod
    def testany(cls, requests, status=None):
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if not r._complete]
        if not live:
            return (UNDEFINED, True, None)
        rs = reqs[live[0]]._rs
        rs.world.switch(rs, None, "testany")
        for i in live:
            if reqs[i]._done():
                return (i, True, reqs[i]._end(status))
        rs.polling = True
        return (UNDEFINED, False, None)

    @classmethod
    def Testany(cls, requests, status=None):
        return cls.testany(requests, status)[:2]

    @classmethod
    def testsome(cls, requests, statuses=None):
        i, ok, v = cls.testany(requests)
        return (None, None) if i == UNDEFINED and ok else ([], []) if i == UNDEFINED else ([i], [v])

    @classmethod
    def Testsome(cls, requests, statuses=None):
        return cls.testsome(requests, statuses)[0]

    @classmethod
    def get_status_all(cls, requests, statuses=None):
        return all([r.Get_status() for r in requests])

    @classmethod
    def get_status_any(cls, requests, status=None):
        for i, r in enumerate(requests):
            if r.Get_status():
                return (i, True)
        return (UNDEFINED, False)

    Get_status_all, Get_status_any = get_status_all, get_status_any

    def __bool__(self):
        return not self._complete

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Prequest(Request):
    """a persistent request: start() begins one communication and gives the ordinary request for it"""

    def __init__(self, rs, start, desc):
        Request.__init__(self)
        self._rs, self._begin, self._desc = rs, start, desc
        self._r = None

    def Start(self):
        if not self._complete:
            raise Exception(ERR_REQUEST, "MPI_ERR_REQUEST: request is active")
        self._r = self._begin()
        self._done, self._finish, self._msg, self._complete = \
            self._r._done, self._r._finish, self._r._msg, False

    @classmethod
    def Startall(cls, requests):
        for r in requests:
            r.Start()

    def __bool__(self):
        return True


class Message:
    """a message taken out of matching by mprobe"""

    def __init__(self, comm=None, m=None):
        self._c, self._m = comm, m

    def _take(self, buf, status, what):
        if self._m is None:
            raise Exception(ERR_REQUEST, "MPI_ERR_REQUEST: no message")
        c, m = self._c, self._m
        c._check()
        c._w.enter(c._rs, what)
        self._m = None
        r = _Recv(m.src, m.tag, buf)
        r.take(m)
        if status is not None:
            status._set(m)
        return r

    def recv(self, status=None):
        return self._c._recv_value(self._take(None, status, "Message.recv"))

    def Recv(self, buf, status=None):
        self._c._recv_value(self._take(Buf(buf), status, "Message.Recv"))

    def irecv(self):
        c, r = self._c, self._take(None, None, "Message.irecv")
        return Request(c._rs, lambda: True, lambda: c._recv_value(r), "Message.irecv", lambda: r.msg)

    def Irecv(self, buf):
        c, r = self._c, self._take(Buf(buf), None, "Message.Irecv")
        return Request(c._rs, lambda: True, lambda: c._recv_value(r), "Message.Irecv", lambda: r.msg)

    @classmethod
    def probe(cls, comm, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return comm.mprobe(source, tag, status)

    @classmethod
    def iprobe(cls, comm, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return comm.improbe(source, tag, status)

    Probe, Iprobe = probe, iprobe

    def __bool__(self):
        return self._m is not None


class Info(dict):
    @classmethod
    def Create(cls, items=None):
        return cls(items or {})

    def Set(self, k, v):
        self[k] = v

    def Get(self, k, *a):
        return self.get(k)

    def Delete(self, k):
        if k not in self:
            raise Exception(ERR_OTHER, "MPI_ERR_INFO_NOKEY")
        del self[k]

    def Dup(self):
        return Info(self)

    def Get_nkeys(self):
        return len(self)

    def Get_nthkey(self, n):
        return list(self)[n]

    def Free(self):
        self.clear()


# --------------------------------------------------------------------------------------------------
# point to point


class _Msg:
    __slots__ = ("src", "tag", "kind", "data", "rdv", "matched", "late")

    def __init__(self, src, tag, kind, data, rdv):
        self.src, self.tag, self.kind, self.data, self.rdv = src, tag, kind, data, rdv
        self.matched = False
        self.late = None   # Buf to be read when matched (non-blocking rendezvous send)


class _Recv:
    __slots__ = ("src", "tag", "msg", "buf", "error")

    def __init__(self, src, tag, buf=None):
        self.src, self.tag, self.buf = src, tag, buf
        self.msg = None
        self.error = None

    def accepts(self, m):
        return (self.src in (ANY_SOURCE, m.src)) and (self.tag in (ANY_TAG, m.tag))

    def take(self, m):
        if m.late is not None:
            m.data = m.late.read()
            m.late = None
        m.matched = True
        self.msg = m
        if self.buf is not None:
            if m.kind == "p":
                data = np.frombuffer(m.data, np.uint8)
            else:
                data = m.data
            if data.nbytes > self.buf.count * self.buf.dt.itemsize:
                self.error = Exception(ERR_TRUNCATE, "MPI_ERR_TRUNCATE: message truncated")
            else:
                if data.dtype != self.buf.dt:
                    data = data.view(np.uint8)
                    self.buf.flat.view(np.uint8)[:data.size] = data
                else:
                    self.buf.write(data)


def deliver(world, key):
    """an in-flight message reaches its destination"""
    m = world.channels[key].popleft()
    world.inflight -= 1
    cid, src, dst = key
    world.ev(dst, f"deliver {cid}:{src}->{dst} tag {m.tag}")
    ps = world.posted.get((cid, dst))
    if ps:
        for i, r in enumerate(ps):
            if r.accepts(m):
                del ps[i]
                r.take(m)
                return
    world.inbox.setdefault((cid, dst), []).append(m)


# --------------------------------------------------------------------------------------------------
# communicators


class Slot:
    __slots__ = ("kind", "root", "op", "sig", "joined", "contrib", "left", "cache", "err", "idx")

    def __init__(self, kind, root, op, sig):
        self.kind, self.root, self.op, self.sig = kind, root, op, sig
        self.joined = set()
        self.contrib = {}
        self.left = 0
        self.cache = {}
        self.err = None


def _site():
    """the library function that made an MPI object"""
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "pylops_mpi/" in fn and "/sim/" not in fn:
            return f"{fn.split('pylops_mpi/', 1)[-1]}:{f.f_code.co_name}"
        f = f.f_back
    return "program"


class CommShared:
    def __init__(self, world, members, name=""):
        self.world = world
        self.id = len(world.comms)
        world.comms.append(self)
        self.members = list(members)
        self.slots = {}
        self.seq = [0] * len(members)
        self.name = name
        self.attrs = [dict() for _ in members]
        self.npt = [0] * len(members)      # point-to-point operations started, per member


class Group:
    def __init__(self, members=(), rank=None):
        self._m = list(members)
        self._me = rank

    def Get_size(self):
        return len(self._m)

    size = property(Get_size)

    def Get_rank(self):
        return self._m.index(self._me) if self._me in self._m else UNDEFINED

    rank = property(Get_rank)

    def Incl(self, ranks):
        return Group([self._m[r] for r in ranks], self._me)

    def Excl(self, ranks):
        ex = set(ranks)
        return Group([m for i, m in enumerate(self._m) if i not in ex], self._me)

    @staticmethod
    def _ranges(ranges):
        return [r for a, b, st in ranges for r in range(a, b + (1 if st > 0 else -1), st)]

    def Range_incl(self, ranks):
        return self.Incl(self._ranges(ranks))

    def Range_excl(self, ranks):
        return self.Excl(self._ranges(ranks))

    def Dup(self):
        return Group(self._m, self._me)

    @classmethod
    def Union(cls, a, b):
        return Group(a._m + [m for m in b._m if m not in a._m], a._me if a._me is not None else b._me)

    @classmethod
    def Intersection(cls, a, b):
        return Group([m for m in a._m if m in b._m], a._me)

    Intersect = Intersection

    @classmethod
    def Difference(cls, a, b):
        return Group([m for m in a._m if m not in b._m], a._me)

    @classmethod
    def Compare(cls, a, b):
        return IDENT if a._m == b._m else SIMILAR if set(a._m) == set(b._m) else UNEQUAL

    def Translate_ranks(self, ranks=None, group=None):
        ranks = range(len(self._m)) if ranks is None else ranks
        return [group._m.index(self._m[r]) if self._m[r] in group._m else UNDEFINED for r in ranks]

    def Free(self):
        pass


_keyvals = [100]


class Comm:
    def __init__(self, comm=None):
        if comm is not None:
            self.__dict__.update(comm.__dict__)
        else:
            self._g = None

    @classmethod
    def _make(cls, g, rs):
        c = Intracomm()
        c._g, c._rs, c._w = g, rs, g.world
        c._me = g.members.index(rs.id)
        c._freed = False
        # local handle, the smallest free one, as MPI libraries number them: the same communicator may have
        # different handles on different ranks, and a handle is used again after Free
        hs = rs.handles
        c._h = next(i for i in range(len(hs) + 3) if i not in hs and i != 2)
        hs.add(c._h)
        return c

    def __getattr__(self, name):
        if name in _COMM_NAMES and self.__dict__.get("_g") is not None:
            self._w.unsupported(f"SimMPI does not implement Comm.{name}")
        raise AttributeError(name)

    # ---- identity
    def Get_rank(self):
        return self._me

    def Get_size(self):
        return len(self._g.members)

    rank = property(Get_rank)
    size = property(Get_size)

    def __bool__(self):
        return self._g is not None

    def __eq__(self, o):
        return isinstance(o, Comm) and self._g is o._g

    def __ne__(self, o):
        return not self == o

    __hash__ = None     # as in mpi4py 4

    def __reduce__(self):
        if self._g is None:
            return "COMM_NULL"
        if self._g.name in ("MPI_COMM_WORLD", "MPI_COMM_SELF"):
            return self._g.name[4:]
        raise ValueError("cannot pickle a communicator")

    def __repr__(self):
        return f"<SimComm {self._g.id if self._g else None} {self._g.members if self._g else ''}>"

    def Get_name(self):
        return self._g.name

    def Set_name(self, n):
        pass

    name = property(Get_name, Set_name)

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    is_inter = property(Is_inter)
    is_intra = property(Is_intra)

    @classmethod
    def Compare(cls, a, b):
        if a._g is b._g:
            return IDENT
        if a._g.members == b._g.members:
            return CONGRUENT
        return SIMILAR if set(a._g.members) == set(b._g.members) else UNEQUAL

    def Get_group(self):
        return Group(self._g.members, self._rs.id)

    group = property(Get_group)

    def Set_errhandler(self, e):
        pass

    def Get_errhandler(self):
        return None

    def Abort(self, errorcode=0):
        self._w.ev(self._rs.id, "Abort")
        self._w.aborted_job = True
        self._w.abort = True
        raise SimAbort()

    def Get_topology(self):
        return UNDEFINED

    topology = property(Get_topology)
    is_topo = property(lambda self: False)

    def py2f(self):
        return 2 if self._g is None else self._h

    toint = py2f

    @property
    def handle(self):
        return self.py2f()

    def Get_info(self):
        return Info()

    def Set_info(self, info):
        pass

    info = property(Get_info, Set_info)

    def Revoke(self):
        self._w.unsupported("Comm.Revoke")

    def Free(self):
        # collective; local effects only
        self._check()
        self._freed = True
        self._rs.handles.discard(self._h)
        if self._g.id > self._w.n:
            self._rs.live_comms -= 1
            site = self.__dict__.get("_site")
            if site in self._rs.comm_sites:
                self._rs.comm_sites[site] -= 1

    Disconnect = Free

    def _check(self):
        if self._w.abort:
            raise SimAbort()
        if self._w.current is not self._rs:
            self._w.unsupported("a communicator handle was used outside its rank")
        if self._freed:
            raise Exception(ERR_COMM, "MPI_ERR_COMM: invalid communicator")

    # ---- attributes
    @classmethod
    def Create_keyval(cls, copy_fn=None, delete_fn=None, nopython=False):
        _keyvals[0] += 1
        return _keyvals[0]

    @classmethod
    def Free_keyval(cls, k):
        return 0

    def Set_attr(self, k, v):
        self._g.attrs[self._me][k] = v

    def Get_attr(self, k):
        if k == 0:
            return 2 ** 30
        return self._g.attrs[self._me].get(k)

    def Delete_attr(self, k):
        self._g.attrs[self._me].pop(k, None)

    # ---- point to point
    def _peer(self, r, any_ok=False):
        if isinstance(r, (np.integer,)):
            r = int(r)
        if r == PROC_NULL or (any_ok and r == ANY_SOURCE):
            return r
        if not isinstance(r, int):
            raise TypeError(f"an integer is required (got type {type(r).__name__})")
        if not 0 <= r < len(self._g.members):
            raise Exception(ERR_RANK, f"MPI_ERR_RANK: invalid rank {r}")
        return r

    def _post_send(self, dest, tag, kind, data, mode, late=None):
        """returns the message (None for PROC_NULL)"""
        dest = self._peer(dest)
        if dest == PROC_NULL:
            return None
        tag = int(tag)
        if tag < 0:
            raise Exception(ERR_TAG, "MPI_ERR_TAG: invalid tag")
        w = self._w
        nb = len(data) if kind == "p" else (data.nbytes if data is not None else late.count * late.dt.itemsize)
        if mode == "s":
            rdv = True
        elif mode == "b":
            rdv = False
        else:
            rdv = bool(w.ch.flag("rdv"))
            if rdv:
                w.fire("rendezvous_send")
        m = _Msg(self._me, tag, kind, data, rdv)
        if late is not None:
            if rdv:
                m.late = late
            else:
                m.data = late.read()
        key = (self._g.id, self._me, dest)
        q = w.channels.get(key)
        if q is None:
            q = w.channels[key] = deque()
        q.append(m)
        self._g.npt[self._me] += 1
        w.inflight += 1
        self._rs.nsent += 1
        if w.inflight > 1:
            w.probe("several_in_flight")
        return m

    def _dead(self, peer):
        return self._g.members[peer] in self._w.crashed

    def _wait(self, pred, desc, deps=None):
        if not pred():
            self._w.switch(self._rs, pred, desc, deps)

    def _send(self, dest, tag, kind, data, mode, what):
        self._check()
        self._w.enter(self._rs, f"{what} to {dest} tag {tag} comm {self._g.id}")
        m = self._post_send(dest, tag, kind, data, mode)
        if m is not None and m.rdv:
            self._wait(lambda: m.matched, f"{what}(dest={dest}, tag={tag}) waiting for the receiver")

    def send(self, obj, dest, tag=0):
        self._send(dest, tag, "p", pickle.dumps(obj, 5), "n", "send")

    def ssend(self, obj, dest, tag=0):
        self._send(dest, tag, "p", pickle.dumps(obj, 5), "s", "ssend")

    def bsend(self, obj, dest, tag=0):
        self._send(dest, tag, "p", pickle.dumps(obj, 5), "b", "bsend")

    rsend = send

    def Send(self, buf, dest, tag=0):
        self._send(dest, tag, "b", Buf(buf).read(), "n", "Send")

    def Ssend(self, buf, dest, tag=0):
        self._send(dest, tag, "b", Buf(buf).read(), "s", "Ssend")

    def Bsend(self, buf, dest, tag=0):
        self._send(dest, tag, "b", Buf(buf).read(), "b", "Bsend")

    Rsend = Send

    def _isend(self, dest, tag, kind, data, mode, what, late=None):
        self._check()
        self._w.enter(self._rs, f"{what} to {dest} tag {tag} comm {self._g.id}")
        m = self._post_send(dest, tag, kind, data, mode, late)
        return Request(self._rs, lambda: m is None or not m.rdv or m.matched, None,
                       f"{what}(dest={dest}, tag={tag})")

    def isend(self, obj, dest, tag=0):
        return self._isend(dest, tag, "p", pickle.dumps(obj, 5), "n", "isend")

    def issend(self, obj, dest, tag=0):
        return self._isend(dest, tag, "p", pickle.dumps(obj, 5), "s", "issend")

    ibsend = isend
    irsend = isend

    def Isend(self, buf, dest, tag=0):
        b = Buf(buf)
        late = b if self._w.ch.flag("late") else None
        return self._isend(dest, tag, "b", None if late else b.read(), "s" if late else "n", "Isend", late)

    def Issend(self, buf, dest, tag=0):
        return self._isend(dest, tag, "b", Buf(buf).read(), "s", "Issend")

    Ibsend = Isend
    Irsend = Isend

    def _post_recv(self, source, tag, buf):
        source = self._peer(source, True)
        tag = int(tag)
        w = self._w
        r = _Recv(source, tag, buf)
        self._g.npt[self._me] += 1
        if source == PROC_NULL:
            r.msg = _Msg(PROC_NULL, ANY_TAG, "p", pickle.dumps(None), False)
            return r
        box = w.inbox.get((self._g.id, self._me))
        if box:
            for i, m in enumerate(box):
                if r.accepts(m):
                    if source == ANY_SOURCE:
                        w.probe("any_source_match")
                    del box[i]
                    r.take(m)
                    return r
        w.posted.setdefault((self._g.id, self._me), []).append(r)
        return r

    def _recv_value(self, r):
        if r.error is not None:
            raise r.error
        m = r.msg
        if r.buf is not None:
            return None
        if m.kind == "p":
            return pickle.loads(m.data)
        raise pickle.UnpicklingError("buffer message received by recv()")

    def _recv(self, buf, source, tag, status, what):
        self._check()
        self._w.enter(self._rs, f"{what} from {source} tag {tag} comm {self._g.id}")
        r = self._post_recv(source, tag, buf)
        deps = None if source in (ANY_SOURCE, PROC_NULL) else [self._g.members[source]]
        try:
            self._wait(lambda: r.msg is not None, f"{what}(source={source}, tag={tag})", deps)
        except Exception:
            ps = self._w.posted.get((self._g.id, self._me))
            if ps and r in ps:
                ps.remove(r)
            raise
        if status is not None:
            status._set(r.msg)
        return self._recv_value(r)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._recv(None, source, tag, status, "recv")

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._recv(Buf(buf), source, tag, status, "Recv")

    def _irecv(self, buf, source, tag, what):
        self._check()
        self._w.enter(self._rs, f"{what} from {source} tag {tag} comm {self._g.id}")
        r = self._post_recv(source, tag, buf)
        return Request(self._rs, lambda: r.msg is not None, lambda: self._recv_value(r),
                       f"{what}(source={source}, tag={tag})", lambda: r.msg)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(None, source, tag, "irecv")

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(Buf(buf), source, tag, "Irecv")

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        data = pickle.dumps(sendobj, 5)
        s = self._isend(dest, sendtag, "p", data, "n", "sendrecv.send")
        r = self._irecv(None, source, recvtag, "sendrecv.recv")
        v = Request.waitall([s, r])[1]
        if status is not None and r._msg() is not None:
            status._set(r._msg())
        return v

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        s = self._isend(dest, sendtag, "b", Buf(sendbuf).read(), "n", "Sendrecv.send")
        r = self._irecv(Buf(recvbuf), source, recvtag, "Sendrecv.recv")
        Request.waitall([s, r])
        if status is not None and r._msg() is not None:
            status._set(r._msg())

    def Sendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.Sendrecv(np.array(Buf(buf).read()), dest, sendtag, buf, source, recvtag, status)

    def _find(self, source, tag):
        r = _Recv(self._peer(source, True), int(tag))
        for m in self._w.inbox.get((self._g.id, self._me), ()):
            if r.accepts(m):
                return m
        return None

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        self._w.enter(self._rs, f"probe {source} tag {tag}")
        self._wait(lambda: self._find(source, tag) is not None, f"probe(source={source}, tag={tag})")
        if status is not None:
            status._set(self._find(source, tag))
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        self._w.enter(self._rs, f"iprobe {source} tag {tag}")
        m = self._find(source, tag)
        if m is None:
            self._rs.polling = True
            return False
        if status is not None:
            status._set(m)
        return True

    Probe, Iprobe = probe, iprobe

    def _pull(self, source, tag, status):
        m = self._find(source, tag)
        self._w.inbox[(self._g.id, self._me)].remove(m)
        if status is not None:
            status._set(m)
        return Message(self, m)

    def mprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.probe(source, tag)
        return self._pull(source, tag, status)

    def improbe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._pull(source, tag, status) if self.iprobe(source, tag) else None

    Mprobe, Improbe = mprobe, improbe

    def Send_init(self, buf, dest, tag=0):
        return Prequest(self._rs, lambda: self.Isend(buf, dest, tag), "Send_init")

    def Ssend_init(self, buf, dest, tag=0):
        return Prequest(self._rs, lambda: self.Issend(buf, dest, tag), "Ssend_init")

    def Bsend_init(self, buf, dest, tag=0):
        return Prequest(self._rs, lambda: self._isend(dest, tag, "b", Buf(buf).read(), "b", "Bsend_init"),
                        "Bsend_init")

    Rsend_init = Send_init

    def Recv_init(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Prequest(self._rs, lambda: self.Irecv(buf, source, tag), "Recv_init")

    def Isendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG):
        s = self._isend(dest, sendtag, "b", Buf(sendbuf).read(), "n", "Isendrecv.send")
        r = self._irecv(Buf(recvbuf), source, recvtag, "Isendrecv.recv")

        def fin():
            s._end()
            return r._end()
        return Request(self._rs, lambda: s._is_done() and r._is_done(), fin, "Isendrecv", lambda: r._msg())

    def Isendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG):
        return self.Isendrecv(np.array(Buf(buf).read()), dest, sendtag, buf, source, recvtag)


class Intracomm(Comm):
    # ---- collectives: machinery
    def _icoll(self, kind, contrib, finish, root=None, op=None, sig=None, need="all", enter=True):
        """joins the next collective of this communicator; returns a Request"""
        self._check()
        w, g, me = self._w, self._g, self._me
        n = len(g.members)
        if root is not None and not 0 <= root < n:
            raise Exception(ERR_ROOT, f"MPI_ERR_ROOT: invalid root {root}")
        if enter:
            w.enter(self._rs, f"{kind} comm {g.id}")
        i = g.seq[me]
        g.seq[me] += 1
        s = g.slots.get(i)
        if s is None:
            s = g.slots[i] = Slot(kind, root, op, sig)
            s.idx = i
            if n == w.n:
                w.coll_count += 1
                f = w.coll_faults.get(w.coll_count) if w.coll_faults else None
                if f is not None:
                    s.err = f.get("error", "mpi")
        elif s.kind != kind or s.root != root or (op is not None and s.op is not op) or \
                (sig is not None and s.sig is not None and sig != s.sig):
            w.fail("collective-mismatch",
                   f"collective #{i} on communicator {g.members}: rank {g.members[me]} calls {kind}"
                   f"{'' if root is None else f'(root={root})'}{'' if sig is None else f' {sig}'} while others call "
                   f"{s.kind}{'' if s.root is None else f'(root={s.root})'}"
                   f"{'' if s.sig is None else f' {s.sig}'}; {w.describe()}")
            raise SimAbort()
        s.joined.add(me)
        s.contrib[me] = contrib
        if len(s.joined) == n and n > 1:
            w.probe("collective_complete")
        if s.err is not None:
            need = "all"
        if need == "all":
            def done(s=s, n=n):
                return len(s.joined) == n
        elif need == "root":
            def done(s=s, root=root):
                return root in s.joined
        elif need == "self":
            def done():
                return True
        elif need == "upto":
            def done(s=s, me=me):
                return all(k in s.joined for k in range(me + 1))
        else:
            raise HarnessError(need)

        def fin():
            s.left += 1
            if s.err is not None:
                if s.left == 1:
                    w.fire("collective_error")
                if s.left == n:
                    g.slots.pop(s.idx, None)
                self._rs.errs.append(self._rs.phase)
                if s.err == "mem":
                    raise MemoryError("simulated allocation failure inside MPI")
                raise Exception(ERR_OTHER, "simulated transient MPI error")
            v = finish(s)
            if s.left == n:
                g.slots.pop(s.idx, None)
            return v
        return Request(self._rs, done, fin, f"{kind} on communicator {g.members}")

    def _early(self, leaf):
        """may this rank leave before the others have entered?"""
        if leaf and len(self._g.members) > 1 and self._w.ch.flag("early"):
            self._w.fire("early_exit")
            return True
        return False

    def _tree(self, s, op):
        """python-object reduction, rank order kept, association chosen by the simulator"""
        vals = [pickle.loads(s.contrib[i]) for i in range(len(self._g.members))]
        seed = self._w.ch.reduction()
        if not seed:
            r = vals[0]
            for v in vals[1:]:
                r = op(r, v)
            return r
        self._w.fire("reduction_reassociated")
        rng = random.Random(seed)
        while len(vals) > 1:
            i = rng.randrange(len(vals) - 1)
            vals[i:i + 2] = [op(vals[i], vals[i + 1])]
        return vals[0]

    def _reduce_obj(self, s, op):
        if "r" not in s.cache:
            try:
                s.cache["r"] = (True, pickle.dumps(self._tree(s, op), 5))
            except (HarnessError, SimAbort):
                raise
            except BaseException as e:
                s.cache["r"] = (False, e)
        ok, v = s.cache["r"]
        if not ok:
            raise type(v)(*v.args)
        return pickle.loads(v)

    def _reduce_buf(self, s, op, n=None):
        key = "r"
        if key not in s.cache:
            if op._arr is None:
                self._w.unsupported(f"buffer reduction with {op}")
            vals = [s.contrib[i] for i in range(len(self._g.members))]
            seed = self._w.ch.reduction()
            if seed:
                self._w.fire("reduction_reassociated")
                rng = random.Random(seed)
                if op._commute:
                    rng.shuffle(vals)
                vals = list(vals)
                while len(vals) > 1:
                    i = rng.randrange(len(vals) - 1)
                    vals[i:i + 2] = [op._arr(vals[i], vals[i + 1])]
                r = vals[0]
            else:
                r = vals[0]
                for v in vals[1:]:
                    r = op._arr(r, v)
            s.cache[key] = np.asarray(r)
        return s.cache[key]

    def _rop(self, op):
        return OPS["SUM"] if op is None else op

    def _rootarg(self, root):
        return int(root)

    # ---- barrier, dup, split
    def Ibarrier(self):
        return self._icoll("barrier", None, lambda s: None)

    def Barrier(self):
        self.Ibarrier().wait()

    barrier = Barrier
    ibarrier = Ibarrier

    def _newcomm(self, s, key, members):
        g = s.cache.get(key)
        if g is None:
            g = s.cache[key] = CommShared(self._w, members)
        return self._born(g)

    def _born(self, g):
        rs = self._rs
        rs.live_comms += 1
        c = Comm._make(g, rs)
        c._site = _site()
        rs.comm_sites[c._site] = rs.comm_sites.get(c._site, 0) + 1
        return c

    def Dup(self, info=None):
        return self._icoll("comm_dup", None, lambda s: self._newcomm(s, "dup", self._g.members)).wait()

    Clone = Dup
    Dup_with_info = Dup

    def Idup(self, info=None):
        c = self.Dup()
        return c, Request()

    def Split(self, color=0, key=0):
        color, key = int(color), int(key)
        if color < 0 and color != UNDEFINED:
            raise Exception(ERR_ARG, "MPI_ERR_ARG: invalid color")

        def fin(s):
            if color == UNDEFINED:
                return Comm()
            mem = sorted((k, r) for r, (c, k) in s.contrib.items() if c == color)
            return self._newcomm(s, ("split", color), [self._g.members[r] for _, r in mem])
        return self._icoll("comm_split", (color, key), fin).wait()

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def Create(self, group):
        mem = list(group._m)

        def fin(s):
            if self._rs.id not in mem:
                return Comm()
            return self._newcomm(s, ("create", tuple(mem)), mem)
        return self._icoll("comm_create", None, fin).wait()

    def Create_group(self, group, tag=0):
        # collective over the group only: emulated by a private communicator of the group
        self._check()
        mem = list(group._m)
        w = self._w
        k = ("cg", self._g.id, tuple(mem), tag)
        st = w.shared.setdefault(k, {"n": 0, "made": {}, "cnt": {}})
        w.enter(self._rs, f"Create_group {mem}")
        i = st["cnt"].get(self._me, 0)
        st["cnt"][self._me] = i + 1
        e = st["made"].setdefault(i, [None, set()])
        e[1].add(self._me)
        self._wait(lambda: len(e[1]) == len(mem), f"Create_group {mem}")
        if e[0] is None:
            e[0] = CommShared(w, mem)
        return self._born(e[0])

    # ---- python-object collectives
    def bcast(self, obj=None, root=0):
        root = self._rootarg(root)
        c = pickle.dumps(obj, 5) if self._me == root else None
        need = "root" if self._me != root else ("self" if self._early(True) else "all")
        if self._me != root and not self._early(True):
            need = "all"
        return self._icoll("bcast", c, lambda s: pickle.loads(s.contrib[root]),
                           root=root, need=need).wait()

    def ibcast(self, obj=None, root=0):
        self._w.unsupported("ibcast")

    def gather(self, sendobj, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)

        def fin(s):
            if self._me != root:
                return None
            return [pickle.loads(s.contrib[i]) for i in range(n)]
        need = "self" if self._me != root and self._early(True) else "all"
        return self._icoll("gather", pickle.dumps(sendobj, 5), fin, root=root, need=need).wait()

    def scatter(self, sendobj=None, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)
        c = None
        if self._me == root:
            lst = list(sendobj)
            if len(lst) != n:
                raise ValueError(f"expecting {n} items, got {len(lst)}")
            c = [pickle.dumps(o, 5) for o in lst]
        need = "root" if self._me != root else ("self" if self._early(True) else "all")
        return self._icoll("scatter", c, lambda s: pickle.loads(s.contrib[root][self._me]), root=root,
                           need=need).wait()

    def allgather(self, sendobj):
        n = len(self._g.members)
        return self._icoll("allgather", pickle.dumps(sendobj, 5),
                           lambda s: [pickle.loads(s.contrib[i]) for i in range(n)]).wait()

    def alltoall(self, sendobj):
        n = len(self._g.members)
        lst = list(sendobj)
        if len(lst) != n:
            raise ValueError(f"expecting {n} items, got {len(lst)}")
        c = [pickle.dumps(o, 5) for o in lst]
        return self._icoll("alltoall", c, lambda s: [pickle.loads(s.contrib[i][self._me]) for i in range(n)]).wait()

    def reduce(self, sendobj, op=None, root=0):
        root, op = self._rootarg(root), self._rop(op)
        need = "self" if self._me != root and self._early(True) else "all"
        return self._icoll("reduce", pickle.dumps(sendobj, 5),
                           lambda s: self._reduce_obj(s, op) if self._me == root else None,
                           root=root, op=op, need=need).wait()

    def allreduce(self, sendobj, op=None):
        op = self._rop(op)
        return self._icoll("allreduce", pickle.dumps(sendobj, 5), lambda s: self._reduce_obj(s, op), op=op).wait()

    def _prefix(self, s, op, upto):
        r = pickle.loads(s.contrib[0])
        for i in range(1, upto):
            r = op(r, pickle.loads(s.contrib[i]))
        return r

    def scan(self, sendobj, op=None):
        op = self._rop(op)
        return self._icoll("scan", pickle.dumps(sendobj, 5), lambda s: self._prefix(s, op, self._me + 1), op=op,
                           need="upto").wait()

    def exscan(self, sendobj, op=None):
        op = self._rop(op)
        return self._icoll("exscan", pickle.dumps(sendobj, 5),
                           lambda s: self._prefix(s, op, self._me) if self._me else None, op=op, need="upto").wait()

    # ---- buffer collectives
    def _sr(self, sendbuf, recvbuf):
        r = Buf(recvbuf)
        if sendbuf is IN_PLACE or sendbuf is None:
            return r, r
        return Buf(sendbuf), r

    def _same(self, s, r, what):
        if s.count != r.count:
            raise ValueError(f"mismatch in send count {s.count} and receive count {r.count}")
        if s.dt != r.dt:
            raise ValueError(f"mismatch in send and receive MPI datatypes ({s.dt} / {r.dt})")

    def Ibcast(self, buf, root=0):
        root = self._rootarg(root)
        b = Buf(buf)

        def fin(s):
            if self._me != root:
                b.write(s.contrib[root])
        need = "root" if self._me != root else ("self" if self._early(True) else "all")
        return self._icoll("Bcast", b.read() if self._me == root else None, fin, root=root,
                           sig=(b.count * b.dt.itemsize,), need=need)

    def Bcast(self, buf, root=0):
        self.Ibcast(buf, root).wait()

    def Iallreduce(self, sendbuf, recvbuf, op=None):
        op = self._rop(op)
        sb, rb = self._sr(sendbuf, recvbuf)
        self._same(sb, rb, "Allreduce")
        return self._icoll("Allreduce", sb.read(), lambda s: rb.write(self._reduce_buf(s, op)), op=op,
                           sig=(sb.count, str(sb.dt)))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self.Iallreduce(sendbuf, recvbuf, op).wait()

    def Ireduce(self, sendbuf, recvbuf, op=None, root=0):
        op, root = self._rop(op), self._rootarg(root)
        if self._me == root:
            sb, rb = self._sr(sendbuf, recvbuf)
            self._same(sb, rb, "Reduce")
        else:
            sb, rb = Buf(sendbuf), None
        need = "self" if self._me != root and self._early(True) else "all"
        return self._icoll("Reduce", sb.read(), lambda s: rb.write(self._reduce_buf(s, op)) if rb is not None else None,
                           root=root, op=op, sig=(sb.count, str(sb.dt)), need=need)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        self.Ireduce(sendbuf, recvbuf, op, root).wait()

    def _scanbuf(self, kind, sendbuf, recvbuf, op):
        op = self._rop(op)
        sb, rb = self._sr(sendbuf, recvbuf)
        me = self._me

        def fin(s):
            hi = me + 1 if kind == "Scan" else me
            if hi:
                r = s.contrib[0]
                for i in range(1, hi):
                    r = op._arr(r, s.contrib[i])
                rb.write(np.asarray(r))
        return self._icoll(kind, sb.read(), fin, op=op, sig=(sb.count, str(sb.dt)), need="upto")

    def Iscan(self, sendbuf, recvbuf, op=None):
        return self._scanbuf("Scan", sendbuf, recvbuf, op)

    def Iexscan(self, sendbuf, recvbuf, op=None):
        return self._scanbuf("Exscan", sendbuf, recvbuf, op)

    def Scan(self, sendbuf, recvbuf, op=None):
        self.Iscan(sendbuf, recvbuf, op).wait()

    def Exscan(self, sendbuf, recvbuf, op=None):
        self.Iexscan(sendbuf, recvbuf, op).wait()

    def Iallgather(self, sendbuf, recvbuf):
        n = len(self._g.members)
        rb = Buf(recvbuf)
        blk = rb.count // n
        sb = rb.flat[self._me * blk:(self._me + 1) * blk].copy() if sendbuf is IN_PLACE else Buf(sendbuf).read()

        def fin(s):
            for i in range(n):
                rb.write(s.contrib[i], i * blk)
        if sb.nbytes != blk * rb.dt.itemsize:
            raise ValueError(f"mismatch in send count {sb.size} and receive count {rb.count}")
        return self._icoll("Allgather", sb, fin, sig=(sb.nbytes,))

    def Allgather(self, sendbuf, recvbuf):
        self.Iallgather(sendbuf, recvbuf).wait()

    def Iallgatherv(self, sendbuf, recvbuf):
        n = len(self._g.members)
        rb = Buf(recvbuf, True, n)
        sb = rb.block(self._me) if sendbuf is IN_PLACE else Buf(sendbuf).read()

        def fin(s):
            for i in range(n):
                d = s.contrib[i]
                if d.nbytes != rb.counts[i] * rb.dt.itemsize:
                    self._w.fail("collective-mismatch", f"Allgatherv: rank {i} sent {d.nbytes} bytes, "
                                 f"{rb.counts[i] * rb.dt.itemsize} expected")
                    raise SimAbort()
                rb.write(d, rb.displs[i])
        return self._icoll("Allgatherv", sb, fin)

    def Allgatherv(self, sendbuf, recvbuf):
        self.Iallgatherv(sendbuf, recvbuf).wait()

    def Igather(self, sendbuf, recvbuf, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)
        rb = Buf(recvbuf) if self._me == root else None
        if sendbuf is IN_PLACE:
            blk = rb.count // n
            sb = rb.flat[self._me * blk:(self._me + 1) * blk].copy()
        else:
            sb = Buf(sendbuf).read()

        def fin(s):
            if rb is not None:
                blk = rb.count // n
                for i in range(n):
                    rb.write(s.contrib[i], i * blk)
        need = "self" if self._me != root and self._early(True) else "all"
        return self._icoll("Gather", sb, fin, root=root, sig=(sb.nbytes,), need=need)

    def Gather(self, sendbuf, recvbuf, root=0):
        self.Igather(sendbuf, recvbuf, root).wait()

    def Igatherv(self, sendbuf, recvbuf, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)
        rb = Buf(recvbuf, True, n) if self._me == root else None
        sb = rb.block(self._me) if sendbuf is IN_PLACE else Buf(sendbuf).read()

        def fin(s):
            if rb is not None:
                for i in range(n):
                    d = s.contrib[i]
                    if d.nbytes > rb.counts[i] * rb.dt.itemsize:
                        raise Exception(ERR_TRUNCATE, "MPI_ERR_TRUNCATE")
                    rb.write(d, rb.displs[i])
        need = "self" if self._me != root and self._early(True) else "all"
        return self._icoll("Gatherv", sb, fin, root=root, need=need)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self.Igatherv(sendbuf, recvbuf, root).wait()

    def Iscatter(self, sendbuf, recvbuf, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)
        c = None
        if self._me == root:
            c = Buf(sendbuf).read().reshape(n, -1)
        rb = None if recvbuf is IN_PLACE else Buf(recvbuf)
        need = "root" if self._me != root else ("self" if self._early(True) else "all")
        return self._icoll("Scatter", c, lambda s: rb.write(s.contrib[root][self._me]) if rb is not None else None,
                           root=root, need=need)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self.Iscatter(sendbuf, recvbuf, root).wait()

    def Iscatterv(self, sendbuf, recvbuf, root=0):
        root = self._rootarg(root)
        n = len(self._g.members)
        c = None
        if self._me == root:
            b = Buf(sendbuf, True, n)
            c = [b.block(i) for i in range(n)]
        rb = None if recvbuf is IN_PLACE else Buf(recvbuf)

        def fin(s):
            if rb is None:
                return
            d = s.contrib[root][self._me]
            if d.nbytes > rb.count * rb.dt.itemsize:
                raise Exception(ERR_TRUNCATE, "MPI_ERR_TRUNCATE")
            rb.write(d)
        need = "root" if self._me != root else ("self" if self._early(True) else "all")
        return self._icoll("Scatterv", c, fin, root=root, need=need)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self.Iscatterv(sendbuf, recvbuf, root).wait()

    def Ialltoall(self, sendbuf, recvbuf):
        n = len(self._g.members)
        rb = Buf(recvbuf)
        sb = (rb if sendbuf is IN_PLACE else Buf(sendbuf)).read().reshape(n, -1)
        blk = rb.count // n

        def fin(s):
            for i in range(n):
                rb.write(s.contrib[i][self._me], i * blk)
        return self._icoll("Alltoall", sb, fin, sig=(sb.nbytes,))

    def Alltoall(self, sendbuf, recvbuf):
        self.Ialltoall(sendbuf, recvbuf).wait()

    def Ialltoallv(self, sendbuf, recvbuf):
        n = len(self._g.members)
        rb = Buf(recvbuf, True, n)
        b = rb if sendbuf is IN_PLACE else Buf(sendbuf, True, n)
        c = [b.block(i) for i in range(n)]

        def fin(s):
            for i in range(n):
                d = s.contrib[i][self._me]
                if d.nbytes > rb.counts[i] * rb.dt.itemsize:
                    raise Exception(ERR_TRUNCATE, "MPI_ERR_TRUNCATE")
                rb.write(d, rb.displs[i])
        return self._icoll("Alltoallv", c, fin)

    def Alltoallv(self, sendbuf, recvbuf):
        self.Ialltoallv(sendbuf, recvbuf).wait()

    def Ireduce_scatter_block(self, sendbuf, recvbuf, op=None):
        op = self._rop(op)
        n = len(self._g.members)
        sb, rb = Buf(sendbuf), Buf(recvbuf)

        def fin(s):
            r = self._reduce_buf(s, op).reshape(n, -1)
            rb.write(r[self._me])
        return self._icoll("Reduce_scatter_block", sb.read(), fin, op=op, sig=(sb.count, str(sb.dt)))

    def Reduce_scatter_block(self, sendbuf, recvbuf, op=None):
        self.Ireduce_scatter_block(sendbuf, recvbuf, op).wait()

    def Ireduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=None):
        op = self._rop(op)
        n = len(self._g.members)
        sb, rb = Buf(sendbuf), Buf(recvbuf)
        rc = recvcounts if recvcounts is not None else [sb.count // n] * n
        off = int(sum(rc[:self._me]))

        def fin(s):
            rb.write(self._reduce_buf(s, op)[off:off + rc[self._me]])
        return self._icoll("Reduce_scatter", sb.read(), fin, op=op, sig=(sb.count, str(sb.dt)))

    def Reduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=None):
        self.Ireduce_scatter(sendbuf, recvbuf, recvcounts, op).wait()


# --------------------------------------------------------------------------------------------------
# the module object seen by a rank


class _Finder:
    pass


def make_module(modtype, world, rs, world_g, self_g):
    """the `mpi4py.MPI` module of one rank"""
    M = modtype("mpi4py.MPI")
    d = M.__dict__
    for k, v in DATATYPES.items():
        d[k] = v
    for k, v in OPS.items():
        d[k] = v
    for k in ("ANY_SOURCE", "ANY_TAG", "PROC_NULL", "ROOT", "UNDEFINED", "IDENT", "CONGRUENT", "SIMILAR", "UNEQUAL",
              "SUCCESS", "ERR_BUFFER", "ERR_COUNT", "ERR_TYPE", "ERR_TAG", "ERR_COMM", "ERR_RANK", "ERR_REQUEST",
              "ERR_ROOT", "ERR_GROUP", "ERR_OP", "ERR_TOPOLOGY", "ERR_DIMS", "ERR_ARG", "ERR_UNKNOWN",
              "ERR_TRUNCATE", "ERR_OTHER", "ERR_INTERN", "ERR_PROC_FAILED", "IN_PLACE", "BOTTOM", "Exception",
              "Datatype", "Op", "Status", "Request", "Prequest", "Message", "Info", "Group", "Comm", "Intracomm"):
        d[k] = globals()[k]
    d["Intercomm"] = type("Intercomm", (Comm,), {})
    d["COMM_WORLD"] = Comm._make(world_g, rs)
    d["COMM_SELF"] = Comm._make(self_g, rs)
    d["COMM_NULL"] = Comm()
    d["GROUP_EMPTY"] = Group()
    d["REQUEST_NULL"] = Request()
    d["INFO_NULL"] = Info()
    d["ERRORS_RETURN"], d["ERRORS_ARE_FATAL"] = 1, 2
    d["COMM_TYPE_SHARED"] = 1
    d["TAG_UB"] = 0
    d["THREAD_SINGLE"], d["THREAD_FUNNELED"], d["THREAD_SERIALIZED"], d["THREAD_MULTIPLE"] = 0, 1, 2, 3
    d["VERSION"], d["SUBVERSION"] = 3, 1
    d["memory"] = memoryview
    d["buffer"] = memoryview
    d["Wtime"] = world.sim_mono
    d["Wtick"] = lambda: 1e-6
    d["Is_initialized"] = lambda: True
    d["Is_finalized"] = lambda: False
    d["Query_thread"] = lambda: 3
    d["Get_processor_name"] = lambda: "sim"
    d["Get_version"] = lambda: (3, 1)
    d["Get_library_version"] = lambda: "SimMPI"
    d["Finalize"] = lambda: None

    def _typedict():
        out = {}
        for k, v in _by_char.items():
            out[np.dtype(k).char] = v
        return out
    d["_typedict"] = _typedict()
    d["__TypeDict__"] = d["_typedict"]

    names = set(_NAMES["module"])

    def __getattr__(name):
        if name in names:
            world.unsupported(f"SimMPI does not implement MPI.{name}")
        raise AttributeError(f"module 'mpi4py.MPI' has no attribute '{name}'")
    d["__getattr__"] = __getattr__
    util = modtype("mpi4py.util")
    dtlib = modtype("mpi4py.util.dtlib")
    dtlib.from_numpy_dtype = from_numpy_dtype
    dtlib.to_numpy_dtype = lambda t: t._np
    util.dtlib = dtlib
    top = modtype("mpi4py")
    top.__path__ = []
    util.__path__ = []
    top.MPI = M
    top.util = util
    top.__version__ = "4.1.2"

    class _RC:
        def __getattr__(self, n):
            return None
    top.rc = _RC()
    return {"mpi4py": top, "mpi4py.MPI": M, "mpi4py.util": util, "mpi4py.util.dtlib": dtlib, "mpi4py.rc": top.rc}


# in-class `except Exception` above refers to MPI's Exception on purpose only in Comm._recv
