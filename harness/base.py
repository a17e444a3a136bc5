"""What every scenario uses: the environment of one rank, snapshots of objects, expected values, comparison."""
import random
import zlib

import numpy as np

from sim import gpu

EPS = {"f": {4: 2e-4, 8: 1e-9, 2: 1e-1}, "c": {8: 2e-4, 16: 1e-9}}


def h32(*a):
    return zlib.crc32("|".join(map(str, a)).encode())


def data(seed, name, shape, dtype="float64", style="int", lo=-4, hi=4):
    """the global content of an array; a pure function of its arguments"""
    r = np.random.default_rng([seed & 0xFFFFFFFF, h32(name)])
    dt = np.dtype(dtype)
    shape = tuple(shape)

    def draw():
        if style == "int":
            return r.integers(lo, hi + 1, size=shape)
        return r.standard_normal(size=shape)
    if dt.kind == "c":
        a = draw() + 1j * draw()
    elif dt.kind == "b":
        a = r.integers(0, 2, size=shape)
    elif dt.kind in "iu":
        a = r.integers(0 if dt.kind == "u" else lo, hi + 1, size=shape)
    else:
        a = draw()
    a = np.ascontiguousarray(np.asarray(a).astype(dt))
    if name[0] in "xyab" and a.size > 1:
        # now and then a stretch of zeros, so that some process owns nothing but zeros
        k = h32(f"{name}/{seed}")
        if k % 8 == 0:
            k //= 8
            i = k % a.size
            m = k // a.size % a.size + 1
            a.reshape(-1)[i:i + m] = 0
            a.reshape(-1)[:max(0, i + m - a.size)] = 0
    return a


def default_sizes(total, n):
    return [total // n + (1 if i < total % n else 0) for i in range(n)]


def offsets(sizes):
    return [0] + list(np.cumsum(sizes))


def gen_sizes(rng, total, n, zeros=True):
    """a random composition of total into n parts"""
    k = rng.random()
    if k < 0.2:
        s = default_sizes(total, n)
        rng.shuffle(s)
        return s
    if not zeros and total >= n:
        cut = sorted(rng.sample(range(1, total), n - 1)) if n > 1 else []
    elif k < 0.35:     # everything on one rank
        s = [0] * n
        s[rng.randrange(n)] = total
        if zeros:
            return s
        cut = sorted(rng.randrange(total + 1) for _ in range(n - 1))
    else:
        cut = sorted(rng.randrange(total + 1) for _ in range(n - 1))
    b = [0] + cut + [total]
    return [b[i + 1] - b[i] for i in range(n)]


def lshapes(gshape, axis, sizes):
    out = []
    for s in sizes:
        t = list(gshape)
        t[axis] = s
        out.append(tuple(t))
    return out


class Env:
    """one rank of one group of processes"""

    def __init__(self, ctx, comm, members, seed, explicit=True):
        self.ctx, self.comm, self.members, self.seed = ctx, comm, members, seed
        self.pm, self.MPI = ctx.pm, ctx.MPI
        self.DA = ctx.pm.DistributedArray
        self.SDA = ctx.pm.StackedDistributedArray
        self.P = ctx.pm.Partition
        self.rank, self.size = comm.Get_rank(), comm.Get_size()
        self.explicit = explicit
        self.operands = []
        self.recs = []
        self.failid = None      # member operator one of whose local operators may be told to raise
        self.failblk = 0        # and which of them on each rank
        self.gpu = bool(ctx.world.gpu)
        self.partial = []
        self.eng = {"engine": "cupy"} if self.gpu else {}

    def outs(self, first=()):
        """the list of a step's results; what is in it when a step ends with an error was obtained all the same"""
        self.partial.append(list(first))
        return self.partial[-1]

    @property
    def kw(self):
        return {"base_comm": self.comm} if self.explicit else {}

    def dev(self, a):
        """the array in the memory its engine works on"""
        return gpu.ndarray(np.array(a, copy=True)) if self.gpu else a

    def data(self, *a, **kw):
        return data(self.seed, *a, **kw)

    def part(self, c):
        return {"S": self.P.SCATTER, "B": self.P.BROADCAST, "U": self.P.UNSAFE_BROADCAST}[c]

    # ---- arrays
    def scatter(self, g, sizes=None, axis=0, mask=None, how="assign", ls_style=0):
        """distribute the global array g; sizes = rows per rank along axis or None for the default split"""
        ls = None
        if sizes is not None:
            ls = lshapes(g.shape, axis, sizes)
            if g.ndim == 1 and ls_style:
                ls = [s[0] for s in ls]
        mask = None if mask is None else list(mask)     # an equal mask, not the same list
        if how == "to_dist":
            return self.DA.to_dist(x=self.dev(g), partition=self.P.SCATTER, axis=axis, local_shapes=ls, mask=mask, **self.kw)
        a = self.DA(global_shape=g.shape if (g.ndim > 1 or ls_style == 0) else g.shape[0],
                    partition=self.P.SCATTER, axis=axis, local_shapes=ls, mask=mask, dtype=g.dtype, **self.eng, **self.kw)
        sz = sizes if sizes is not None else default_sizes(g.shape[axis], self.size)
        o = offsets(sz)
        sl = [slice(None)] * g.ndim
        sl[axis] = slice(o[self.rank], o[self.rank + 1])
        a[:] = self.dev(g[tuple(sl)].copy())
        return a

    def bcast(self, g, part="B", how="to_dist", axis=0):
        if how == "to_dist":
            return self.DA.to_dist(x=self.dev(g.copy()), partition=self.part(part), axis=axis, **self.kw)
        a = self.DA(global_shape=g.shape, partition=self.part(part), axis=axis, dtype=g.dtype, **self.eng, **self.kw)
        a[:] = self.dev(g.copy())
        return a

    def stack(self, arrs):
        return self.SDA(arrs, **self.kw)

    def block(self, g, sizes=None, axis=0):
        sz = sizes if sizes is not None else default_sizes(g.shape[axis], self.size)
        o = offsets(sz)
        sl = [slice(None)] * g.ndim
        sl[axis] = slice(o[self.rank], o[self.rank + 1])
        return g[tuple(sl)].copy()

    # ---- operands that must stay as they are (C07)
    def operand(self, name, obj):
        self.operands.append((name, obj))
        return obj

    def snap(self, obj):
        return snap(self, obj)


def comm_id(comm):
    g = getattr(comm, "_g", None)
    if g is None:
        return None
    return (tuple(g.members), g.id)


def snap(env, o):
    """a deep copy of what one rank sees of an object"""
    if isinstance(o, env.DA):
        la = o.local_array
        dev = isinstance(la, gpu.ndarray)
        return {"k": "d", "loc": np.array(la.get() if dev else la, copy=True), "dev": dev, "gpu": env.gpu, "ls": tuple(int(v) for v in o.local_shape),
                "g": tuple(int(v) for v in o.global_shape), "p": o.partition.name, "ax": int(o.axis),
                "mask": None if o.mask is None else list(o.mask), "dt": str(np.dtype(o.dtype)),
                "comm": comm_id(o.base_comm), "eng": o.engine}
    if isinstance(o, env.SDA):
        return {"k": "s", "parts": [snap(env, a) for a in o.distarrays], "comm": comm_id(o.base_comm)}
    if isinstance(o, gpu.ndarray):
        return {"k": "a", "v": o.get(), "dev": True, "gpu": env.gpu}
    if isinstance(o, np.ndarray):
        return {"k": "a", "v": np.array(o, copy=True), "dev": False, "gpu": env.gpu}
    if isinstance(o, (list, tuple)):
        return {"k": "l", "v": [snap(env, v) for v in o]}
    if isinstance(o, dict):
        return {"k": "m", "v": {k: snap(env, v) for k, v in o.items()}}
    return {"k": "v", "v": o}


def arrays_of(env, o):
    """the writable NumPy arrays an object owns"""
    if isinstance(o, env.DA):
        return [o.local_array]
    if isinstance(o, env.SDA):
        return [a.local_array for a in o.distarrays]
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple)):
        return [a for v in o for a in arrays_of(env, v)]
    return []


def bits(a):
    a = np.asarray(a)
    return (a.shape, a.dtype.str, a.tobytes())


def same_snap(a, b):
    if a["k"] != b["k"]:
        return False
    if a["k"] == "d":
        return bits(a["loc"]) == bits(b["loc"]) and all(a[f] == b[f] for f in ("ls", "g", "p", "ax", "mask", "dt"))
    if a["k"] == "s":
        return len(a["parts"]) == len(b["parts"]) and all(same_snap(x, y) for x, y in zip(a["parts"], b["parts"]))
    if a["k"] == "a":
        return bits(a["v"]) == bits(b["v"])
    if a["k"] == "l":
        return len(a["v"]) == len(b["v"]) and all(same_snap(x, y) for x, y in zip(a["v"], b["v"]))
    if a["k"] == "m":
        return a["v"].keys() == b["v"].keys() and all(same_snap(a["v"][k], b["v"][k]) for k in a["v"])
    x, y = a["v"], b["v"]
    try:
        xa, ya = np.asarray(x), np.asarray(y)
        if xa.dtype.kind in "fciub" and ya.dtype.kind in "fciub":
            return xa.shape == ya.shape and xa.tobytes() == ya.tobytes()
    except Exception:
        pass
    return x == y


class Exp:
    """what one output must be.

    kind 'd': a distributed array with the gathered content `value`
    kind 'v': a value every rank must obtain (same=True: bit for bit the same on all ranks)
    kind 'r': per[r] is what rank r must obtain
    kind 's': parts is a list of Exp for a stacked array
    kind 'f': fn(list of snaps by rank, n) returns an error text or None"""

    def __init__(self, kind="d", value=None, part=None, axis=None, sizes=None, mask="any", tol=None, dtype=None,
                 per=None, parts=None, same=True, fn=None, scale=None, gshape=None, dev=True):
        self.dev = dev
        self.kind, self.value, self.part, self.axis, self.sizes, self.mask = kind, value, part, axis, sizes, mask
        self.tol, self.dtype, self.per, self.parts, self.same, self.fn = tol, dtype, per, parts, same, fn
        self.scale, self.gshape = scale, gshape


def rtol_for(*dts):
    t = 0.0
    for d in dts:
        d = np.dtype(d)
        t = max(t, EPS.get(d.kind, {}).get(d.itemsize, 1e-9))
    return t


def close(got, want, tol, scale=None):
    """None or a description of the difference; tol None = exact (up to the sign of zero), 'bits' = bit for bit"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    if tol == "bits":
        if got.tobytes() != want.tobytes() or got.dtype != want.dtype:
            return f"got {fmt(got)} ({got.dtype}) instead of {fmt(want)} ({want.dtype})"
        return None
    if got.size == 0:
        return None
    if tol is None:
        ok = (got == want) | ((got != got) & (want != want))
        if not np.all(ok):
            return diff(got, want, ~ok)
        return None
    sc = scale if scale is not None else np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
    lim = tol * (np.asarray(sc) + 1e-300) + 1e-300
    with np.errstate(all="ignore"):
        d = np.abs(got - want)
        ok = (d <= lim) | (got == want) | ((got != got) & (want != want))
    if not np.all(ok):
        return diff(got, want, ~ok)
    return None


def fmt(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:8], precision=6, separator=",", threshold=8) + ("..." if a.size > 8 else "")


def diff(got, want, bad):
    bad = np.broadcast_to(bad, got.shape)
    i = tuple(int(v) for v in np.argwhere(bad)[0]) if got.ndim else ()
    return f"{int(np.sum(bad))} of {got.size} element(s) differ, first at {list(i)}: got {got[i]!r}, expected {want[i]!r}"


def check_dist(snaps, e, n, where):
    """snaps: what the n ranks of the group hold of one distributed array"""
    out = []

    def bad(cls, msg):
        out.append((cls, f"{where}: {msg}"))
    s0 = snaps[0]
    for r, s in enumerate(snaps):
        if s["k"] != "d":
            bad("kind", f"rank {r} got {s['k']} instead of a distributed array")
            return out
        for f, nm in (("g", "global shape"), ("p", "partition"), ("ax", "axis"), ("mask", "mask"), ("dt", "dtype")):
            if s[f] != s0[f]:
                bad("disagree", f"{nm} is {s[f]} on rank {r} but {s0[f]} on rank 0")
                return out
        if s["loc"].shape != s["ls"]:
            bad("layout", f"rank {r} declares local shape {s['ls']} but holds {s['loc'].shape}")
            return out
    for r, s in enumerate(snaps):
        if s["eng"] != ("cupy" if s["gpu"] else "numpy") or s["dev"] != s["gpu"]:
            bad("engine", f"rank {r} holds {'device' if s['dev'] else 'host'} memory and engine {s['eng']} instead of "
                          f"{'cupy' if s['gpu'] else 'numpy'}")
            return out
    P = {"SCATTER": "S", "BROADCAST": "B", "UNSAFE_BROADCAST": "U"}[s0["p"]]
    if e.part is not None and P not in e.part:
        bad("layout", f"partition is {s0['p']}")
        return out
    if e.axis is not None and s0["ax"] != e.axis:
        bad("layout", f"axis is {s0['ax']} instead of {e.axis}")
    if e.mask != "any" and s0["mask"] != e.mask:
        bad("mask", f"mask is {s0['mask']} instead of {e.mask}")
    if e.dtype is not None and s0["dt"] != str(np.dtype(e.dtype)):
        bad("dtype", f"dtype is {s0['dt']} instead of {np.dtype(e.dtype)}")
    if e.dtype is not None and any(str(s["loc"].dtype) != str(np.dtype(e.dtype)) for s in snaps):
        bad("dtype", f"stored dtype is {[str(s['loc'].dtype) for s in snaps]} instead of {np.dtype(e.dtype)}")
    want = np.asarray(e.value) if e.value is not None else None
    gshape = tuple(e.gshape) if e.gshape is not None else (None if want is None else want.shape)
    if gshape is not None and s0["g"] != gshape:
        bad("shape", f"global shape {s0['g']} instead of {gshape}")
        return out
    if P == "S":
        ax = s0["ax"]
        sizes = [s["ls"][ax] for s in snaps]
        if sum(sizes) != s0["g"][ax]:
            bad("layout", f"local sizes {sizes} do not add up to {s0['g'][ax]}")
            return out
        for r, s in enumerate(snaps):
            if len(s["ls"]) != len(s0["g"]) or any(s["ls"][i] != s0["g"][i] for i in range(len(s0["g"])) if i != ax):
                bad("layout", f"rank {r} holds {s['ls']} of global {s0['g']}")
                return out
        if e.sizes is not None and list(sizes) != list(e.sizes):
            bad("layout", f"local sizes {sizes} instead of {list(e.sizes)}")
            return out
        if want is not None:
            o = offsets(sizes)
            for r, s in enumerate(snaps):
                sl = [slice(None)] * want.ndim
                sl[ax] = slice(o[r], o[r + 1])
                w = want[tuple(sl)]
                sc = e.scale
                if sc is not None and np.ndim(sc):
                    sc = np.asarray(sc)[tuple(sl)]
                elif sc is None:
                    sc = np.max(np.abs(want[np.isfinite(want)]), initial=0.0) if want.size else 0.0
                d = close(s["loc"], w, e.tol, sc)
                if d:
                    bad("value", f"rank {r} block [{o[r]}:{o[r + 1]}] of axis {ax}: {d}")
                    break
    else:
        for r, s in enumerate(snaps):
            if s["loc"].shape != s["g"]:
                bad("layout", f"rank {r} holds {s['loc'].shape} of broadcast array {s['g']}")
                return out
            if want is not None:
                d = close(s["loc"], want, e.tol, e.scale)
                if d:
                    bad("value", f"rank {r}: {d}")
                    break
        if P == "B" and e.same:
            for r, s in enumerate(snaps):
                if s["loc"].tobytes() != s0["loc"].tobytes():
                    bad("inconsistent", f"broadcast content differs between rank 0 {fmt(s0['loc'])} and rank {r} "
                                        f"{fmt(s['loc'])}")
                    break
    return out


def unsnap(s):
    """plain value of a snapshot"""
    if s["k"] in ("a", "v"):
        return s["v"]
    if s["k"] == "l":
        return [unsnap(v) for v in s["v"]]
    if s["k"] == "m":
        return {k: unsnap(v) for k, v in s["v"].items()}
    return s


def check_out(snaps, e, n, where):
    out = []
    if e.kind == "d":
        return check_dist(snaps, e, n, where)
    if e.kind == "s":
        for r, s in enumerate(snaps):
            if s["k"] != "s":
                return [("kind", f"{where}: rank {r} got {s['k']} instead of a stacked array")]
            if len(s["parts"]) != len(e.parts):
                return [("kind", f"{where}: rank {r} got {len(s['parts'])} parts instead of {len(e.parts)}")]
        for i, pe in enumerate(e.parts):
            out += check_out([s["parts"][i] for s in snaps], pe, n, f"{where}[{i}]")
        return out
    if e.kind == "f":
        m = e.fn([unsnap(s) for s in snaps], n)
        if m:
            out.append(m if isinstance(m, tuple) else ("value", f"{where}: {m}"))
        return out
    if e.dev:
        for r, s in enumerate(snaps):
            if s["k"] == "a" and s["v"].ndim and s["dev"] != s["gpu"]:
                return [("engine", f"{where}: rank {r} got an array in {'device' if s['dev'] else 'host'} memory")]
    vals = [unsnap(s) for s in snaps]
    for r, v in enumerate(vals):
        w = e.per[r] if e.kind == "r" else e.value
        if isinstance(v, dict):
            return [("kind", f"{where}: rank {r} got {v.get('k')} instead of a plain value")]
        d = close(np.asarray(v), np.asarray(w), e.tol, e.scale)
        if d:
            out.append(("value", f"{where}: rank {r}: {d}"))
            break
    if e.kind == "v" and e.same and not out:
        for r in range(1, len(vals)):
            if np.asarray(vals[r]).tobytes() != np.asarray(vals[0]).tobytes():
                out.append(("inconsistent", f"{where}: rank 0 got {vals[0]!r} but rank {r} got {vals[r]!r}"))
                break
    return out


# ---- schedules

STRATS = ["uniform", "uniform", "sticky", "reverse", "netfirst", "netlast", "rr", "starve", "starvesrc", "pct", "pct"]


def gen_sched(rng, n, red="any", poison=True, plain=0.05):
    s = {"seed": rng.randrange(1 << 30), "strategy": rng.choice(STRATS)}
    if rng.random() < plain:
        s["strategy"] = "plain"
    s["rdv"] = rng.choice([0.0, 0.0, 0.3, 1.0, 1.0])
    s["early"] = rng.choice([0.0, 0.5, 1.0])
    s["late"] = rng.choice([0.0, 0.3])
    s["red"] = red if red != "any" else rng.choice(["fixed", "random"])
    s["poison"] = rng.choice(["none", "nan", "huge", "other", "zero"]) if poison else "none"
    return s


def gen_stalls(rng, n, p=0.3):
    out = []
    while rng.random() < p and len(out) < 3:
        out.append({"kind": "stall", "rank": rng.randrange(n), "from": rng.randrange(0, 150),
                    "len": rng.choice([5, 30, 200, 2000])})
    return out


def gen_clock(rng, p=0.3):
    out = []
    while rng.random() < p and len(out) < 3:
        out.append({"kind": "clock", "at": rng.randrange(1, 12), "by": rng.choice([-3600.0, -1e9, 5.0, 1e6, -0.5])})
    return out


def gen_n(rng, lo=1, hi=6):
    k = rng.random()
    if k < 0.12 and lo <= 1:
        return 1
    if k < 0.42:
        return max(lo, 2)
    if k < 0.72:
        return min(hi, max(lo, 3))
    if k < 0.88:
        return min(hi, max(lo, 4))
    if k > 0.98 and hi >= 6:
        return rng.randint(7, 12)
    return rng.randint(max(lo, min(5, hi)), hi)
