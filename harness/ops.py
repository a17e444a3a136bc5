"""Operator specifications (JSON trees): how to build the distributed operator and which dense matrix it must be."""
import functools
import json

import numpy as np

from .base import comm_id, data, default_sizes, gen_sizes, offsets


# ---- vector descriptions -------------------------------------------------------------------------

def S(N, ls=None):
    return {"k": "S", "N": int(N), "ls": None if ls is None else [int(v) for v in ls]}


def B(N):
    return {"k": "B", "N": int(N)}


def ST(parts):
    return {"k": "st", "parts": parts}


def vlen(d):
    return sum(vlen(p) for p in d["parts"]) if d["k"] == "st" else d["N"]


def natural(dims, n):
    rest = int(np.prod(dims[1:]))
    return [v * rest for v in default_sizes(dims[0], n)]


def model(sp, n):
    t = sp["t"]
    if t == "bd":
        return S(sum(c for b in sp["blocks"] for _, c in b), [sum(c for _, c in b) for b in sp["blocks"]])
    if t == "vs":
        return B(sp["cols"])
    if t == "hs":
        return S(sum(sum(b) for b in sp["cols"]), [sum(b) for b in sp["cols"]])
    if t in ("fd", "sd", "lap", "grad"):
        return S(np.prod(sp["dims"]), natural(sp["dims"], n))
    if t == "id":
        return S(sp["N"], sp["ls"])
    if t == "wrap":
        return B(sp["n"])
    if t == "fred":
        return B(sum(sp["nsl"]) * sp["ny"] * sp["nz"])
    if t == "mdc":
        return B(sp["nt"] * sp["nr"] * sp["nv"])
    if t == "sbd":
        return ST([model(o, n) for o in sp["ops"]])
    if t == "svs":
        return model(sp["ops"][0], n)
    if t in ("H", "T"):
        return dataspace(sp["a"], n)
    if t in ("conj", "neg", "scale", "add", "sub", "pow", "bad"):
        return model(sp["a"], n)
    if t == "mul":
        return model(sp["b"], n)
    raise KeyError(t)


def dataspace(sp, n):
    t = sp["t"]
    if t == "bd":
        return S(sum(r for b in sp["blocks"] for r, _ in b), [sum(r for r, _ in b) for b in sp["blocks"]])
    if t == "vs":
        return S(sum(sum(b) for b in sp["rows"]), [sum(b) for b in sp["rows"]])
    if t == "hs":
        return B(sp["rows"])
    if t in ("fd", "sd", "lap", "id"):
        return model(sp, n)
    if t == "grad":
        return ST([model(sp, n)] * len(sp["dims"]))
    if t == "wrap":
        return B(sp["m"])
    if t == "fred":
        return B(sum(sp["nsl"]) * sp["nx"] * sp["nz"])
    if t == "mdc":
        return B(sp["nt"] * sp["ns"] * sp["nv"])
    if t in ("sbd", "svs"):
        return ST([dataspace(o, n) for o in sp["ops"]])
    if t in ("H", "T"):
        return model(sp["a"], n)
    if t in ("conj", "neg", "scale", "add", "sub", "pow", "bad"):
        return dataspace(sp["a"], n)
    if t == "mul":
        return dataspace(sp["a"], n)
    raise KeyError(t)


def parts_of(sp):
    return [sp[k] for k in ("a", "b") if k in sp] + list(sp.get("ops", []))


def leaf_dts(sp):
    ps = parts_of(sp)
    if not ps:
        return {dtype_of(sp)}
    return set().union(*(leaf_dts(q) for q in ps))


def dtype_of(sp):
    ps = parts_of(sp)
    if ps:
        d = np.result_type(*(np.dtype(dtype_of(q)) for q in ps))
        if sp["t"] == "scale" and isinstance(sp["by"], list):
            d = np.result_type(d, np.complex64)
        return d.name
    if sp["t"] == "mdc":
        return "float64"
    return sp.get("dt", "float64")


# ---- dense matrices ------------------------------------------------------------------------------

def blkdiag(ms, dt):
    r, c = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    out = np.zeros((r, c), dtype=dt)
    i = j = 0
    for m in ms:
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i, j = i + m.shape[0], j + m.shape[1]
    return out


def wide(dt):
    return np.complex128 if np.dtype(dt).kind == "c" else np.float64


def mat(seed, sp, r, k, m, n):
    """the matrix of local operator k of rank r"""
    dt = sp.get("dt", "float64")
    if sp.get("mix") is not None and k != (sp["mix"] + r) % blocks_of(sp, r):
        dt = NARROW[dt]     # one operator of every rank has the type of the whole, the others a smaller one
    kind = sp.get("kind", "mat")
    nm = f"op{sp['id']}.{r}.{k}"
    if kind == "spd":
        a = data(seed, nm, (m, n), dt, "normal").astype(wide(dt))
        return (np.eye(m) * 2.0 + a @ a.conj().T / max(1, m)).astype(dt)
    if kind == "hard":    # Hermitian positive definite, takes many iterations
        q = np.linalg.qr(data(seed, nm, (m, n), dt, "normal").astype(wide(dt)))[0]
        return ((q * np.logspace(0, 2.5, m)) @ q.conj().T).astype(dt)
    if kind == "well":    # full column rank, well conditioned
        a = data(seed, nm, (m, n), dt, "normal").astype(wide(dt)) * 0.3
        for i in range(min(m, n)):
            a[i, i] += 2.0
        return a.astype(dt)
    return data(seed, nm, (m, n), dt, sp.get("style", "int"), -3, 3)


NARROW = {"complex128": "float64", "complex64": "float32", "float64": "float32"}


def blocks_of(sp, r):
    return len(sp["blocks" if sp["t"] == "bd" else "rows" if sp["t"] == "vs" else "cols"][r])


def mixed(rng, sp):
    if sp["dt"] in NARROW and sp["style"] == "int" and sp.get("kind", "mat") == "mat" and rng.random() < 0.35:
        sp["mix"] = rng.randrange(6)
    return sp


def kernel(seed, sp):
    if sp["t"] == "fred":
        return data(seed, f"G{sp['id']}", (sum(sp["nsl"]), sp["nx"], sp["ny"]), sp.get("dt", "float64"),
                    sp.get("style", "int"), -3, 3)
    return data(seed, f"G{sp['id']}", (sum(sp["nf"]), sp["ns"], sp["nr"]), "complex128", "normal")


def serial_op(sp):
    import pylops
    t = sp["t"]
    dt = sp.get("dt", "float64")
    dims = tuple(sp["dims"])
    if t == "fd":
        return pylops.FirstDerivative(dims, axis=0, sampling=sp["samp"], kind=sp["kind"], edge=sp["edge"],
                                      order=sp.get("order", 3), dtype=dt)
    if t == "sd":
        return pylops.SecondDerivative(dims, axis=0, sampling=sp["samp"], kind=sp["kind"], edge=sp["edge"], dtype=dt)
    if t == "lap":
        return pylops.Laplacian(dims, axes=tuple(sp["axes"]), weights=tuple(sp["weights"]),
                                sampling=tuple(sp["samp"]), edge=sp["edge"], kind=sp["kind"], dtype=dt)
    raise KeyError(t)


@functools.lru_cache(maxsize=4000)
def _serial_dense(key):
    import pylops
    sp = json.loads(key)
    dt = wide(sp.get("dt", "float64"))
    sp["dt"] = np.dtype(dt).name
    if sp["t"] == "grad":
        dims = tuple(sp["dims"])
        ms = []
        samp = sp["samp"] if isinstance(sp["samp"], list) else [sp["samp"]] * len(dims)
        for ax in range(len(dims)):
            op = pylops.FirstDerivative(dims, axis=ax, sampling=samp[ax], kind=sp["kind"], edge=sp["edge"],
                                        dtype=sp["dt"])
            ms.append(np.stack([op.matvec(e) for e in np.eye(op.shape[1], dtype=dt)], axis=1))
        m = np.vstack(ms)
    else:
        op = serial_op(sp)
        m = np.stack([op.matvec(e) for e in np.eye(op.shape[1], dtype=dt)], axis=1)
    m.setflags(write=False)
    return m


def dense(sp, seed, n):
    """matrix (double precision) that the operator must act as"""
    t = sp["t"]
    dt = wide(dtype_of(sp))
    if t == "bd":
        return blkdiag([mat(seed, sp, r, k, m, c).astype(dt) for r, b in enumerate(sp["blocks"])
                        for k, (m, c) in enumerate(b)], dt)
    if t == "vs":
        return np.vstack([mat(seed, sp, r, k, m, sp["cols"]).astype(dt) for r, b in enumerate(sp["rows"])
                          for k, m in enumerate(b)])
    if t == "hs":
        return np.hstack([mat(seed, sp, r, k, sp["rows"], c).astype(dt) for r, b in enumerate(sp["cols"])
                          for k, c in enumerate(b)])
    if t in ("fd", "sd", "lap", "grad"):
        return _serial_dense(json.dumps({k: v for k, v in sp.items() if k != "id"}, sort_keys=True)).astype(dt)
    if t == "id":
        return np.eye(sp["N"], dtype=dt)
    if t == "wrap":
        return mat(seed, sp, 0, 0, sp["m"], sp["n"]).astype(dt)
    if t == "fred":
        G = kernel(seed, sp).astype(dt)
        I = np.eye(sp["nz"])
        return blkdiag([np.kron(g, I) for g in G], dt)
    if t == "mdc":
        return _mdc_dense(json.dumps(sp, sort_keys=True), seed)
    if t == "sbd":
        return blkdiag([dense(o, seed, n) for o in sp["ops"]], dt)
    if t == "svs":
        return np.vstack([dense(o, seed, n) for o in sp["ops"]])
    a = dense(sp["a"], seed, n)
    if t in ("H",):
        return a.conj().T
    if t == "T":
        return a.T
    if t == "conj":
        return a.conj()
    if t == "neg":
        return -a
    if t == "scale":
        return a * scalar(sp["by"])
    if t == "add":
        return a + dense(sp["b"], seed, n)
    if t == "sub":
        return a - dense(sp["b"], seed, n)
    if t == "mul":
        return a @ dense(sp["b"], seed, n)
    if t == "pow":
        return np.linalg.matrix_power(a, sp["p"])
    if t == "bad":
        return a
    raise KeyError(t)


def absdense(sp, seed, n):
    """bound on the magnitude of intermediate values, for rounding tolerances"""
    t = sp["t"]
    if t in ("add", "sub"):
        return absdense(sp["a"], seed, n) + absdense(sp["b"], seed, n)
    if t == "mul":
        return absdense(sp["a"], seed, n) @ absdense(sp["b"], seed, n)
    if t == "pow":
        return np.linalg.matrix_power(absdense(sp["a"], seed, n), sp["p"])
    if t in ("H", "T"):
        return absdense(sp["a"], seed, n).T
    if t in ("conj", "neg", "bad"):
        return absdense(sp["a"], seed, n)
    if t == "scale":
        return absdense(sp["a"], seed, n) * abs(scalar(sp["by"]))
    if t == "mdc":
        # FFT-based: rounding errors spread over all time samples, so bound by row sums
        m = np.abs(dense(sp, seed, n))
        return np.full(m.shape, np.max(m, initial=0.0))
    return np.abs(dense(sp, seed, n))


def scalar(v, form="py", dt=None):
    """a Python scalar, NumPy scalar or zero-dimensional array"""
    v = complex(v[0], v[1]) if isinstance(v, list) else v
    if form == "py":
        return v
    return np.asarray(v, dtype=dt)[()] if form == "np" else np.asarray(v, dtype=dt)


@functools.lru_cache(maxsize=300)
def _mdc_dense(key, seed):
    import pylops
    sp = json.loads(key)
    G = kernel(seed, sp)
    op = pylops.waveeqprocessing.MDC(G, sp["nt"], sp["nv"], dt=sp["dt_"], dr=sp["dr"], twosided=sp["twosided"],
                                     saveGt=True, conj=sp["conj"], usematmul=False, prescaled=sp["prescaled"])
    return np.stack([np.real(op.matvec(e)) for e in np.eye(op.shape[1])], axis=1)


# ---- distributed operators -----------------------------------------------------------------------

def local_op(env, A, sp, keep, k=0, nblk=1):
    import pylops
    A = env.dev(np.array(A))
    keep.append(A)
    if env.failid is not None and env.failid == sp["id"] and k == min(env.failblk, nblk - 1):
        return failing(env, A)
    if sp.get("lop") == "dense_fn":
        return pylops.FunctionOperator(lambda x: A @ x, lambda x: A.conj().T @ x, A.shape[0], A.shape[1],
                                       dtype=A.dtype)
    return pylops.MatrixMult(A, dtype=A.dtype)


def failing(env, A):
    """the user's local operator, which raises when ctx.local_fail has counted down"""
    import pylops

    def guard(M):
        def f(x):
            if env.ctx.local_fail:
                env.ctx.local_fail -= 1
                if env.ctx.local_fail:
                    return M @ x
                env.ctx.world.fire("local_failure")
                env.ctx.rs.errs.append(env.ctx.rs.phase)
                raise OpFailure("failure of the user's operator")
            return M @ x
        return f
    return pylops.FunctionOperator(guard(A), guard(A.conj().T), A.shape[0], A.shape[1], dtype=A.dtype)


class OpFailure(RuntimeError):
    pass


def local_ids(sp):
    """ids of the members whose local operators are the user's"""
    out = [sp["id"]] if sp["t"] in ("bd", "vs", "hs", "wrap") else []
    for k in ("a", "b"):
        if k in sp:
            out += local_ids(sp[k])
    for o in sp.get("ops", []):
        out += local_ids(o)
    return out


def build(env, sp, keep=None):
    """the distributed operator; keep collects the user's arrays it was given"""
    op = build_(env, sp, keep)
    c = getattr(op, "base_comm", None)
    if c is not None and comm_id(c) is not None and comm_id(c)[0] != comm_id(env.comm)[0]:
        raise AssertionError(f"operator {sp['t']} lives on the communicator of ranks {comm_id(c)[0]} instead of "
                             f"{comm_id(env.comm)[0]}")
    return op


LEAVES = {"bd", "vs", "hs", "fd", "sd", "lap", "grad", "wrap", "fred", "mdc", "id"}
DEFAULTS = {"fd": {"sampling": 1.0, "kind": "centered", "edge": False, "order": 3, "dtype": "float64"},
            "lap": {"axes": (-2, -1), "weights": (1, 1), "sampling": (1, 1), "edge": False, "kind": "centered",
                    "dtype": "float64"},
            "fred": {"nz": 1, "saveGt": False, "usematmul": True, "dtype": "float64"},
            "mdc": {"dt": 1.0, "dr": 1.0, "twosided": True, "saveGt": True, "conj": False, "usematmul": False,
                    "prescaled": False}}
DEFAULTS["sd"] = DEFAULTS["grad"] = DEFAULTS["fd"]


def call(f, sp, args, base, **kw):
    """f(*args, **kw), arguments that have their default value left out if the specification says so"""
    if sp.get("drop"):
        kw = {k: v for k, v in kw.items() if v != DEFAULTS[sp["t"]][k]}
    return f(*args, **kw, **base)


def plain(rng, sp):
    """make some arguments, or all of them, those a caller who leaves them out gets"""
    sp["drop"] = rng.random() < 0.6
    t = sp["t"]
    q = rng.choice([0, 0, 0, 0.5, 1, 1])
    if t == "lap" and q == 1 and len(sp["dims"]) > 1:
        sp.update(axes=[-2, -1], weights=[1, 1], samp=[1, 1], edge=False, kind="centered")
    d = DEFAULTS[t]
    for k, name in (("samp", "sampling"), ("kind", "kind"), ("edge", "edge"), ("order", "order"), ("nz", "nz"),
                    ("saveGt", "saveGt"), ("usematmul", "usematmul"), ("dt_", "dt"), ("dr", "dr"),
                    ("twosided", "twosided"), ("conj", "conj"), ("prescaled", "prescaled")):
        if k in sp and name in d and t != "lap" and rng.random() < q:
            if k == "twosided" and sp["nt"] % 2 == 0:
                continue
            sp[k] = d[name]
            if k == "kind" and t == "fd":
                sp["order"] = 3
    return sp


def build_(env, sp, keep=None):
    pm = env.pm
    keep = keep if keep is not None else []
    t = sp["t"]
    kw = dict(env.kw)
    r = env.rank
    dt = sp.get("dt", "float64")
    if t == "bd":
        ops = [local_op(env, mat(env.seed, sp, r, k, m, c), sp, keep, k, len(sp["blocks"][r]))
               for k, (m, c) in enumerate(sp["blocks"][r])]
        if sp.get("mask") is not None:
            kw["mask"] = list(sp["mask"])
        if sp.get("passdt"):
            kw["dtype"] = dt
        return pm.MPIBlockDiag(ops=ops, **kw)
    if t == "vs":
        ops = [local_op(env, mat(env.seed, sp, r, k, m, sp["cols"]), sp, keep, k, len(sp["rows"][r]))
               for k, m in enumerate(sp["rows"][r])]
        if sp.get("passdt"):
            kw["dtype"] = dt
        return pm.MPIVStack(ops=ops, **kw)
    if t == "hs":
        ops = [local_op(env, mat(env.seed, sp, r, k, sp["rows"], c), sp, keep, k, len(sp["cols"][r]))
               for k, c in enumerate(sp["cols"][r])]
        if sp.get("passdt"):
            kw["dtype"] = dt
        return pm.MPIHStack(ops=ops, **kw)
    if t in ("fd", "sd", "lap", "grad"):
        dims = tuple(sp["dims"])
        if len(dims) == 1 and t in ("fd", "sd") and sp.get("intdims"):
            dims = dims[0]
        if sp.get("dimsform") == "list" and isinstance(dims, tuple):
            dims = list(dims)
        if t == "fd":
            return call(pm.MPIFirstDerivative, sp, [dims], kw, sampling=sp["samp"], kind=sp["kind"], edge=sp["edge"],
                        order=sp.get("order", 3), dtype=dt)
        if t == "sd":
            return call(pm.MPISecondDerivative, sp, [dims], kw, sampling=sp["samp"], kind=sp["kind"], edge=sp["edge"],
                        dtype=dt)
        if t == "lap":
            return call(pm.MPILaplacian, sp, [dims], kw, axes=tuple(sp["axes"]), weights=tuple(sp["weights"]),
                        sampling=tuple(sp["samp"]), edge=sp["edge"], kind=sp["kind"], dtype=dt)
        samp = tuple(sp["samp"]) if isinstance(sp["samp"], list) else sp["samp"]
        return call(pm.MPIGradient, sp, [dims], kw, sampling=samp, kind=sp["kind"], edge=sp["edge"], dtype=dt)
    if t == "id":
        return identity(env, sp)
    if t == "wrap":
        import pylops
        A = env.dev(mat(env.seed, sp, 0, 0, sp["m"], sp["n"]))
        keep.append(A)
        op = failing(env, A) if env.failid == sp["id"] else pylops.MatrixMult(A, dtype=A.dtype)
        if sp.get("as") and not env.explicit:
            return pm.asmpilinearoperator(op)
        return pm.MPILinearOperator(Op=op, **kw)
    if t == "fred":
        o = offsets(sp["nsl"])
        G = env.dev(kernel(env.seed, sp)[o[r]:o[r + 1]].copy())
        keep.append(G)
        return call(pm.signalprocessing.MPIFredholm1, sp, [G], kw, nz=sp["nz"], saveGt=sp["saveGt"],
                    usematmul=sp["usematmul"], dtype=dt)
    if t == "mdc":
        o = offsets(sp["nf"])
        G = env.dev(kernel(env.seed, sp)[o[r]:o[r + 1]].copy())
        keep.append(G)
        return call(pm.waveeqprocessing.MPIMDC, sp, [G, sp["nt"], sp["nv"], sum(sp["nf"]) + sp.get("over", 0)], kw,
                    dt=sp["dt_"], dr=sp["dr"], twosided=sp["twosided"], saveGt=sp["saveGt"], conj=sp["conj"],
                    usematmul=sp["usematmul"], prescaled=sp["prescaled"])
    if t == "sbd":
        return pm.MPIStackedBlockDiag(ops=[build(env, o, keep) for o in sp["ops"]], **kw)
    if t == "svs":
        return pm.MPIStackedVStack(ops=[build(env, o, keep) for o in sp["ops"]], **kw)
    a = build(env, sp["a"], keep)
    if t == "H":
        return a.H
    if t == "T":
        return a.T
    if t == "conj":
        return a.conj()
    if t == "neg":
        return -a
    if t == "scale":
        c = scalar(sp["by"], sp.get("form", "py"))
        return c * a if sp.get("side", "l") == "l" else a * c
    if t == "pow":
        return a ** sp["p"]
    if t == "bad":
        return broken(env, a, sp)
    b = build(env, sp["b"], keep)
    if t == "add":
        return a + b
    if t == "sub":
        return a - b
    if t == "mul":
        return a @ b if sp.get("at") else a * b
    raise KeyError(t)


def identity(env, sp):
    """a user-defined operator whose results are the arrays it was given"""
    class Same(env.pm.MPILinearOperator):
        def __init__(self):
            super().__init__(shape=(sp["N"], sp["N"]), dtype=np.dtype(sp["dt"]), **env.kw)

        def _matvec(self, x):
            return x

        def _rmatvec(self, x):
            return x
    return Same()


def broken(env, a, sp):
    """a user-defined operator whose adjoint does not match its forward"""
    base = env.pm.MPILinearOperator

    class Broken(base):
        def __init__(self):
            super().__init__(shape=a.shape, dtype=a.dtype, **env.kw)

        def _matvec(self, x):
            return a.matvec(x)

        def _rmatvec(self, x):
            r = a.rmatvec(x)
            if "bump" in sp:            # one element of the result is wrong
                j, d = sp["bump"]
                la = r.local_array
                if r.partition == env.P.SCATTER:
                    j -= sum(int(s[0]) for s in r.local_shapes[:env.rank])
                if 0 <= j < la.shape[0]:
                    la[j] += d
                return r
            f = sp["factor"]
            return r * (complex(*f) if isinstance(f, list) else f)
    return Broken()


# ---- vectors -------------------------------------------------------------------------------------

def gvec(seed, name, d, dt, style):
    """global content: an ndarray, or a list of them for stacks"""
    if d["k"] == "st":
        return [gvec(seed, f"{name}.{i}", p, dt, style) for i, p in enumerate(d["parts"])]
    return data(seed, name, (d["N"],), dt, style)


def flat(g):
    return np.concatenate([flat(x) for x in g]) if isinstance(g, list) else g


def dvec(env, name, d, dt, style, layout=None, bpart="B", how="assign", g=None):
    """the distributed vector; layout replaces the natural local sizes of scattered vectors"""
    if d["k"] == "st":
        lay = layout if layout is not None else [None] * len(d["parts"])
        return env.stack([dvec(env, f"{name}.{i}", p, dt, style, lay[i], bpart, how,
                               None if g is None else g[i]) for i, p in enumerate(d["parts"])])
    if g is None:
        g = data(env.seed, name, (d["N"],), dt, style)
    if d["k"] == "B":
        return env.bcast(g, bpart, how)
    sizes = layout if layout is not None else d["ls"]
    return env.scatter(g, sizes, how=how, ls_style=0)


def exp_vec(d, value, tol, scale=None, dtype=None, sizes=False, mask="any"):
    """expected value (base.Exp) of a vector described by d; value is the flat global content"""
    from .base import Exp
    if d["k"] == "st":
        out, o = [], 0
        for p in d["parts"]:
            k = vlen(p)
            out.append(exp_vec(p, value[o:o + k], tol, scale, dtype, sizes, mask))
            o += k
        return Exp("s", parts=out)
    return Exp("d", value, part="S" if d["k"] == "S" else "BU", tol=tol, scale=scale, dtype=dtype,
               sizes=d.get("ls") if (sizes and d["k"] == "S") else None, mask=mask)


# ---- what the stencils need ----------------------------------------------------------------------

def halo(sp, adj):
    """smallest block with which every rank can serve the stencil"""
    t = sp["t"]
    if t == "fd":
        if sp["kind"] != "centered":
            return 1
        if sp.get("order", 3) == 3:
            return 2 if (adj or sp["edge"]) else 1
        return 4 if adj else (3 if sp["edge"] else 2)
    if t == "sd":
        if sp["kind"] == "centered":
            return 3 if sp["edge"] else (2 if adj else 1)
        return 2
    return 3


def blocks_ok(sp, n, adj, wide_=None):
    """are all blocks of the default split big enough?"""
    dims = sp["dims"]
    s = default_sizes(dims[0], n)
    h = halo(sp, adj)
    if sp["t"] == "grad":
        h = halo({"t": "fd", "kind": sp["kind"], "edge": sp["edge"], "order": 3}, adj)
    if sp["t"] == "lap":
        h = 3
    if n == 1:
        return dims[0] >= (4 if sp.get("order", 3) == 5 else MINDIM[sp["t"]])
    return min(s) >= h


MINDIM = {"fd": 1, "sd": 2, "lap": 3, "grad": 5}


def has_pow0(sp):
    """the identity keeps an unsafe-broadcast vector as it is, other operators answer with a broadcast one"""
    return (sp["t"] == "pow" and sp["p"] == 0) or any(has_pow0(sp[k]) for k in ("a", "b") if k in sp) or \
        any(has_pow0(q) for q in sp.get("ops", []))


def all_blocks_ok(sp, n, dirs=(False, True)):
    """no part of the expression needs more than its neighbours hold (dirs: forward, adjoint or both)"""
    if "ops" in sp:
        return all(all_blocks_ok(o, n, dirs) for o in sp["ops"])
    if sp["t"] in ("H", "T"):
        dirs = tuple(not d for d in dirs)
    for k in ("a", "b"):
        if k in sp and not all_blocks_ok(sp[k], n, dirs):
            return False
    if sp["t"] in ("fd", "sd", "lap", "grad"):
        return all(blocks_ok(sp, n, d) for d in dirs)
    return True


def need_ok(frm, to):
    """can a vector laid out as `frm` be redistributed to `to` using neighbours only?"""
    d = np.cumsum(np.asarray(to) - np.asarray(frm))
    n = len(frm)
    for r in range(n):
        front = max(0, -int(d[r - 1])) if r > 0 else 0
        back = max(0, int(d[r])) if r < n - 1 else 0
        if r > 0 and front > frm[r - 1]:
            return False
        if r < n - 1 and back > frm[r + 1]:
            return False
    return True


# ---- generators ----------------------------------------------------------------------------------

_id = [0]


def nid(rng):
    return rng.randrange(1 << 20)


def gen_blocks(rng, n, maxops=3, maxsize=4, square=False, lo=1, zero=0.06):
    out = []
    if rng.random() < 0.03:
        maxops, maxsize = 6, max(maxsize, 24 // max(1, n // 3))
    for _ in range(n):
        b = []
        for _ in range(rng.choice([1, 1, 2, maxops])):
            m = rng.randint(lo, maxsize)
            b.append([m, m if square else rng.randint(lo, maxsize)])
        out.append(b)
    if rng.random() < zero and n > 1:        # blocks of size zero, all the blocks of some ranks
        for r in range(n) if rng.random() < 0.5 else [0]:
            if r == 0 or rng.random() < 0.3:
                out[r] = [[0, 0 if square else rng.choice([0, 0, 2])] for _ in out[r]]
        if not any(m for b in out for m, _ in b) or not any(k for b in out for _, k in b):
            out[-1] = [[2, 2]]
        elif rng.random() < 0.3:
            rng.choice(out).insert(0, [0, 0] if square else rng.choice([[0, 0], [2, 0], [0, 2]]))
    return out


def gen_dims(rng, n, h=5, nd=None, big=False, fit=True):
    nd = nd or rng.choice([1, 1, 2, 2, 3])
    if fit:
        d0 = n * rng.choice([h, h, h + 1]) + rng.randrange(0, n)
        d0 = max(d0, 5)
    else:
        d0 = rng.randint(max(1, n - 1), n * (h + 1))
    if rng.random() < 0.03:
        d0 += rng.randint(20, 60) if nd > 2 else rng.randint(20, 120) if nd == 2 else rng.randint(50, 500)
    return [d0] + [rng.randint(1 if nd < 3 else 2, 4) for _ in range(nd - 1)]


SAMP = [1.0, 1.0, 0.5, 2.0, 0.1, 3, 0.7]


def accepted(sp):
    """enlarges the dimensions until the serial operator, which is the reference, can be applied at all

    (with fewer than 4 samples the adjoint of the serial fifth-order stencil with edges is not its adjoint)"""
    if sp["t"] == "fd" and sp["order"] == 5:
        sp["dims"][0] = max(4, sp["dims"][0])
    for _ in range(8):
        try:
            op = serial_op(sp) if sp["t"] != "grad" else None
            if op is not None:
                for f in (op.matvec, op.rmatvec):
                    f(np.zeros(op.shape[0], dtype=op.dtype))
            return sp
        except Exception:
            sp["dims"] = [d + 1 for d in sp["dims"]]
    return sp


def gen_fd(rng, n, dt="float64", dims=None, fit=True):
    kind = rng.choice(["forward", "backward", "centered", "centered", "centered"])
    order = rng.choice([3, 5]) if kind == "centered" else 3
    sp = {"t": "fd", "samp": rng.choice(SAMP), "kind": kind, "edge": rng.random() < 0.5, "order": order, "dt": dt,
          "dimsform": rng.choice([None, "list"])}
    plain(rng, sp)
    h = max(halo(sp, False), halo(sp, True))
    sp["dims"] = dims or gen_dims(rng, n, max(h, 1), fit=fit)
    if len(sp["dims"]) == 1:
        sp["intdims"] = rng.random() < 0.5
    return sp if dims else accepted(sp)


def gen_sd(rng, n, dt="float64", dims=None, fit=True):
    sp = {"t": "sd", "samp": rng.choice(SAMP), "kind": rng.choice(["forward", "backward", "centered", "centered"]),
          "edge": rng.random() < 0.5, "dt": dt, "dimsform": rng.choice([None, "list"])}
    plain(rng, sp)
    h = max(halo(sp, False), halo(sp, True))
    sp["dims"] = dims or gen_dims(rng, n, h, fit=fit)
    if len(sp["dims"]) == 1:
        sp["intdims"] = rng.random() < 0.5
    return sp if dims else accepted(sp)


def gen_lap(rng, n, dt="float64", dims=None):
    nd = rng.choice([2, 2, 3])
    dims = dims or [n * rng.choice([3, 4]) + rng.randrange(n)] + [rng.randint(3, 5) for _ in range(nd - 1)]
    nd = len(dims)
    k = rng.randint(1, nd)
    axes = rng.sample(range(nd), k)
    if rng.random() < 0.3:
        axes = [a - nd for a in axes]
    return plain(rng, {"t": "lap", "dims": dims, "axes": axes,
                       "weights": [rng.choice([1, 2, -1, 0.5, 3]) for _ in range(k)],
                       "samp": [rng.choice(SAMP) for _ in range(k)], "edge": rng.random() < 0.5,
                       "kind": rng.choice(["centered", "centered", "forward", "backward"]), "dt": dt,
                       "dimsform": rng.choice([None, "list"])})


def gen_grad(rng, n, dt="float64", dims=None):
    nd = rng.choice([1, 2, 2, 3])
    dims = dims or [n * rng.choice([2, 3, 4]) + rng.randrange(n)] + [rng.randint(2, 4) for _ in range(nd - 1)]
    if dims[0] < 5:
        dims[0] += 5
    samp = rng.choice(SAMP) if rng.random() < 0.3 else [rng.choice(SAMP) for _ in dims]
    return plain(rng, {"t": "grad", "dims": dims, "samp": samp, "edge": rng.random() < 0.5,
                       "kind": rng.choice(["centered", "centered", "forward", "backward"]), "dt": dt,
                       "dimsform": rng.choice([None, "list"])})


def gen_bd(rng, n, dt="float64", square=False, kind="mat", mask=None, lo=1):
    return mixed(rng, {"t": "bd", "id": nid(rng), "blocks": gen_blocks(rng, n, square=square or kind in ("spd", "hard"), lo=lo), "dt": dt,
            "kind": kind, "style": rng.choice(["int", "int", "normal"]), "mask": mask,
            "passdt": rng.random() < 0.2, "lop": rng.choice([None, None, "dense_fn"])})


def gen_vs(rng, n, dt="float64"):
    return mixed(rng, {"t": "vs", "id": nid(rng), "rows": [[rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2, 3]))]
                                                for _ in range(n)],
            "cols": rng.randint(1, 5), "dt": dt, "style": rng.choice(["int", "int", "normal"]),
            "passdt": rng.random() < 0.2})


def gen_hs(rng, n, dt="float64"):
    return mixed(rng, {"t": "hs", "id": nid(rng), "cols": [[rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2, 3]))]
                                                for _ in range(n)],
            "rows": rng.randint(1, 5), "dt": dt, "style": rng.choice(["int", "int", "normal"]),
            "passdt": rng.random() < 0.2})


def gen_fred(rng, n, dt=None):
    dt = dt or rng.choice(["float64", "complex128", "float64", "complex128", "float32", "complex64"])
    return plain(rng, {"t": "fred", "id": nid(rng), "nsl": [rng.randint(2, 4 if rng.random() < 0.97 else 20) for _ in range(n)],
                       "nx": rng.randint(2, 4), "ny": rng.randint(2, 4), "nz": rng.choice([1, 1, 2, 3]),
                       "saveGt": rng.random() < 0.5, "usematmul": rng.random() < 0.5, "dt": dt,
                       "style": rng.choice(["int", "normal"])})


def gen_mdc(rng, n):
    nf = [rng.randint(2, 3) for _ in range(n)]
    tot = sum(nf)
    # ceil((nt+1)/2) >= tot
    nt = 2 * tot - 1 + rng.choice([0, 0, 1, 2, 4])
    two = rng.random() < 0.5
    if two and nt % 2 == 0:
        nt += 1
    # asking for more frequencies than there are is allowed: all of them are used
    over = rng.choice([0, 0, 1, 3]) if int(np.ceil((nt + 1) / 2)) == tot else 0
    return plain(rng, {"t": "mdc", "id": nid(rng), "over": over, "nf": nf, "ns": rng.randint(2, 3), "nr": rng.randint(2, 3), "nt": nt,
            "nv": rng.choice([1, 1, 2]), "dt_": rng.choice([1.0, 0.004, 0.5]), "dr": rng.choice([1.0, 5.0, 0.25]),
            "twosided": two, "saveGt": rng.random() < 0.5, "conj": rng.random() < 0.5,
            "usematmul": rng.random() < 0.5, "prescaled": rng.random() < 0.5})


def gen_wrap(rng, n, dt="float64", m=None, k=None):
    hi = 5 if rng.random() < 0.97 else 60
    return {"t": "wrap", "id": nid(rng), "m": m or rng.randint(1, hi), "n": k or rng.randint(1, hi), "dt": dt,
            "style": rng.choice(["int", "normal"]), "as": rng.random() < 0.5}


def gen_base(rng, n, dt, kinds=None):
    k = rng.choice(kinds or ["bd", "bd", "vs", "hs", "fd", "sd", "wrap", "fred", "lap", "id"])
    if k == "id":
        # scaled, so that results are never the operands themselves
        N = rng.randint(1, 3 * n)
        return {"t": "scale", "a": {"t": "id", "N": N, "ls": gen_sizes(rng, N, n), "dt": dt}, "by": gen_scalar(rng, dt),
                "side": rng.choice("lr"), "form": "py"}
    if k in ("fd", "sd", "lap"):
        return {"fd": gen_fd, "sd": gen_sd, "lap": gen_lap}[k](rng, n, dt)
    return {"bd": gen_bd, "vs": gen_vs, "hs": gen_hs, "wrap": gen_wrap, "fred": gen_fred}[k](rng, n, dt)


def dottest_fn(env):
    d = env.pm.utils.dottest
    return d.dottest if hasattr(d, "dottest") else d


def gen_scalar(rng, dt):
    if np.dtype(dt).kind == "c" and rng.random() < 0.6:
        return [rng.choice([0, 1, -2, 0.5]), rng.choice([1, -1, 2])]
    return rng.choice([2, -3, 0.5, 0, 1, -1.0, 1.5])


def like(rng, sp, n):
    """another operator between the same spaces (so that sums make sense)"""
    t = sp["t"]
    if t in ("bd", "vs", "hs", "wrap", "fred"):
        o = dict(sp)
        o["id"] = nid(rng)
        return o
    if t in ("fd", "sd"):
        if rng.random() < 0.5:
            return rng.choice([gen_fd, gen_sd])(rng, n, sp.get("dt", "float64"), dims=list(sp["dims"]))
        o = dict(sp)
        o["samp"] = rng.choice(SAMP)
        return o
    if t == "lap":
        return gen_lap(rng, n, sp.get("dt", "float64"), dims=list(sp["dims"]))
    if t == "id":
        o = {"t": "bd", "id": nid(rng), "blocks": [[[k, k]] if k else [] for k in sp["ls"]], "dt": sp["dt"],
             "style": "int", "kind": "mat"}
        return o if all(sp["ls"]) else dict(sp)
    raise KeyError(t)


def gen_expr(rng, n, dt, depth=3):
    """an operator expression; every node has known spaces"""
    base = gen_base(rng, n, dt)
    return grow(rng, n, base, dt, depth)


def kinds(sp):
    out = {sp["t"]}
    for k in ("a", "b"):
        if k in sp:
            out |= kinds(sp[k])
    for o in sp.get("ops", []):
        out |= kinds(o)
    return out


def square(sp, n):
    return model(sp, n) == dataspace(sp, n)


def grow(rng, n, e, dt, depth, stacked=False):
    for _ in range(depth):
        k = rng.random()
        if k < 0.14:
            e = {"t": "H", "a": e}
        elif k < 0.28:
            e = {"t": "T", "a": e}
        elif k < 0.40:
            e = {"t": "conj", "a": e}
        elif k < 0.48:
            e = {"t": "neg", "a": e}
        elif k < 0.60:
            e = {"t": "scale", "a": e, "by": gen_scalar(rng, dt), "side": rng.choice("lr"),
                 "form": rng.choice(["py", "py", "np"])}
        elif k < 0.80:
            other = twin(rng, n, e, dt, stacked)
            e = {"t": rng.choice(["add", "sub"]), "a": e, "b": other}
            if rng.random() < 0.5:
                e["a"], e["b"] = e["b"], e["a"]
        elif k < 0.92:
            if size_of(e) < 6:
                e = {"t": "mul", "a": {"t": "H", "a": e}, "b": e} if rng.random() < 0.5 else \
                    {"t": "mul", "a": e, "b": {"t": "H", "a": e}}
                e["at"] = rng.random() < 0.4
        elif square(e, n) and size_of(e) < 6:
            e = {"t": "pow", "a": e, "p": rng.choice([0, 1, 2, 2, 3])}
    return e


def retyped(e, dt):
    o = dict(e)
    for k in ("a", "b"):
        if k in o:
            o[k] = retyped(o[k], dt)
    if "ops" in o:
        o["ops"] = [retyped(q, dt) for q in o["ops"]]
    if "dt" in o:
        o["dt"] = dt
        if dt not in NARROW:
            o.pop("mix", None)
    return o


def promote(rng, n, e, dt, stacked=False):
    """mixes an expression of a real type with complex scalars and operators of other types; what comes out maps
    real vectors to complex ones (no products: a real operator casts the complex vector it is given, as in PyLops)"""
    if "ops" in e and rng.random() < 0.5:
        e = dict(e, ops=[retyped(q, rng.choice(MIXED[dt])) if rng.random() < 0.5 else q for q in e["ops"]])
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.35:
            e = {"t": "scale", "a": e, "by": [rng.choice([0, 1, 0.5]), rng.choice([1, -1, 2])], "side": rng.choice("lr"),
                 "form": rng.choice(["py", "py", "np"])}
        elif k < 0.7:
            a, b = e, retyped(twin(rng, n, e, dt, stacked), rng.choice(MIXED[dt]))
            e = {"t": rng.choice(["add", "sub"]), "a": a, "b": b} if rng.random() < 0.5 else \
                {"t": rng.choice(["add", "sub"]), "a": b, "b": a}
        else:
            e = {"t": rng.choice(["H", "T", "conj", "neg"]), "a": e}
    return e


MIXED = {"float32": ["complex64", "complex128", "float64"], "float64": ["complex128", "complex64", "float32"]}


def size_of(e):
    return 1 + sum(size_of(e[k]) for k in ("a", "b") if k in e) + sum(size_of(o) for o in e.get("ops", []))


def twin(rng, n, e, dt, stacked=False):
    """an expression between the same spaces as e"""
    t = e["t"]
    if t in ("H", "T"):
        return {"t": rng.choice(["H", "T"]), "a": twin(rng, n, e["a"], dt, stacked)}
    if t in ("conj", "neg", "scale", "add", "sub", "pow", "mul"):
        if t in ("mul",) or rng.random() < 0.4:
            return {"t": "scale", "a": e, "by": gen_scalar(rng, dt), "side": "r"}
        return twin(rng, n, e["a"], dt, stacked)
    if "ops" in e:
        return {"t": t, "ops": [like(rng, o, n) for o in e["ops"]]}
    return like(rng, e, n)


def tolerance(sp, dt):
    from .base import EPS
    d = np.dtype(dt)
    return EPS[d.kind][d.itemsize]
