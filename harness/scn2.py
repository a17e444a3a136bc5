"""Scenarios: stacked arrays, solvers, plotting, misuse."""
import re

import numpy as np

from . import ops as O
from .base import (Exp, close, data, default_sizes, gen_sizes, lshapes, offsets, rtol_for)
from .scn import FDT, ORDS, Scn, gen_layout, gen_mask, gen_shape, gen_vlayout, kept, mkord, np_norm, register, REG


# ==================================================================================== C26


@register
class Stacked(Scn):
    name = "stacked"
    repeatable = False

    def gen(self, rng, n, o):
        dt = rng.choice(FDT)
        comps = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            g = gen_shape(rng)
            part = rng.choice("SSSBU")
            ax = rng.randrange(len(g))
            if rng.random() < 0.5:
                g[ax] = rng.choice([n, 2 * n + 1, max(1, n - 1)])
            comps.append({"g": g, "part": part, "axis": ax, "sizes": gen_layout(rng, g[ax], n) if part == "S" else None})
        mixed = rng.random() < 0.3
        dts = [[rng.choice(FDT) if mixed else dt for _ in comps] for _ in range(2)]
        now = [[np.dtype(v) for v in x] for x in dts]
        steps = []
        m = 2
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["add", "sub", "mul", "neg", "scale", "rscale", "iadd", "isub", "conj", "copy", "setitem"])
            a, b = rng.randrange(m), rng.randrange(m)
            if k in ("scale", "rscale"):
                cx = (dt[0] == "c") if rng.random() < 0.8 else rng.random() < 0.5
                c = rng.choice([2, [0, 1], [1.5, -2]]) if cx else rng.choice([2, -1, 0.5])
                steps.append([k, a, c])
                now.append([kept(v, (np.zeros(1, v) * O.scalar(c)).dtype) for v in now[a]])
            elif k == "setitem":
                steps.append([k, a, rng.randrange(len(comps))])
                continue
            elif k in ("iadd", "isub"):
                if all(np.can_cast(y, x, "same_kind") for x, y in zip(now[a], now[b])):
                    steps.append([k, a, b])
                continue
            else:
                steps.append([k, a, b])
                now.append([kept(x, np.result_type(x, y)) for x, y in zip(now[a], now[b])] if k in ("add", "sub", "mul")
                           else now[a])
            m += 1
        if not steps:
            steps = [["neg", 0, 0]]
            m = 3
        calls = [rng.choice([["dot", rng.randrange(m), rng.randrange(m)],
                             ["norm", rng.randrange(m), rng.choice([None, 0, 1, 2, 3, "inf", "-inf"])]])
                 for _ in range(rng.randint(1, 3))]
        return {"comps": comps, "dt": dt, "dts": dts, "style": "int" if mixed else rng.choice(["int", "normal"]), "steps": steps, "calls": calls}

    def inits(self, p):
        return [[data(p["seed"], f"x{i}.{c}", q["g"], p["dts"][i][c], p["style"]) for c, q in enumerate(p["comps"])]
                for i in range(2)]

    def build(self, env, p):
        pool = []
        hit = {s[1] for s in p["steps"] if s[0] in ("iadd", "isub", "setitem")}
        for i, gs in enumerate(self.inits(p)):
            parts = []
            for q, g in zip(p["comps"], gs):
                if q["part"] == "S":
                    parts.append(env.scatter(g, q["sizes"], q["axis"]))
                else:
                    parts.append(env.bcast(g, q["part"], axis=q["axis"]))
            s = env.stack(parts)
            pool.append(s)
            if i not in hit:
                env.operand(f"x{i}", s)
        return {"pool": pool}

    def act(self, env, p, st):
        pool = list(st["pool"])
        outs = env.outs()
        for i, s in enumerate(p["steps"]):
            k = s[0]
            a = pool[s[1]]
            if k == "add":
                r = a + pool[s[2]]
            elif k == "sub":
                r = a - pool[s[2]]
            elif k == "mul":
                r = a * pool[s[2]]
            elif k == "neg":
                r = -a
            elif k == "scale":
                r = a * O.scalar(s[2])
            elif k == "rscale":
                r = O.scalar(s[2]) * a
            elif k == "conj":
                r = a.conj()
            elif k == "copy":
                r = a.copy()
            elif k in ("iadd", "isub"):
                t = a
                if k == "iadd":
                    t += pool[s[2]]
                else:
                    t -= pool[s[2]]
                outs.append((f"o{i}", env.snap(t)))
                continue
            elif k == "setitem":
                a[s[2]] = np.asarray(i + 1).astype(a[s[2]].dtype)
                outs.append((f"o{i}", env.snap(a)))
                continue
            pool.append(r)
            outs.append((f"o{i}", env.snap(r)))
        st["live"] = pool[2:]
        outs += [(f"pool{j}", env.snap(v)) for j, v in enumerate(pool)]
        for i, c in enumerate(p["calls"]):
            if c[0] == "dot":
                outs.append((f"c{i}", pool[c[1]].dot(pool[c[2]])))
            else:
                outs.append((f"c{i}", pool[c[1]].norm(mkord(c[2]))))
        outs.append(("all", pool[-1].asarray()))
        return outs

    def oracle(self, p, n):
        pool = [[v.copy() for v in x] for x in self.inits(p)]
        dt = np.result_type(*(v for x in p["dts"] for v in x), *(v for x in pool for v in x))
        if any(s[0] in ("scale", "rscale") and isinstance(s[2], list) for s in p["steps"]):
            dt = np.result_type(dt, np.complex64)
        d = {}

        def ex(vs):
            return Exp("s", parts=[Exp("d", v.copy(), part=q["part"], axis=q["axis"], tol=None, dtype=v.dtype, mask=None,
                                       sizes=(q["sizes"] or default_sizes(q["g"][q["axis"]], n)) if q["part"] == "S" else None)
                                   for q, v in zip(p["comps"], vs)])
        for i, s in enumerate(p["steps"]):
            k = s[0]
            a = pool[s[1]]
            with np.errstate(all="ignore"):
                if k in ("add", "sub", "mul", "iadd", "isub"):
                    b = pool[s[2]]
                    f = {"add": lambda x, y: x + y, "iadd": lambda x, y: x + y, "sub": lambda x, y: x + (-y),
                         "isub": lambda x, y: x + (-y), "mul": lambda x, y: x * y}[k]
                    r = [f(x, y) for x, y in zip(a, b)]
                    r = [y.astype(kept(x.dtype, y.dtype)) for x, y in zip(a, r)]
                    if k in ("iadd", "isub"):
                        for x, y in zip(a, r):
                            x[...] = y
                        d[f"o{i}"] = ex(a)
                        continue
                elif k == "neg":
                    r = [-x for x in a]
                elif k in ("scale", "rscale"):
                    r = [x * O.scalar(s[2]) for x in a]
                elif k == "conj":
                    r = [x.conj() for x in a]
                elif k == "copy":
                    r = [x.copy() for x in a]
                elif k == "setitem":
                    a[s[2]][...] = np.asarray(i + 1).astype(a[s[2]].dtype)
                    d[f"o{i}"] = ex(a)
                    continue
            pool.append([x.copy() for x in r])
            d[f"o{i}"] = ex([x.copy() for x in r])
        for j, v in enumerate(pool):
            d[f"pool{j}"] = ex(v)
        t = max(rtol_for(v) for x in p["dts"] for v in x)
        w = O.wide(dt)

        def cat(v):
            return np.concatenate([x.ravel() for x in v])
        for i, c in enumerate(p["calls"]):
            if c[0] == "dot":
                pr = cat(pool[c[1]]).astype(w) * cat(pool[c[2]]).astype(w)
                sc = float(np.sum(np.abs(pr)))
                v = np.sum(pr)
            else:
                v = np_norm(cat(pool[c[1]]), c[2])
                sc = float(np.abs(v))
            d[f"c{i}"] = Exp("v", v, tol=t, scale=sc, same=all(q["part"] != "U" for q in p["comps"]) or True)

        def allv():
            # the documented order: component after component, each gathered along its own axis
            return np.concatenate([x.ravel() for x in pool[-1]])
        d["all"] = Exp("v", allv(), tol=None)
        return d

    def shrink(self, p):
        if len(p["calls"]) > 1:
            for i in range(len(p["calls"])):
                q = dict(p)
                q["calls"] = p["calls"][:i] + p["calls"][i + 1:]
                yield q
        for i in range(len(p["steps"])):
            if p["steps"][i][0] in ("iadd", "isub", "setitem") and len(p["steps"]) > 1:
                q = dict(p)
                q["steps"] = p["steps"][:i] + p["steps"][i + 1:]
                yield q


# ==================================================================================== C16 / C17 / C18 / C25


def shaky(noise):
    """rounding errors of about 10 eps on every vector the noisy reference computes"""
    if noise is None:
        return lambda v: v
    rng = np.random.RandomState(noise)
    return lambda v: v * (1 + 2e-15 * rng.standard_normal(np.shape(v)))


def cg_ref(M, y, x0, niter, tol, noise=None):
    z = shaky(noise)
    x = x0.copy()
    r = z(y - M @ x)
    c = r.copy()
    k = abs(np.vdot(r, r))
    cost, xs, ks = [np.sqrt(k)], [], [k]
    it = 0
    while it < niter and k > tol:
        q = z(M @ c)
        a = k / abs(np.vdot(q, c))
        x = x + a * c
        r = z(r - a * q)
        kn = abs(np.vdot(r, r))
        c = z(r + (kn / k) * c)
        k = kn
        it += 1
        cost.append(np.sqrt(k))
        xs.append(x.copy())
        ks.append(k)
    return x, it, np.array(cost), xs, ks


def cgls_ref(A, y, x0, niter, tol, damp, noise=None):
    z = shaky(noise)
    d2 = damp ** 2
    AH = A.conj().T
    x = x0.copy()
    s = z(y - A @ x)
    r = z(AH @ s - d2 * x)
    c = r.copy()
    q = z(A @ c)
    k = abs(np.vdot(r, r))
    cost = [np.linalg.norm(s)]
    cost1 = [np.sqrt(cost[0] ** 2 + d2 * abs(np.vdot(x, x)))]
    xs, ks = [], [k]
    it = 0
    while it < niter and k > tol:
        a = k / (abs(np.vdot(q, q)) + d2 * abs(np.vdot(c, c)))
        x = x + a * c
        s = z(s - a * q)
        r = z(AH @ s - d2 * x)
        kn = abs(np.vdot(r, r))
        c = z(r + (kn / k) * c)
        q = z(A @ c)
        k = kn
        it += 1
        cost.append(np.linalg.norm(s))
        cost1.append(np.sqrt(cost[-1] ** 2 + d2 * abs(np.vdot(x, x))))
        xs.append(x.copy())
        ks.append(k)
    return x, it, np.array(cost), np.array(cost1), xs, ks


def gen_spd(rng, n, dt):
    """Hermitian positive definite operator specification, well conditioned"""
    k = rng.choice(["bd", "bd", "vsn", "hsn", "fdn", "sbd", "svsn", "wrap", "lapn"])
    if k == "bd":
        return {"t": "bd", "id": O.nid(rng), "blocks": O.gen_blocks(rng, n, square=True, zero=0.15), "dt": dt, "kind": "spd",
                "lop": rng.choice([None, "dense_fn"])}
    if k == "wrap":
        m = rng.randint(1, 6)
        return {"t": "wrap", "id": O.nid(rng), "m": m, "n": m, "dt": dt, "kind": "spd"}
    if k == "vsn":
        v = O.gen_vs(rng, n, dt)
        v["style"] = "normal"
        w = {"t": "wrap", "id": O.nid(rng), "m": v["cols"], "n": v["cols"], "dt": dt, "kind": "spd"}
        return {"t": "add", "a": {"t": "mul", "a": {"t": "H", "a": v}, "b": v}, "b": w}
    if k == "hsn":
        h = O.gen_hs(rng, n, dt)
        h["style"] = "normal"
        w = {"t": "wrap", "id": O.nid(rng), "m": h["rows"], "n": h["rows"], "dt": dt, "kind": "spd"}
        return {"t": "add", "a": {"t": "mul", "a": h, "b": {"t": "H", "a": h}}, "b": w}
    if k in ("fdn", "lapn"):
        f = rng.choice([O.gen_fd, O.gen_sd])(rng, n, dt, dims=[5 * n + rng.randrange(n)] if rng.random() < 0.6 else
                                             [5 * n, 2])
        f["samp"] = 1.0
        b = {"t": "bd", "id": O.nid(rng), "blocks": [[[m, m]] for m in O.natural(f["dims"], n)], "dt": dt, "kind": "spd"}
        return {"t": "add", "a": {"t": "mul", "a": {"t": "H", "a": f}, "b": f}, "b": b}
    if k == "sbd":
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            q = gen_spd(rng, n, dt)
            while q["t"] in ("sbd",) or "svs" in str(q):
                q = gen_spd(rng, n, dt)
            ops.append(q)
        return {"t": "sbd", "ops": ops}
    # normal operator of a vertical stack, the first member square and well conditioned
    b = {"t": "bd", "id": O.nid(rng), "blocks": O.gen_blocks(rng, n, square=True), "dt": dt, "kind": "well"}
    c = dict(b)
    c["id"] = O.nid(rng)
    s = {"t": "svs", "ops": [b, c]}
    return {"t": "mul", "a": {"t": "H", "a": s}, "b": s}


def gen_ls(rng, n, dt):
    """least-squares operator specification"""
    k = rng.choice(["bd", "bd", "vs", "hs", "fd", "sbd", "svs", "grad", "wrap", "H"])
    if k == "H":
        e = gen_ls(rng, n, dt)
        return {"t": "H", "a": e} if e["t"] not in ("grad", "svs") else e
    if k == "bd":
        bl = []
        for _ in range(n):
            b = []
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.randint(1, 3)
                b.append([c + rng.randint(0, 2), c])
            bl.append(b)
        return {"t": "bd", "id": O.nid(rng), "blocks": bl, "dt": dt, "kind": "well"}
    if k == "vs":
        v = O.gen_vs(rng, n, dt)
        v["kind"] = "well"
        return v
    if k == "hs":
        v = O.gen_hs(rng, n, dt)
        v["kind"] = "well"
        return v
    if k == "wrap":
        return {"t": "wrap", "id": O.nid(rng), "m": rng.randint(2, 6), "n": rng.randint(1, 4), "dt": dt, "kind": "well"}
    if k == "fd":
        return rng.choice([O.gen_fd, O.gen_sd])(rng, n, dt, dims=[5 * n])
    if k == "grad":
        return O.gen_grad(rng, n, dt)
    if k == "sbd":
        return {"t": "sbd", "ops": [gen_ls_simple(rng, n, dt) for _ in range(rng.choice([1, 2, 3]))]}
    b = {"t": "bd", "id": O.nid(rng), "blocks": O.gen_blocks(rng, n, square=True), "dt": dt, "kind": "well"}
    c = dict(b)
    c["id"] = O.nid(rng)
    return {"t": "svs", "ops": [b, c] if rng.random() < 0.7 else [b, c, dict(b, id=O.nid(rng))]}


def gen_ls_simple(rng, n, dt):
    while True:
        e = gen_ls(rng, n, dt)
        if e["t"] in ("bd", "vs", "hs", "wrap"):
            return e


@register
class Solve(Scn):
    name = "solve"

    def gen(self, rng, n, o):
        dt = rng.choice(["float64", "complex128"])
        kind = o.get("solver") or rng.choice(["cg", "cgls"])
        long = rng.random() < 0.05
        if long:        # many iterations
            sp = {"t": "bd", "id": O.nid(rng), "blocks": O.gen_blocks(rng, n, maxops=2, maxsize=90 // n, square=True, lo=30 // n),
                  "dt": dt, "kind": rng.choice(["spd", "hard"]) if kind == "cg" else "well", "lop": None}
        else:
            sp = gen_spd(rng, n, dt) if kind == "cg" else gen_ls(rng, n, dt)
        p = {"kind": kind, "op": sp, "dt": dt, "x0": rng.choice(["zero", "rand", "rand"]),
             "damp": 0.0 if kind == "cg" else rng.choice([0.0, 0.0, 0.5, 1.0, 2.0, 0.1, 3, -0.5, -1]),
             "bp": rng.choice("BBBU"), "y": rng.choice(["rand", "rand", "consistent"]),
             "mode": o.get("mode") or rng.choice(["func", "solve", "manual", "runs"]),
             "show": bool(o.get("show", rng.random() < 0.2)), "itershow": rng.choice([[10, 10, 10], [1, 1, 2], [0, 0, 1], [2, 0, 3], [0, 3, 50], [3, 2, 100], [1, 4, 7]]),
             "cb": rng.random() < 0.8, "lay": rng.random() < 0.15, "niterarg": rng.choice([None, "run", "setup"])}
        seed = p["seed"] = rng.randrange(1 << 30)
        N = O.vlen(O.model(sp, n))
        # how far to iterate: until the serial reference has converged to rounding level at most
        want = rng.choice(["full", "full", "tol", "short"])
        cap = 60 if long else o.get("maxit", 14)
        M, y, x0 = self.problem(p, n)
        if kind == "cg":
            ks = cg_ref(M, y, x0, cap, 0.0)[4]
        else:
            ks = cgls_ref(M, y, x0, cap, 0.0, p["damp"])[5]
        good = len(ks) - 1
        for i, k in enumerate(ks):
            if not np.isfinite(k) or k <= 1e-13 * ks[0] or k < 1e-18:
                good = i
                break
        p["niter"] = max(0, good)
        p["tol"] = max(1e-30, 1e-22 * float(ks[0])) if np.isfinite(ks[0]) else 1e-30
        if ks[0] < 1e-18:
            p["tol"] = 1e-12
            p["niter"] = 3
        p["converged"] = bool(good < len(ks) - 1 or (ks[good] <= 1e-13 * ks[0]))
        if want == "short" and good > 1:
            p["niter"] = rng.randint(1, good)
            p["converged"] = False
        p["pos"] = rng.random() < 0.3       # positional arguments
        p["cbs"] = rng.random() < 0.3       # a list of callback objects instead of a callback function
        p["drop"] = rng.random() < 0.5      # leave out arguments that have their default values
        if rng.random() < 0.15 and p["damp"] == 0.0:
            stop = next((i for i, k in enumerate(ks) if not k > 1e-4), None)
            if (stop is not None and stop <= good) or good >= 10:
                p["niter"], p["tol"], p["converged"], p["drop"], want = 10, 1e-4, False, True, "default"
        if want == "tol":
            cand = [i for i in range(good) if ks[i] > 3 * ks[i + 1]]
            if cand:
                i = rng.choice(cand)
                mono = min(ks[:i + 1])
                if mono > 3 * ks[i + 1]:
                    p["tol"] = float(np.sqrt(mono * ks[i + 1]))
                    p["niter"] = good + rng.randint(0, 3)
                    p["converged"] = False
        if p["bp"] == "U" and {"vs", "hs", "fred", "mdc"} & O.kinds(sp):
            p["bp"] = "B"      # these operators answer with a broadcast vector
        if p["mode"] == "runs":
            p["cuts"] = sorted(rng.randint(0, max(0, p["niter"])) for _ in range(rng.randint(1, 3)))
        if p["lay"]:
            p["ly"] = gen_vlayout(rng, O.dataspace(sp, n), n, 0.0)
            p["ly"] = None     # right-hand sides must share the layout of the operator's output
        return p

    def problem(self, p, n):
        sp, seed = p["op"], p["seed"]
        M = O.dense(sp, seed, n)
        dt = p["dt"]
        xt = O.flat(O.gvec(seed, "xt", O.model(sp, n), dt, "normal"))
        if p["y"] == "consistent":
            y = M @ xt
            if np.dtype(dt).kind != "c":
                y = y.real
        else:
            y = O.flat(O.gvec(seed, "y", O.dataspace(sp, n), dt, "normal"))
        x0 = O.flat(O.gvec(seed, "x0", O.model(sp, n), dt, "normal"))
        if p["x0"] == "zero":
            x0 = x0 * 0
        return M, y, x0

    def split(self, flatv, d):
        if d["k"] == "st":
            out, o = [], 0
            for q in d["parts"]:
                out.append(self.split(flatv[o:o + O.vlen(q)], q))
                o += O.vlen(q)
            return out
        return flatv

    def build(self, env, p):
        n = env.size
        sp = p["op"]
        M, y, x0 = env.ctx.memo(("solve", p["seed"]), lambda: self.problem(p, n))
        keep = []
        op = O.build(env, sp, keep)
        for i, k in enumerate(keep):
            env.operand(f"kernel{i}", k)
        dy, dx = O.dataspace(sp, n), O.model(sp, n)
        ya = O.dvec(env, "y", dy, p["dt"], "normal", None, p["bp"], "to_dist", self.split(y, dy))
        xa = O.dvec(env, "x0", dx, p["dt"], "normal", None, p["bp"], "to_dist", self.split(x0, dx))
        env.operand("y", ya)
        env.operand("x0", xa)
        return {"op": op, "y": ya, "x0": xa, "solver": None}

    def recorder(self, env, cb):
        from pylops.optimization.callback import Callbacks

        class Rec(Callbacks):
            def on_step_end(self, solver, x):
                cb(x)
        return Rec()

    def act(self, env, p, st, mode=None, show=None):
        pm = env.pm
        mode = mode or p["mode"]
        show = p["show"] if show is None else show
        cls = pm.optimization.cls_basic.CG if p["kind"] == "cg" else pm.optimization.cls_basic.CGLS
        its = []
        live = []

        def cb(x):
            its.append(env.snap(x))
            if p.get("cbfail") is not None and len(its) == p["cbfail"] and env.ctx.failcb:
                env.ctx.world.fire("local_failure")
                env.ctx.rs.errs.append(env.ctx.rs.phase)
                raise O.OpFailure("callback failure")
        kw = {"niter": p["niter"], "tol": p["tol"], "show": show, "itershow": tuple(p["itershow"])}
        if p["kind"] == "cgls":
            kw["damp"] = p["damp"]
        dflt = {"niter": 10, "tol": 1e-4, "damp": 0.0, "show": False, "itershow": (10, 10, 10)}
        if p["drop"]:
            kw = {k: v for k, v in kw.items() if v != dflt[k] or (k == "niter" and mode in ("manual", "runs"))}
        outs = env.outs()
        res = None
        if mode == "func":
            f = pm.cg if p["kind"] == "cg" else pm.cgls
            if p["pos"]:
                a = [st["op"], st["y"], st["x0"]]
                for k in (["niter", "tol"] if p["kind"] == "cg" else ["niter", "damp", "tol"]) + ["show", "itershow"]:
                    if k not in kw:
                        break
                    a.append(kw.pop(k))
                res = f(*a, **({"callback": cb} if p["cb"] else {}), **kw)
            else:
                res = f(st["op"], st["y"], x0=st["x0"], callback=cb if p["cb"] else None, **kw)
        else:
            s = st.get("reuse")
            if not s and p["cbs"] and p["cb"] and not p.get("modes"):
                s = cls(st["op"], callbacks=[self.recorder(env, cb)])
            elif not s:
                s = cls(st["op"])
                if p["cb"]:
                    s.callback = cb
            elif p["cb"]:
                s.callback = cb
            if mode == "solve":
                res = s.solve(y=st["y"], x0=st["x0"], **kw)
            else:
                kw.pop("itershow", None)
                if mode == "runs" and p["niterarg"] == "run":
                    kw["niter"] = None
                x = s.setup(y=st["y"], x0=st["x0"], **kw)
                if mode == "manual":
                    while s.iiter < p["niter"] and s.kold > p["tol"]:
                        x = s.step(x, show)
                        if p["cb"] and not s.callbacks:
                            s.callback(x)
                else:
                    for c in p["cuts"]:
                        x = s.run(x, c, show=show, itershow=tuple(p["itershow"]))
                    if p["niterarg"] == "setup":      # known from the setup
                        x = s.run(x, show=show, itershow=tuple(p["itershow"]))
                    else:
                        x = s.run(x, p["niter"], show=show, itershow=tuple(p["itershow"]))
                s.finalize(show)
                res = (x, s.iiter, s.cost) if p["kind"] == "cg" else (x, s.istop, s.iiter, s.r1norm, s.r2norm, s.cost)
            st["last"] = s
        if p["kind"] == "cg":
            x, it, cost = res
        else:
            x, stop, it, r1, r2, cost = res
            outs += [("istop", int(stop)), ("r1", float(r1)), ("r2", float(r2))]
        outs += [("x", x), ("it", int(it)), ("cost", np.asarray(cost))]
        if p["cb"]:
            outs.append(("iters", list(its)))
            outs.append(("ncb", len(its)))
        return outs

    def oracle(self, p, n):
        M, y, x0 = self.problem(p, n)
        sp = p["op"]
        damp = p["damp"]
        dx = O.model(sp, n)
        d = {}
        if p["kind"] == "cg":
            x, it, cost, xs, ks = cg_ref(M, y, x0, p["niter"], p["tol"])
            c1 = cost
        else:
            x, it, cost, c1, xs, ks = cgls_ref(M, y, x0, p["niter"], p["tol"], damp)
        sx = float(np.max(np.abs(np.concatenate([x, x0])), initial=0.0)) + 1e-12
        sc = float(max(np.max(np.abs(cost)), np.max(np.abs(c1)), np.linalg.norm(y))) + 1e-12
        # what rounding errors alone do to this run: the reference with noise of a few eps in every vector
        tol, tolc, split = 1e-6, 1e-7, False
        spread = [0.0] * len(xs)
        for nz in (1, 2, 3):
            if p["kind"] == "cg":
                x1, it1, co1, xs1, ks1 = cg_ref(M, y, x0, p["niter"], p["tol"], nz)
                cc1 = co1
            else:
                x1, it1, co1, cc1, xs1, ks1 = cgls_ref(M, y, x0, p["niter"], p["tol"], damp, nz)
            # a decision that noise of this size could turn
            split = split or it1 != it or any(50 * abs(np.sqrt(a) - np.sqrt(b)) >= abs(np.sqrt(b) - np.sqrt(p["tol"]))
                                              for a, b in zip(ks1, ks))
            for j in range(min(len(xs), len(xs1))):
                spread[j] = max(spread[j], 200 * float(np.max(np.abs(xs1[j] - xs[j]), initial=0.0)) / sx)
            m = min(len(cost), len(co1))
            tolc = max(tolc, 200 * float(max(np.max(np.abs(cost[:m] - co1[:m])), np.max(np.abs(c1[:m] - cc1[:m])))) / sc)
        spread = [float(np.nan_to_num(max(tol, v), nan=1.0)) for v in spread]
        tolx = spread[-1] if spread else tol
        d["x"] = O.exp_vec(dx, x, tolx, sx, p["dt"], True)
        # counts are exact unless the last decision was taken at rounding level
        # (the square roots of the k's carry an absolute error of a few eps times the scale of what they are made of)
        nm = float(np.linalg.norm(M)) if M.size else 0.0
        big = np.linalg.norm(y) + nm * max(np.linalg.norm(v) for v in [x0] + xs)
        fl = 2e4 * np.finfo(float).eps * float(big if p["kind"] == "cg" else big * nm + damp ** 2 * sx)
        rt = np.sqrt(p["tol"])
        close_call = any(abs(np.sqrt(k) - rt) < 1e-6 * max(np.sqrt(k), rt) + fl for k in ks) or (ks[0] < 1e-18) or split
        if not close_call:
            d["it"] = Exp("v", it)
        else:
            d["it"] = Exp("f", fn=lambda vals, n: None if all(v == vals[0] and v <= p["niter"] for v in vals) else
                          f"iteration counts {vals}")
        # the residual history has absolute accuracy ~ eps * cond * cost[0]
        if not close_call:
            d["cost"] = Exp("v", cost, tol=tolc, scale=sc, dev=False)
        else:
            d["cost"] = Exp("f", fn=lambda vals, n: None if all(len(v) <= p["niter"] + 1 for v in vals) else "too long")
        hold = {}

        def gather(snaps, q):
            if q["k"] == "st":
                return np.concatenate([gather([s["parts"][i] for s in snaps], w) for i, w in enumerate(q["parts"])])
            return snaps[0]["loc"] if q["k"] == "B" else np.concatenate([s["loc"] for s in snaps])

        def iters(vals, n):
            if close_call:
                return None
            for r in range(n):
                if len(vals[r]) != it:
                    return ("callback", f"callback ran {len(vals[r])} times on rank {r} for {it} iterations")
            for j in range(it):
                xj = gather([vals[r][j] for r in range(n)], dx)
                df = close(xj, xs[j], spread[j], sx)
                if df:
                    return ("callback", f"iterate {j + 1} given to the callback: {df}")
            return None
        d["iters"] = Exp("f", fn=iters)

        def truec(vals, n):
            return None
        if p["kind"] == "cgls":
            d["r1"] = Exp("v", cost[-1], tol=tolc, scale=sc)
            d["r2"] = Exp("v", c1[-1], tol=tolc, scale=sc)
            if not close_call:
                d["istop"] = Exp("v", 1 if ks[-1] < p["tol"] else 2)
            if close_call:
                del d["r1"], d["r2"]
        if p["converged"] and not close_call:
            if p["kind"] == "cg":
                w = np.linalg.solve(M, y)
                e2 = O.exp_vec(dx, w, 1e-4, float(np.max(np.abs(np.concatenate([w, x0])), initial=0.0)) + 1e-9)
                d["x2"] = e2
            else:
                g0 = float(np.linalg.norm(M.conj().T @ y)) + float(np.linalg.norm(M)) ** 2 * float(np.linalg.norm(x0)) + 1e-12

                def grad(snaps, n):
                    xx = gather(snaps, dx)
                    g = M.conj().T @ (y - M @ xx) - damp ** 2 * xx
                    if np.linalg.norm(g) > 1e-5 * g0:
                        return ("not-a-minimiser", f"gradient of the damped functional is {np.linalg.norm(g):.3e} "
                                                   f"(initial scale {g0:.3e}) at the returned solution")
                d["x2"] = Exp("f", fn=grad)
        return d

    def shrink(self, p):
        if p["niter"] > 1:
            q = dict(p)
            q["niter"] = 1
            q["converged"] = False
            if "cuts" in q:
                q["cuts"] = [0]
            yield q
        if p["op"]["t"] == "sbd" and len(p["op"]["ops"]) > 1:
            pass


@register
class SolveTwin(Solve):
    """the same problem driven in two different ways: results must agree bit for bit (C18)"""
    name = "solve_twin"

    def gen(self, rng, n, o):
        p = super().gen(rng, n, {**o, "mode": "runs"})
        p["modes"] = rng.sample(["func", "solve", "manual", "runs"], rng.choice([2, 2, 3]))
        p["cb"] = True
        p["reuse"] = rng.random() < 0.5
        p["dirty"] = rng.random() < 0.5
        return p

    def act(self, env, p, st):
        outs = env.outs()
        reuse = None
        for i, m in enumerate(p["modes"]):
            st["reuse"] = reuse if p["reuse"] else None
            o = super().act(env, p, st, mode=m)
            outs += [(f"{nm}@{i}", env.snap(v)) for nm, v in o]
            if p["reuse"] and m != "func":
                reuse = st.get("last")
                if p["dirty"] and reuse is not None:
                    # abandon a half-finished run on the same object
                    kw = {"damp": p["damp"]} if p["kind"] == "cgls" else {}
                    x = reuse.setup(y=st["y"], x0=st["x0"], niter=2, tol=p["tol"], **kw)
                    if reuse.kold > 0:
                        reuse.run(x, min(1, p["niter"]))
        return outs

    def oracle(self, p, n):
        base = super().oracle(p, n)
        d = {}
        for i in range(len(p["modes"])):
            for k, e in base.items():
                d[f"{k}@{i}"] = e
        return d

    def twins(self, p):
        return [(f"{k}@0", f"{k}@{i}") for i in range(1, len(p["modes"])) for k in
                ("x", "it", "cost", "iters", "istop", "r1", "r2", "ncb")]


@register
class SolveShow(Solve):
    """with and without progress display (C25)"""
    name = "solve_show"

    def gen(self, rng, n, o):
        p = super().gen(rng, n, {**o})
        p["show"] = True
        return p

    def act(self, env, p, st):
        rs = env.ctx.rs
        outs = env.outs()
        n0 = rs.ncalls
        for i, show in enumerate((False, True)):
            rs.out.clear()
            n0 = rs.ncalls
            t0 = env.ctx.world.now
            o = super().act(env, p, st, show=show)
            outs += [(f"{nm}@{i}", env.snap(v)) for nm, v in o]
            outs.append((f"calls@{i}", rs.ncalls - n0))
            o = dict(o)
            first = None
            if p["cb"]:
                first = [self.first(x) for x in o["iters"]]
            outs.append((f"text@{i}", ["".join(rs.out), o["cost"], o["it"], first, o.get("r2"),
                                       env.ctx.world.now - t0 + env.ctx.world.clock_amount]))
        return outs

    @staticmethod
    def must_show(p, it):
        """iterations that have to be displayed: the first ones, the last ones (one less than documented)"""
        if p["mode"] == "manual":
            return set(range(1, it + 1))
        out, b = set(), 0
        a, z, _ = p["itershow"]
        for c in (p["cuts"] if p["mode"] == "runs" else []) + [p["niter"]]:
            e = min(c, it)
            out |= {i for i in range(b + 1, e + 1) if i <= a or c - i + 1 < z}
            b = max(b, e)
        return out

    @staticmethod
    def first(snap):
        while "parts" in snap:
            snap = snap["parts"][0]
        a = np.asarray(snap["loc"])
        return a.flat[0] if a.size else None

    @staticmethod
    def between(p, it, seen):
        """every N3-th iteration in between, not all of them"""
        if p["mode"] == "manual":
            return
        a, z, every = p["itershow"]
        b = 0
        for c in (p["cuts"] if p["mode"] == "runs" else []) + [p["niter"]]:
            e = min(c, it)
            mid = [i for i in range(max(b, a) + 1, e + 1) if c - i + 1 > z]
            shown = [i for i in mid if i in seen]
            if len(shown) > len(mid) // every + 1:
                return f"iterations {shown} displayed among {mid} with itershow={p['itershow']}"
            for k in range(len(mid) - every + 1):
                if mid[k + every - 1] - mid[k] == every - 1 and not set(mid[k:k + every]) & set(shown):
                    return f"none of the iterations {mid[k:k + every]} displayed with itershow={p['itershow']}"
            b = max(b, e)

    @classmethod
    def check_text(cls, p, text, cost, it, first, r2, span):
        seen = []
        for name, v in (("niter", p["niter"]), ("tol", p["tol"])):
            m = re.search(r"\b%s = ([-+.\w]+)" % name, text)
            if m and (name != "niter" or p["mode"] != "runs" or p["niterarg"] == "setup") and \
                    abs(float(m.group(1)) - v) > 1e-5 * abs(v):
                return f"{m.group(0)} displayed, it is {v}"
        m = re.search(r"Iterations = (\d+)", text)
        if not m or int(m.group(1)) != it:
            return f"no summary with the number of iterations, {it}" if not m else f"{m.group(0)} displayed after {it}"
        m = re.search(r"Total time \(s\) = (\S+)", text)
        if m and not abs(float(m.group(1))) <= span + 0.01:
            return f"{m.group(0)} displayed, at most {span} s have passed"
        for ln in text.splitlines():
            t = ln.split()
            if len(t) < 3 or not t[0].isdigit():
                continue
            i = int(t[0])
            if not 1 <= i <= it or seen and i <= seen[-1]:
                return f"iteration {i} displayed after {seen} in a run of {it}"
            seen.append(i)
            try:
                v = float(t[-1] if p["kind"] == "cg" else t[-2])
                x0 = complex(t[1])
                if p["kind"] == "cgls" and i == it and not abs(float(t[-1]) - r2) <= 1e-3 * abs(r2) + 1e-300:
                    return f"r2norm {t[-1]} displayed for the last iteration, it is {r2}"
            except ValueError:
                return f"no residual norm in the line {ln!r}"
            if abs(v - cost[i]) > 1e-3 * abs(cost[i]) + 1e-300:
                return f"residual norm {v} displayed for iteration {i}, it is {cost[i]}"
            w = first[i - 1] if first else None
            if w is not None and not abs(x0 - w) <= 1e-2 * abs(w):
                return f"x[0] = {t[1]} displayed for iteration {i}, it is {w}"
        miss = cls.must_show(p, it) - set(seen)
        if miss:
            return f"iteration(s) {sorted(miss)} of {it} not displayed with itershow={p['itershow']}, mode {p['mode']}"
        return cls.between(p, it, set(seen))

    def oracle(self, p, n):
        base = super().oracle(p, n)
        d = {}
        for i in range(2):
            for k, e in base.items():
                d[f"{k}@{i}"] = e
        d["text@0"] = Exp("f", fn=lambda vals, n: None if not any(v[0] for v in vals) else
                          ("output", f"printed without show: {vals}"))

        def text(vals, n):
            if any(v[0] for v in vals[1:]):
                return ("output", "printed on a rank other than 0: " + repr([v[0] for v in vals[1:] if v[0]][0][:80]))
            if not vals[0][0]:
                return ("output", "nothing printed on rank 0 although show=True")
            m = self.check_text(p, *vals[0])
            return m and ("output", m)
        d["text@1"] = Exp("f", fn=text)
        return d

    def twins(self, p):
        return [(f"{k}@0", f"{k}@1") for k in ("x", "it", "cost", "iters", "istop", "r1", "r2", "calls", "ncb")]


# ==================================================================================== C28


@register
class Plot(Scn):
    name = "plot"

    def gen(self, rng, n, o):
        g = [rng.randint(1, 6), rng.randint(1, 6)]
        ax = rng.randrange(2)
        g[ax] = rng.choice([n, 2 * n, 2 * n + 1, max(1, n - 1), 3])
        kind = rng.choice(["dist", "local", "dist", "local", "dist_B", "notarr", "local_B", "dist_U"])
        return {"g": g, "axis": ax, "sizes": gen_layout(rng, g[ax], n), "fn": kind, "dt": rng.choice(["float64", "float32", "int64"]),
                "title": rng.choice([None, "T"]), "v": rng.choice([None, [-1, 1]])}

    def build(self, env, p):
        v = data(p["seed"], "x", p["g"], p["dt"])
        if p["fn"] in ("dist_B", "local_B", "dist_U"):
            a = env.bcast(v, p["fn"][-1])
        else:
            a = env.scatter(v, p["sizes"], p["axis"])
        env.operand("x", a)
        return {"a": a}

    def act(self, env, p, st):
        pl = env.pm.plotting.plotting
        log = env.ctx.plotlog
        del log[:]
        if p["fn"] == "notarr":
            try:
                pl.plot_distributed_array(np.zeros((2, 2)))
                return [("err", "none")]
            except TypeError:
                return [("err", "TypeError")]
        if p["fn"] == "dist_B":
            try:
                pl.plot_distributed_array(st["a"])
                return [("err", "none")]
            except NotImplementedError:
                return [("err", "NotImplementedError")]
        if p["fn"] in ("dist", "dist_U"):
            pl.plot_distributed_array(st["a"])
        else:
            kw = {} if p["v"] is None else {"vmin": p["v"][0], "vmax": p["v"][1]}
            pl.plot_local_arrays(st["a"], p["title"], **kw)
        imgs = [(path, [np.array(x) for x in a if isinstance(x, np.ndarray)], {k: v for k, v in kw.items() if k in ("vmin", "vmax")})
                for path, a, kw in log if any(isinstance(x, np.ndarray) and x.ndim == 2 for x in a)]
        return [("log", [[path, a[0], kw] for path, a, kw in imgs]), ("n", len(log))]

    def oracle(self, p, n):
        v = data(p["seed"], "x", p["g"], p["dt"])
        if p["fn"] in ("notarr", "dist_B"):
            return {"err": Exp("v", "TypeError" if p["fn"] == "notarr" else "NotImplementedError")}
        sz = p["sizes"] or default_sizes(p["g"][p["axis"]], n)
        off = offsets(sz)
        d = {"n": Exp("f", fn=lambda vals, n: None if not any(vals[1:]) else
                      ("drawn-elsewhere", f"drawing calls per rank: {vals}"))}

        def log(vals, n):
            if any(vals[1:]):
                return ("drawn-elsewhere", "images drawn on a rank other than 0")
            L = vals[0]
            if p["fn"] == "dist_U":
                want = [v]
                if len(L) < 1 or close(L[0][1], v, None):
                    return "the drawn array is not the gathered one"
                return None
            if p["fn"] == "dist":
                own = np.zeros(p["g"])
                for r in range(n):
                    sl = [slice(None)] * 2
                    sl[p["axis"]] = slice(off[r], off[r + 1])
                    own[tuple(sl)] = r
                want = [v, own]
            elif p["fn"] == "local":
                want = []
                for r in range(n):
                    sl = [slice(None)] * 2
                    sl[p["axis"]] = slice(off[r], off[r + 1])
                    want.append(v[tuple(sl)])
            else:
                want = [v] * n
            if len(L) != len(want):
                return f"{len(L)} images drawn instead of {len(want)}"
            axes = [x[0] for x in L]
            if len(set(axes)) != len(axes):
                return f"images drawn on top of each other: {axes}"
            key = sorted(range(len(L)), key=lambda i: (len(axes[i]), axes[i]))
            for i, w in zip(key, want):
                df = close(L[i][1], w, None)
                if df:
                    return f"image on {axes[i]}: {df}"
                if p["fn"].startswith("local") and p["v"] is not None and (L[i][2].get("vmin"), L[i][2].get("vmax")) != tuple(p["v"]):
                    return f"colour limits {L[i][2]} instead of {p['v']}"
        d["log"] = Exp("f", fn=log)
        return d


# ==================================================================================== C23


MIS = {}


def mis(name, *exc):
    def deco(f):
        MIS[name] = (f, exc)
        return f
    return deco


def _two(env, p, a, b):
    return (env.scatter(env.data("a", (p["N"],)), a), env.scatter(env.data("b", (p["N"],)), b))


@mis("add_partition", ValueError)
def _(env, p):
    a = env.scatter(env.data("a", (p["N"],)))
    b = env.bcast(env.data("b", (p["N"],)), p["bp"])
    if p["swap"]:
        a, b = b, a
    return lambda: BIN[p["bin"]](a, b)


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "dot": lambda a, b: a.dot(b),
       "iadd": lambda a, b: a.__iadd__(b), "isub": lambda a, b: a.__isub__(b)}


@mis("add_layout_one", ValueError)
def _(env, p):
    """layouts that differ on two ranks only"""
    s = default_sizes(p["N"], env.size)
    t = list(s)
    i = p["i"] % env.size
    j = (i + 1) % env.size
    if i == j or t[i] == 0:
        return None
    t[i] -= 1
    t[j] += 1
    a, b = _two(env, p, s, t)
    if p["swap"]:
        a, b = b, a
    return lambda: BIN[p["bin"]](a, b)


@mis("add_shape", ValueError)
def _(env, p):
    a = env.scatter(env.data("a", (p["N"],)))
    b = env.scatter(env.data("b", (p["N"] + env.size,)))
    return lambda: BIN[p["bin"]](a, b)


@mis("add_shape_one", ValueError)
def _(env, p):
    """global sizes that differ by one: only one rank's block differs"""
    a = env.scatter(env.data("a", (p["N"],)))
    b = env.scatter(env.data("b", (p["N"] + 1,)))
    return lambda: BIN[p["bin"]](a, b)


def _masks(n):
    """different masks of n ranks, the absent one included"""
    out = [None, [0] * n, [r % 2 for r in range(n)], [1] + [0] * (n - 1), list(range(n)), [r // 2 for r in range(n)]]
    return [m for i, m in enumerate(out) if m not in out[:i]]


@mis("mask_mismatch", ValueError)
def _(env, p):
    ms = _masks(env.size)
    i = p["i"] % len(ms)
    j = (i + 1 + p["i"] // len(ms) % (len(ms) - 1)) % len(ms)
    if p["swap"]:
        i, j = j, i
    a = env.scatter(env.data("a", (p["N"],)), None, 0, ms[i])
    b = env.scatter(env.data("b", (p["N"],)), None, 0, ms[j])
    return lambda: BIN[p["bin"]](a, b)


@mis("add_layout_group", ValueError)
def _(env, p):
    """layouts that differ within one of the groups of the mask only"""
    if env.size < 3:
        return None
    mask = [0, 0] + [1] * (env.size - 2)
    if p["i"] % 2:
        mask = mask[::-1]
    g = [r for r in range(env.size) if mask[r] == mask[p["i"] // 2 % env.size]]
    s = [v + 1 for v in default_sizes(p["N"], env.size)]
    t = list(s)
    if len(g) < 2:
        return None
    t[g[0]] -= 1
    t[g[-1]] += 1
    n = sum(s)
    a = env.scatter(env.data("a", (n,)), s, 0, mask)
    b = env.scatter(env.data("b", (n,)), t, 0, mask)
    if p["swap"]:
        a, b = b, a
    return lambda: BIN[{"iadd": "add", "isub": "sub", "dot": "mul"}.get(p["bin"], p["bin"])](a, b)


@mis("bad_ls_len", ValueError)
def _(env, p):
    ls = [(2,)] * (env.size + 1)
    return lambda: env.DA(global_shape=2 * (env.size + 1), local_shapes=ls, **env.kw)


@mis("bad_ls_sum", ValueError)
def _(env, p):
    s = default_sizes(p["N"], env.size)
    s[p["i"] % env.size] += 1
    return lambda: env.DA(global_shape=p["N"], local_shapes=[(v,) for v in s], **env.kw)


@mis("bad_ls_other_dim", ValueError)
def _(env, p):
    ls = [(v, 3) for v in default_sizes(p["N"], env.size)]
    i = p["i"] % env.size
    ls[i] = (ls[i][0], 4)
    return lambda: env.DA(global_shape=(p["N"], 3), local_shapes=ls, **env.kw)


@mis("bad_ls_bcast", ValueError)
def _(env, p):
    ls = [(p["N"],)] * env.size
    ls[p["i"] % env.size] = (p["N"] + 1,)
    return lambda: env.DA(global_shape=p["N"], local_shapes=ls, partition=env.part(p["bp"]), **env.kw)


@mis("bad_axis", IndexError)
def _(env, p):
    return lambda: env.DA(global_shape=(p["N"], 2), axis=2 + p["i"] % 3, **env.kw)


@mis("bad_partition", ValueError, TypeError)
def _(env, p):
    return lambda: env.DA(global_shape=p["N"], partition="Scatter?", **env.kw)


@mis("norm_fro", ValueError)
def _(env, p):
    a = env.scatter(env.data("a", (p["N"],)))
    return lambda: a.norm(["fro", "nuc"][p["i"] % 2])


@mis("norm_axis", NotImplementedError)
def _(env, p):
    a = env.scatter(env.data("a", (p["N"], 3)), axis=p["i"] % 2)
    return lambda: a.norm(axis=1 - p["i"] % 2)


@mis("stack_count", ValueError)
def _(env, p):
    a = env.stack([env.scatter(env.data("a", (p["N"],)))])
    b = env.stack([env.scatter(env.data("a", (p["N"],))), env.scatter(env.data("b", (p["N"],)))])
    if p["swap"]:
        a, b = b, a
    return lambda: BIN[p["bin"]](a, b)


@mis("stack_shape", ValueError)
def _(env, p):
    a = env.stack([env.scatter(env.data("a", (p["N"],))), env.scatter(env.data("b", (p["N"],)))])
    b = env.stack([env.scatter(env.data("a", (p["N"],))), env.scatter(env.data("b", (p["N"] + 1,)))])
    if p["swap"]:
        a, b = b, a
    return lambda: BIN[p["bin"]](a, b)


@mis("stack_norm", ValueError)
def _(env, p):
    a = env.stack([env.scatter(env.data("a", (p["N"],)))])
    return lambda: a.norm(["fro", "nuc"][p["i"] % 2])


def _ops(env, p):
    sp = p["ops"][p["i"] % len(p["ops"])]
    return sp, O.build(env, sp)


@mis("op_dim", ValueError)
def _(env, p):
    sp, op = _ops(env, p)
    fwd = p["swap"]
    d = O.model(sp, env.size) if fwd else O.dataspace(sp, env.size)
    N = O.vlen(d) + 1
    x = env.scatter(env.data("a", (N,))) if d["k"] == "S" else env.bcast(env.data("a", (N,)))
    return lambda: op.matvec(x) if fwd else op.rmatvec(x)


@mis("op_2d", ValueError)
def _(env, p):
    sp, op = _ops(env, p)
    x = env.scatter(env.data("a", (O.vlen(O.model(sp, env.size)), 1)))
    return lambda: op.dot(x)


@mis("op_partition", ValueError)
def _(env, p):
    sp = p["ops"][p["i"] % len(p["ops"])]
    n = env.size
    fwd = p["swap"]
    d = O.model(sp, n) if fwd else O.dataspace(sp, n)
    if sp["t"] == "wrap" or (sp["t"] in ("fd", "sd", "lap") and p["bp"] == "B"):
        return None
    op = O.build(env, sp)
    g = env.data("a", (O.vlen(d),))
    x = env.bcast(g, p["bp"]) if d["k"] == "S" else env.scatter(g)
    return lambda: op.matvec(x) if fwd else op.rmatvec(x)


@mis("vstack_cols", ValueError)
def _(env, p):
    """operators of one rank have another number of columns than all others, or differ among themselves"""
    import pylops
    n = env.size
    if n == 1 or (p["swap"] and env.rank == p["i"] % n):
        ops = [pylops.MatrixMult(np.ones((2, 3))), pylops.MatrixMult(np.ones((2, 4)))]
    else:
        ops = [pylops.MatrixMult(np.ones((2, 4 if env.rank == p["i"] % n else 3)))]
    return lambda: env.pm.MPIVStack(ops, **env.kw)


@mis("hstack_rows", ValueError)
def _(env, p):
    import pylops
    n = env.size
    if n == 1 or (p["swap"] and env.rank == p["i"] % n):
        ops = [pylops.MatrixMult(np.ones((3, 2))), pylops.MatrixMult(np.ones((2, 2)))]
    else:
        ops = [pylops.MatrixMult(np.ones((4 if env.rank == p["i"] % n else 3, 2)))]
    return lambda: env.pm.MPIHStack(ops, **env.kw)


@mis("fd_kind", NotImplementedError)
def _(env, p):
    f = env.pm.MPIFirstDerivative if p["swap"] else env.pm.MPISecondDerivative
    return lambda: f((p["N"], 2), kind="sideways", **env.kw)


@mis("fd_order", NotImplementedError)
def _(env, p):
    return lambda: env.pm.MPIFirstDerivative(p["N"], kind="centered", order=[1, 4, 7][p["i"] % 3], **env.kw)


@mis("lap_sizes", ValueError)
def _(env, p):
    kw = [{"weights": (1,)}, {"sampling": (1, 1, 1)}, {"axes": (0,)}][p["i"] % 3]
    return lambda: env.pm.MPILaplacian((p["N"], 3), **kw, **env.kw)


@mis("fredholm_one", NotImplementedError)
def _(env, p):
    nsl = 1 if env.rank == p["i"] % env.size else 2
    return lambda: env.pm.signalprocessing.MPIFredholm1(np.ones((nsl, 2, 3)), nz=2, **env.kw)


@mis("mdc_even", ValueError)
def _(env, p):
    return lambda: env.pm.waveeqprocessing.MPIMDC(np.ones((2, 2, 2), dtype=complex), 10, 1, 2 * env.size, twosided=True,
                                                  **env.kw)


@mis("sum_shape", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    b = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((3 if env.rank == p["i"] % env.size else 2, 2)))], **env.kw)
    return lambda: a + b if p["swap"] else a - b


@mis("prod_shape", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    b = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((3 if env.rank == p["i"] % env.size else 2, 2)))], **env.kw)
    return lambda: a * b if p["swap"] else a @ b


@mis("pow_bad", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    b = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((3, 2)))], **env.kw)
    return lambda: [lambda: a ** -1, lambda: a ** 0.5, lambda: b ** 2][p["i"] % 3]()


@mis("matmul_scalar", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    return lambda: a @ 2.0 if p["swap"] else 2.0 @ a


@mis("svs_cols", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    b = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 3)))], **env.kw)
    return lambda: env.pm.MPIStackedVStack([a, b], **env.kw)


@mis("stackop_dim", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
    s = env.pm.MPIStackedBlockDiag([a, a], **env.kw)
    x = env.stack([env.scatter(env.data("a", (2 * env.size,))), env.scatter(env.data("a", (2 * env.size + 1,)))])
    return lambda: s.matvec(x) if p["swap"] else s.rmatvec(x)


@mis("run_niter_none", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)], **env.kw)
    cls = env.pm.optimization.cls_basic.CG if p["swap"] else env.pm.optimization.cls_basic.CGLS
    y = env.scatter(env.data("y", (2 * env.size,)), [2] * env.size)
    x0 = env.scatter(env.data("x", (2 * env.size,)), [2] * env.size)

    def f():
        s = cls(a)
        x = s.setup(y=y, x0=x0)
        return s.run(x)
    return f


@mis("solver_dim", ValueError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)], **env.kw)
    y = env.scatter(env.data("y", (2 * env.size,)), [2] * env.size)
    x0 = env.scatter(env.data("x", (2 * env.size + 1,)))
    f = env.pm.cg if p["swap"] else env.pm.cgls
    return lambda: f(a, y, x0=x0, niter=3)


@mis("ghost_short", ValueError)
def _(env, p):
    n = env.size
    if n == 1:
        return None
    s = [3] * n
    i = p["i"] % n
    s[i] = 1
    a = env.scatter(env.data("a", (sum(s),)), s)
    front = p["swap"] and i < n - 1 or i == 0
    # only the neighbour of the short block asks for more than it has
    want = [1] * n
    want[i + 1 if front else i - 1] = 2
    if front:
        return lambda: a.add_ghost_cells(cells_front=want[env.rank])
    return lambda: a.add_ghost_cells(cells_back=want[env.rank])


@mis("small_blocks", ValueError, IndexError)
def _(env, p):
    n = env.size
    if n < 3:
        return None
    op = env.pm.MPIFirstDerivative(n + p["i"] % n, kind="centered", order=5, **env.kw)
    x = env.scatter(env.data("a", (n + p["i"] % n,)))
    return lambda: op.matvec(x) if p["swap"] else op.rmatvec(x)


def _bd(env, r=2, c=2, one=None, **k):
    """a block-diagonal operator of r x c blocks, on rank `one` of (r + 1) x c blocks"""
    import pylops
    return env.pm.MPIBlockDiag([pylops.MatrixMult(np.ones((r + 1 if env.rank == one else r, c)))], **env.kw)


@mis("bad_ls_ndim", ValueError)
def _(env, p):
    """one rank's local shape has another number of dimensions"""
    ls = [(v, 3) for v in default_sizes(p["N"], env.size)]
    i = p["i"] % env.size
    ls[i] = (ls[i][0],) if p["swap"] else (ls[i][0], 3, 1)
    return lambda: env.DA(global_shape=(p["N"], 3), local_shapes=ls, **env.kw)


@mis("nonop", ValueError)
def _(env, p):
    a = _bd(env)
    if p["swap"]:
        a = env.pm.MPIStackedBlockDiag([a, a], **env.kw)
    return [lambda: a + 3, lambda: a - 3.0, lambda: a + np.ones(2)][p["i"] % 3]


@mis("stk_mixed", ValueError)
def _(env, p):
    """operators on arrays and on stacked arrays do not mix"""
    a = _bd(env)
    s = env.pm.MPIStackedBlockDiag([a], **env.kw)
    return [lambda: a + s, lambda: s + a, lambda: s - a, lambda: a - s][p["i"] % 4]


@mis("stk_sum_shape", ValueError)
def _(env, p):
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    b = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env, one=p["i"] % env.size)], **env.kw)
    return lambda: a + b if p["swap"] else b - a


@mis("stk_prod_shape", ValueError)
def _(env, p):
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    b = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env, one=p["i"] % env.size)], **env.kw)
    v = env.pm.MPIStackedVStack([_bd(env), _bd(env)], **env.kw)
    return [lambda: a @ b, lambda: a * b, lambda: v @ a, lambda: v @ v, lambda: b.H @ a][p["i"] % 5]


@mis("stk_prod_count", ValueError)
def _(env, p):
    """same shapes, stacked differently"""
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    b = env.pm.MPIStackedBlockDiag([_bd(env, 4, 4)], **env.kw)
    return lambda: a @ b if p["swap"] else b * a


@mis("stk_pow_bad", ValueError)
def _(env, p):
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    b = env.pm.MPIStackedVStack([_bd(env), _bd(env)], **env.kw)
    return [lambda: a ** -1, lambda: a ** 0.5, lambda: b ** 2][p["i"] % 3]


@mis("stk_matmul_scalar", ValueError)
def _(env, p):
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    return lambda: a @ 2.0 if p["swap"] else 2.0 @ a


@mis("stk_2d", ValueError)
def _(env, p):
    a = env.pm.MPIStackedBlockDiag([_bd(env), _bd(env)], **env.kw)
    one = env.scatter(env.data("a", (2 * env.size,)), [2] * env.size)
    two = env.scatter(env.data("a", (2 * env.size, 1)), [2] * env.size)
    x = env.stack([one, two] if p["swap"] else [two, two])
    return lambda: a @ x if p["i"] % 2 else a.dot(x)


@mis("stk_dim_arr", ValueError)
def _(env, p):
    """stacked operators on (or onto) plain arrays of a wrong size"""
    v = env.pm.MPIStackedVStack([_bd(env), _bd(env)], **env.kw)
    x = env.scatter(env.data("a", (2 * env.size + 1,)))
    return [lambda: v.matvec(x), lambda: v @ x, lambda: v.H.rmatvec(x), lambda: (2 * v) @ x][p["i"] % 4]


@mis("repl_partition", ValueError)
def _(env, p):
    """operators on replicated arrays refuse scattered ones"""
    import pylops
    n = env.size
    if p["i"] % 3:
        op = env.pm.signalprocessing.MPIFredholm1(np.ones((2, 3, 4)), nz=2, **env.kw)
        fwd = p["swap"]
    else:
        v = p["swap"]
        op = (env.pm.MPIVStack if v else env.pm.MPIHStack)([pylops.MatrixMult(np.ones((2, 2)))], **env.kw)
        fwd = v
    x = env.scatter(env.data("a", (op.shape[1 if fwd else 0],)))
    return lambda: op.matvec(x) if fwd else op.rmatvec(x)


@mis("dottest_raise", AssertionError)
def _(env, p):
    """the dot test of an operator whose adjoint is wrong on one rank only"""
    import pylops
    bad = env.rank == p["i"] % env.size

    class Wrong(pylops.LinearOperator):
        def _matvec(self, x):
            return x.copy()

        def _rmatvec(self, x):
            return -3 * x if bad else x.copy()
    a = env.pm.MPIBlockDiag([Wrong(dtype="float64", shape=(2, 2))], **env.kw)
    u = env.scatter(np.abs(env.data("y", (2 * env.size,))) + 1, [2] * env.size)
    return lambda: O.dottest_fn(env)(a, u, u, raiseerror=True)


@mis("plot_bad", TypeError, NotImplementedError)
def _(env, p):
    b = env.bcast(env.data("a", (3, 3)))
    pl = env.pm.plotting.plotting
    return lambda: pl.plot_distributed_array(b if p["swap"] else env.data("a", (3, 3)))


@mis("dottest_shape", AssertionError)
def _(env, p):
    import pylops
    a = env.pm.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)], **env.kw)
    u = env.scatter(env.data("y", (2 * env.size,)), [2] * env.size)
    dt = O.dottest_fn(env)
    return lambda: dt(a, u, u, nr=2 * env.size + 1) if p["swap"] else dt(a, u, u, nc=1 + 2 * env.size)


@register
class Misuse(Scn):
    """documented misuse: refused with the documented error by every rank; library usable afterwards"""
    name = "misuse"

    def gen(self, rng, n, o):
        return {"m": rng.choice(sorted(MIS)), "N": n * rng.choice([2, 3]) + rng.randrange(n + 1), "i": rng.randrange(12),
                "swap": rng.random() < 0.5, "bin": rng.choice(sorted(BIN)), "bp": rng.choice("BU"),
                "ops": [O.gen_base(rng, n, "float64", ["bd", "bd", "vs", "hs", "fd", "sd", "wrap", "fred", "lap"])
                        for _ in range(2)]}

    def act(self, env, p, st):
        f, exc = MIS[p["m"]]
        try:
            g = f(env, p)
        except exc as e:
            return [("prep", repr(e))]
        if g is None:
            return [("res", "skip")]
        try:
            r = g()
            res = "returned " + type(r).__name__
        except exc:
            res = "refused"
        except Exception as e:
            res = f"wrong error {type(e).__name__}"
        # the library must still work
        a = env.scatter(env.data("z", (2 * env.size + 1,)))
        return [("res", res), ("alive", a.dot(a)), ("z", a.asarray())]

    def oracle(self, p, n):
        z = data(p["seed"], "z", (2 * n + 1,))

        def res(vals, n):
            if any(v not in ("refused", "skip") for v in vals):
                return ("not-refused", f"{p['m']}: outcome per rank {vals}")

        return {"res": Exp("f", fn=res), "alive": Exp("v", float(np.sum(z * z)), tol=1e-12), "z": Exp("v", z)}
