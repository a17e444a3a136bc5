"""Scenarios: small collective programs with generated parameters and an independent (serial NumPy) oracle.

A scenario has gen(rng, n, o) -> JSON parameters, build(env, p) -> objects, act(env, p, st) -> [(name, object)],
oracle(p, n) -> {name: Exp}.  oracle may contain "__raises__": the operation must fail on every rank, or
"__may_raise__": it may fail, but then on every rank."""
import numpy as np

from . import ops as O
from .base import (Exp, close, data, default_sizes, gen_sizes, lshapes, offsets, rtol_for)

REG = {}


def register(c):
    REG[c.name] = c()
    return c


class Scn:
    name = None
    repeatable = True     # act may be called again on the same objects
    collective = True

    def gen(self, rng, n, o):
        raise NotImplementedError

    def build(self, env, p):
        return {}

    def act(self, env, p, st):
        raise NotImplementedError

    def oracle(self, p, n):
        return {}

    def shrink(self, p):
        return []


FDT = ["float64", "float64", "complex128", "complex128", "float32", "complex64"]
ANYDT = FDT + ["int64", "int32", "int8", "uint8", "float16", "bool"]


def gen_shape(rng, o=None, maxnd=3):
    nd = rng.choice([1, 1, 2, 2, 3][:2 + maxnd])
    if rng.random() < 0.03:     # large arrays
        return {1: [rng.randint(500, 20000)], 2: [rng.randint(20, 200), rng.randint(20, 100)],
                3: [rng.randint(10, 30) for _ in range(3)]}[min(nd, maxnd)]
    return [rng.choice([1, 2, 3, 4, 5, 6, 7, 9]) for _ in range(min(nd, maxnd))]


def gen_layout(rng, total, n, p_default=0.35, zeros=True):
    return None if rng.random() < p_default else gen_sizes(rng, total, n, zeros)


# ==================================================================================== C01


@register
class RoundTrip(Scn):
    name = "roundtrip"

    def gen(self, rng, n, o):
        g = gen_shape(rng)
        ax = rng.randrange(len(g))
        if rng.random() < 0.5:
            g[ax] = rng.choice([n, n + 1, 2 * n - 1, 3 * n + 1, max(1, n - 1), rng.randint(1, 12)])
        part = rng.choice("SSSSBU")
        p = {"g": g, "axis": ax, "part": part, "dt": rng.choice(ANYDT), "how": rng.choice(["assign", "to_dist"]),
             "special": rng.random() < 0.3, "int_shape": rng.random() < 0.5, "ls_style": rng.randrange(2),
             "sizes": None, "again": rng.random() < 0.3, "forder": rng.random() < 0.25}
        if part == "S":
            p["sizes"] = gen_layout(rng, g[ax], n)
        elif rng.random() < 0.3:
            p["full_ls"] = True
        if rng.random() < 0.3:
            # another array of the same shape lives next to it
            oa = rng.randrange(len(g))
            op = rng.choice("SSSBU")
            p["nb"] = {"part": op, "axis": oa, "sizes": gen_layout(rng, g[oa], n) if op == "S" else None,
                       "dt": rng.choice([p["dt"], rng.choice(ANYDT)]), "first": rng.random() < 0.6}
        return p

    def value(self, p):
        v = data(p["seed"], "x", p["g"], p["dt"], "normal")
        if p["special"] and v.dtype.kind in "fc" and v.size:
            f = v.reshape(-1)
            f[0] = np.nan
            f[-1] = -np.inf
            if f.size > 2:
                f[f.size // 2] = -0.0
        return v

    def act(self, env, p, st):
        g = self.value(p)
        if p["forder"]:
            g = np.asfortranarray(g)
        n = env.size
        ls = None
        if p["part"] == "S" and p["sizes"] is not None:
            ls = lshapes(g.shape, p["axis"], p["sizes"])
            if g.ndim == 1 and p["ls_style"]:
                ls = [s[0] for s in ls]
        elif p.get("full_ls"):
            ls = [tuple(g.shape)] * n
        P = env.part(p["part"])
        outs = env.outs()

        def neighbour():
            q = p["nb"]
            h = data(p["seed"], "nb", p["g"], q["dt"], "normal")
            if q["part"] == "S":
                return env.scatter(h, q["sizes"], q["axis"], None, p["how"])
            return env.bcast(h, q["part"], p["how"], axis=q["axis"])
        nb = neighbour() if p.get("nb") and p["nb"]["first"] else None
        if p["how"] == "to_dist":
            g0 = g.copy()
            a = env.DA.to_dist(x=env.dev(g), partition=P, axis=p["axis"], local_shapes=ls, **env.kw)
            outs.append(("input", np.array_equal(g0, g, equal_nan=g.dtype.kind in "fc")))
        else:
            shape = tuple(p["g"])
            if len(shape) == 1 and p["int_shape"]:
                shape = shape[0]
            a = env.DA(global_shape=shape, partition=P, axis=p["axis"], local_shapes=ls, dtype=g.dtype, **env.eng, **env.kw)
            if p["part"] == "S":
                o = np.cumsum([0] + [s[p["axis"]] for s in a.local_shapes])
                sl = [slice(None)] * g.ndim
                sl[p["axis"]] = slice(o[env.rank], o[env.rank + 1])
                a[:] = env.dev(g[tuple(sl)])
            else:
                a[:] = env.dev(g)
        st["a"] = a
        outs += [("arr", a), ("all", a.asarray()), ("local_shapes", [tuple(int(v) for v in s) for s in a.local_shapes]),
                 ("meta", [int(a.ndim), int(a.rank), int(a.size), int(a.axis)])]
        if p["again"]:
            b = env.DA.to_dist(x=a.asarray(), partition=P, axis=p["axis"], local_shapes=ls, **env.kw)
            outs += [("arr2", b), ("all2", b.asarray())]
        if p.get("nb"):
            nb = nb or neighbour()
            outs += [("nb", nb), ("allnb", nb.asarray()), ("all3", a.asarray())]
        return outs

    def oracle(self, p, n):
        v = self.value(p)
        ax = p["axis"]
        e = Exp("d", v, part=p["part"], axis=ax, tol="bits", dtype=v.dtype, mask=None,
                sizes=p["sizes"] if p["part"] == "S" else None, gshape=p["g"])

        def shapes(vals, n):
            want = None
            if p["part"] != "S":
                want = [tuple(p["g"])] * n
            elif p["sizes"] is not None:
                want = lshapes(p["g"], ax, p["sizes"])
            for r, s in enumerate(vals):
                if want is not None and [tuple(x) for x in s] != want:
                    return f"rank {r} sees local shapes {s} instead of {want}"
                k = [x[ax] for x in s]
                if s != vals[0]:
                    return f"rank {r} sees local shapes {s}, rank 0 sees {vals[0]}"
                if want is None and (sum(k) != p["g"][ax] or max(k) - min(k) > 1):
                    return f"unbalanced or wrong default split {k} of {p['g'][ax]}"
            return None
        allv = Exp("v", v, tol="bits")
        d = {"arr": e, "all": allv, "local_shapes": Exp("f", fn=shapes), "arr2": e, "all2": allv,
             "all3": allv,
             "input": Exp("v", True), "meta": Exp("r", per=[[len(p["g"]), r, n, ax] for r in range(n)])}
        if p.get("nb"):
            q = p["nb"]
            h = data(p["seed"], "nb", p["g"], q["dt"], "normal")
            d["nb"] = Exp("d", h, part=q["part"], axis=q["axis"], tol="bits", dtype=h.dtype, mask=None,
                          sizes=q["sizes"] if q["part"] == "S" else None, gshape=p["g"])
            d["allnb"] = Exp("v", h, tol="bits")
        return d

    def shrink(self, p):
        if p.get("nb"):
            yield {**p, "nb": None}


# ==================================================================================== C02

IDX = {"all": (slice(None),), "ell": (Ellipsis,)}


def mkidx(ix):
    k = ix[0]
    if k == "all":
        return slice(None)
    if k == "ell":
        return Ellipsis
    if k == "int":
        return ix[1]
    if k == "sl":
        return slice(*ix[1:])
    if k == "fancy":
        return list(ix[1])
    if k == "bool":
        return np.array(ix[1], dtype=bool)
    if k == "tup":
        return tuple(mkidx(i) for i in ix[1])
    raise KeyError(k)


def gen_idx(rng, g):
    k = rng.choice(["all", "all", "ell", "int", "sl", "sl", "fancy", "bool"] + (["tup"] if len(g) > 1 else []))
    d = g[0]
    if k == "int":
        return ["int", rng.randrange(-d, d)]
    if k == "sl":
        a, b = sorted([rng.randint(0, d), rng.randint(0, d)])
        return ["sl", a, b, rng.choice([1, 1, 2])] if rng.random() < 0.8 else ["sl", None, None, -1]
    if k == "fancy":
        return ["fancy", [rng.randrange(d) for _ in range(rng.randint(1, 3))]]
    if k == "bool":
        return ["bool", [rng.random() < 0.5 for _ in range(d)]]
    if k == "tup":
        return ["tup", [["int", rng.randrange(g[0])] if rng.random() < 0.4 else ["all"],
                        ["sl", 0, rng.randint(0, g[1]), 1]]]
    return [k]


@register
class Bcast(Scn):
    """sequences of assignments and arithmetic on replicated arrays, every rank assigning something else"""
    name = "bcast"
    repeatable = False

    def gen(self, rng, n, o):
        g = gen_shape(rng, maxnd=2)
        part = o.get("part") or rng.choice("BBBU")
        steps = []
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(["set", "set", "set", "scal", "imul", "iadd", "isub", "add", "mul", "neg", "scale",
                            "conj", "copy", "zeros"])
            if k in ("set", "scal", "imul"):
                steps.append([k, gen_idx(rng, g), rng.random() < 0.8,
                              rng.choice(["array", "list"] if k == "set" else ["py", "py", "np", "0d", "one"])])
            else:
                steps.append([k])
        return {"g": g, "part": part, "dt": rng.choice(["float64", "complex128", "float32", "int64"]),
                "steps": steps, "axis": rng.randrange(len(g)), "init": rng.choice(["differ", "same", "to_dist"])}

    def val(self, p, i, rank, shape, form="array"):
        """the value in one of the forms NumPy accepts on the right of an assignment"""
        v = data(p["seed"], f"v{i}.{rank}", shape, p["dt"], "int").reshape(shape)
        if form == "py" or (form == "list" and v.size):
            return v.tolist()
        if form == "np":
            return v[()]
        return v.reshape(1) if form == "one" else v

    def run(self, p, mk, rank, n):
        """the same program for the real arrays and for the model; mk gives array primitives"""
        outs = []
        g = tuple(p["g"])
        x = mk.new("x", rank)
        y = mk.new("y", rank)
        for i, s in enumerate(p["steps"]):
            k = s[0]
            if k == "set":
                ix = mkidx(s[1])
                shp = np.empty(g)[ix].shape
                mk.set(x, ix, i, s[2], shp, s[3])
            elif k == "scal":
                mk.set(x, mkidx(s[1]), i, s[2], (), s[3])
            elif k == "imul":
                mk.imul(x, mkidx(s[1]), i, s[2], s[3])
            elif k == "iadd":
                x = mk.iadd(x, y)
            elif k == "isub":
                x = mk.isub(x, y)
            elif k == "add":
                x = mk.op(lambda a, b: a + b, x, y)
            elif k == "mul":
                x = mk.op(lambda a, b: a * b, x, y)
            elif k == "neg":
                x = mk.op(lambda a: -a, x)
            elif k == "scale":
                x = mk.op(lambda a: 3 * a, x)
            elif k == "conj":
                x = mk.op(lambda a: a.conj(), x)
            elif k == "copy":
                y = mk.op(lambda a: a.copy(), x)
            elif k == "zeros":
                y = mk.zeros(x)
            outs.append(mk.out(x))
        outs.append(mk.out(y))
        return outs

    def act(self, env, p, st):
        scn = self

        class Mk:
            def new(s, nm, rank):
                a = env.DA(global_shape=tuple(p["g"]), partition=env.part(p["part"]), axis=p["axis"], dtype=p["dt"],
                           **env.kw)
                r = rank if p["init"] == "differ" else 0
                if p["init"] == "to_dist":
                    return env.DA.to_dist(x=scn.val(p, nm, rank, p["g"]), partition=env.part(p["part"]),
                                          axis=p["axis"], **env.kw)
                a[:] = scn.val(p, nm, r, p["g"])
                return a

            def set(s, x, ix, i, differ, shp, form):
                x[ix] = scn.val(p, i, env.rank if differ else 0, shp, form)

            def imul(s, x, ix, i, differ, form):
                x[ix] *= scn.val(p, i, env.rank if differ else 0, (), form)

            def iadd(s, x, y):
                x += y
                return x

            def isub(s, x, y):
                x -= y
                return x

            def op(s, f, *a):
                return f(*a)

            def zeros(s, x):
                return x.zeros_like()

            def out(s, x):
                return env.snap(x)
        outs = self.run(p, Mk(), env.rank, env.size)
        return [(f"o{i}", s) for i, s in enumerate(outs)]

    def model(self, p, rank):
        scn = self

        class Mk:
            def new(s, nm, r):
                same = p["init"] == "same"
                return scn.val(p, nm, 0 if same else r, p["g"]).copy()

            def set(s, x, ix, i, differ, shp, form):
                x[ix] = scn.val(p, i, rank if differ else 0, shp, form)

            def imul(s, x, ix, i, differ, form):
                x[ix] *= scn.val(p, i, rank if differ else 0, (), form)

            def iadd(s, x, y):
                x[...] = x + y
                return x

            def isub(s, x, y):
                x[...] = x - y
                return x

            def op(s, f, *a):
                return np.array(f(*a), dtype=p["dt"])

            def zeros(s, x):
                return np.zeros_like(x)

            def out(s, x):
                return x.copy()
        return self.run(p, Mk(), rank, 0)

    def oracle(self, p, n):
        d = {}
        if p["part"] == "B":
            for i, v in enumerate(self.model(p, 0)):
                d[f"o{i}"] = Exp("d", v, part="B", axis=p["axis"], tol=None, dtype=p["dt"], mask=None)
        else:
            ms = [self.model(p, r) for r in range(n)]
            for i in range(len(ms[0])):
                def fn(vals, n, i=i):
                    for r, s in enumerate(vals):
                        df = close(s["loc"], ms[r][i], None)
                        if df:
                            return f"unsafe-broadcast content of rank {r}: {df}"
                        if s["p"] != "UNSAFE_BROADCAST":
                            return f"partition {s['p']}"
                    return None
                d[f"o{i}"] = Exp("f", fn=fn)
        return d


@register
class UnsafeLocal(Scn):
    """assignments into an unsafe-broadcast array by one rank alone"""
    name = "unsafe_local"

    def gen(self, rng, n, o):
        g = gen_shape(rng, maxnd=2)
        return {"g": g, "who": rng.randrange(n), "idx": gen_idx(rng, g), "dt": rng.choice(FDT)}

    def act(self, env, p, st):
        a = env.DA(global_shape=tuple(p["g"]), partition=env.P.UNSAFE_BROADCAST, dtype=p["dt"], **env.kw)
        a[:] = data(p["seed"], "init", p["g"], p["dt"])
        if env.rank == p["who"] % env.size:
            a[mkidx(p["idx"])] = 7
        return [("a", env.snap(a)), ("all", a.asarray())]

    def oracle(self, p, n):
        base = data(p["seed"], "init", p["g"], p["dt"])
        mine = base.copy()
        mine[mkidx(p["idx"])] = 7

        def fn(vals, n):
            for r, s in enumerate(vals):
                df = close(s["loc"], mine if r == p["who"] % n else base, None)
                if df:
                    return f"rank {r}: {df}"
        return {"a": Exp("f", fn=fn), "all": Exp("r", per=[mine if r == p["who"] % n else base for r in range(n)])}


# ==================================================================================== C03


def gen_mask(rng, n):
    k = rng.randint(1, min(3, n))
    return [rng.randrange(k) for _ in range(n)]


def kept(left, numpys):
    """dtype of the result: that of the left operand, unless values of another kind would not fit"""
    return left if np.can_cast(numpys, left, "same_kind") else numpys


@register
class Chain(Scn):
    """random chains of arithmetic on arrays of one layout"""
    name = "chain"
    repeatable = False

    def gen(self, rng, n, o):
        g = gen_shape(rng)
        part = o.get("part") or rng.choice("SSSSBU")
        ax = rng.randrange(len(g))
        if rng.random() < 0.5:
            g[ax] = rng.choice([n, 2 * n, 2 * n + 1, max(1, n - 1)])
        dt = rng.choice(FDT + ["int64", "int32"])
        p = {"g": g, "axis": ax, "part": part, "dt": dt, "style": "int" if dt[0] == "i" else rng.choice(["int", "normal"]),
             "sizes": gen_layout(rng, g[ax], n) if part == "S" else None, "mask": None,
             "how": rng.choice(["assign", "to_dist"]), "narr": rng.choice([2, 2, 3]),
             "special": dt[0] != "i" and rng.random() < 0.15}
        mixed = rng.random() < 0.25
        p["dts"] = [rng.choice(FDT + ["int64", "int32"]) if mixed else dt for _ in range(p["narr"])]
        if mixed:
            p["style"] = "int"
            p["special"] = False
        dts = [np.dtype(v) for v in p["dts"]]
        if part == "S" and (o.get("mask") or (o.get("mask") is None and rng.random() < 0.2)):
            p["mask"] = gen_mask(rng, n)
        st = []
        m = p["narr"]
        for _ in range(rng.randint(1, o.get("len", 8))):
            k = rng.choice(["add", "add", "sub", "mul", "neg", "scale", "rscale", "iadd", "isub", "conj", "copy",
                            "zeros", "ravel", "set"])
            a, b = rng.randrange(m), rng.randrange(m)
            if k in ("iadd", "isub"):
                if np.can_cast(dts[b], dts[a], "same_kind"):
                    st.append([k, a, b])
                continue
            if k == "set":
                st.append([k, a])
                continue
            if k in ("scale", "rscale"):
                sdt = dts[a].name if rng.random() < 0.8 else rng.choice(FDT + ["int64"])
                if sdt[0] == "i":
                    c = rng.choice([2, -3, 0])
                elif sdt[0] == "c":
                    c = rng.choice([2, [0, 1], [1.5, -2], -1.0, [0, -1]])
                else:
                    c = rng.choice([2, -1, 0.5, 0, 3.25])
                f = rng.choice(["py", "py", "np", "0d"])
                if k == "rscale" and sdt != dts[a].name:
                    f = "py"    # NumPy hands its own scalars over as Python ones here
                st.append([k, a, c, f, sdt])
                dts.append(kept(dts[a], (np.zeros(1, dts[a]) * O.scalar(c, f, sdt)).dtype))
            elif k == "ravel":
                st.append([k, a, rng.choice(["C", "C", "F", "K", "A"])])
                continue
            else:
                st.append([k, a, b])
                dts.append(kept(dts[a], np.result_type(dts[a], dts[b])) if k in ("add", "sub", "mul") else dts[a])
            m += 1
            if m > 7:
                break
        p["steps"] = st or [["neg", 0, 0]]
        return p

    def inits(self, p):
        out = [data(p["seed"], f"x{i}", p["g"], p["dts"][i], p["style"]) for i in range(p["narr"])]
        if p["special"]:
            for i, v in enumerate(out):
                f = v.reshape(-1)
                for j, w in enumerate((np.nan, np.inf, -np.inf, -0.0)):
                    f[(p["seed"] // 7 + 5 * i + 3 * j) % f.size] = w
        return out

    def build(self, env, p):
        arrs = []
        for g in self.inits(p):
            if p["part"] == "S":
                arrs.append(env.scatter(g, p["sizes"], p["axis"], p["mask"], p["how"]))
            else:
                arrs.append(env.bcast(g, p["part"], p["how"], axis=p["axis"]))
        hit = {s[1] for s in p["steps"] if s[0] in ("iadd", "isub", "set")}
        for i, a in enumerate(arrs):
            if i not in hit:
                env.operand(f"x{i}", a)
        return {"pool": arrs}

    def act(self, env, p, st):
        pool = list(st["pool"])
        outs = env.outs()
        for i, s in enumerate(p["steps"]):
            k = s[0]
            a = pool[s[1]]
            if k == "add":
                r = a + pool[s[2]]
            elif k == "sub":
                r = a - pool[s[2]]
            elif k == "mul":
                r = a * pool[s[2]]
            elif k == "neg":
                r = -a
            elif k == "scale":
                r = a * O.scalar(*s[2:])
            elif k == "rscale":
                r = O.scalar(*s[2:]) * a
            elif k == "conj":
                r = a.conj()
            elif k == "copy":
                r = a.copy()
            elif k == "zeros":
                r = a.zeros_like()
            elif k == "iadd":
                t = a
                t += pool[s[2]]
                outs.append((f"o{i}", env.snap(t)))
                outs.append((f"same{i}", t is a))
                continue
            elif k == "isub":
                t = a
                t -= pool[s[2]]
                outs.append((f"o{i}", env.snap(t)))
                outs.append((f"same{i}", t is a))
                continue
            elif k == "set":
                if p["part"] == "S":
                    a[...] = np.asarray(i % 3).astype(a.dtype)
                else:
                    a[:] = np.asarray(i % 3).astype(a.dtype)
                outs.append((f"o{i}", env.snap(a)))
                continue
            elif k == "ravel":
                r = a.ravel(order=s[2])
                outs.append((f"o{i}", env.snap(r)))
                continue
            pool.append(r)
            outs.append((f"o{i}", env.snap(r)))
        st["live"] = pool[p["narr"]:]
        outs += [(f"pool{j}", env.snap(v)) for j, v in enumerate(pool)]
        outs.append((f"all{len(pool) - 1}", pool[-1].asarray().copy()))
        return outs

    def oracle(self, p, n):
        pool = [v.copy() for v in self.inits(p)]
        sizes = p["sizes"] if p["sizes"] is not None else default_sizes(p["g"][p["axis"]], n)
        d = {}

        def ex(v, **kw):
            return Exp("d", v, part=p["part"], axis=kw.get("axis", p["axis"]), tol=None, dtype=v.dtype, mask=p["mask"],
                       sizes=kw.get("sizes", sizes if p["part"] == "S" else None))
        for i, s in enumerate(p["steps"]):
            k = s[0]
            a = pool[s[1]]
            with np.errstate(all="ignore"):
                if k == "add":
                    r = a + pool[s[2]]
                elif k == "sub":
                    r = a + (-pool[s[2]])
                elif k == "mul":
                    r = a * pool[s[2]]
                elif k == "neg":
                    r = -a
                elif k in ("scale", "rscale"):
                    r = a * O.scalar(*s[2:])
                elif k == "conj":
                    r = a.conj()
                elif k == "copy":
                    r = a.copy()
                elif k == "zeros":
                    r = np.zeros_like(a)
                elif k == "iadd":
                    a[...] = a + pool[s[2]]
                    d[f"same{i}"] = Exp("v", True)
                    d[f"o{i}"] = ex(a.copy())
                    continue
                elif k == "isub":
                    a[...] = a + (-pool[s[2]])
                    d[f"same{i}"] = Exp("v", True)
                    d[f"o{i}"] = ex(a.copy())
                    continue
                elif k == "set":
                    a[...] = np.asarray(i % 3).astype(a.dtype)
                    d[f"o{i}"] = ex(a.copy())
                    continue
                elif k == "ravel":
                    if p["part"] == "S":
                        off = offsets(sizes)
                        parts = []
                        for q in range(n):
                            sl = [slice(None)] * a.ndim
                            sl[p["axis"]] = slice(off[q], off[q + 1])
                            blk = np.ascontiguousarray(a[tuple(sl)])
                            parts.append(np.ravel(blk, order=s[2] if s[2] != "A" else "C"))
                        v = np.concatenate(parts)
                        e = ex(v, axis=0, sizes=[x.size for x in parts])
                    else:
                        v = np.ravel(a, order=s[2] if s[2] != "A" else "C").copy()
                        e = ex(v, axis=0)
                    d[f"o{i}"] = e
                    continue
            r = np.asarray(r)
            r = r.astype(kept(a.dtype, r.dtype))
            pool.append(r)
            d[f"o{i}"] = ex(r.copy())
        for j, v in enumerate(pool):
            d[f"pool{j}"] = ex(v.copy())
        d[f"all{len(pool) - 1}"] = Exp("v", pool[-1].copy(), tol=None)
        return d

    def shrink(self, p):
        for i in range(len(p["steps"])):
            q = dict(p)
            if p["steps"][i][0] in ("ravel", "iadd", "isub", "set") and len(p["steps"]) > 1:
                q["steps"] = p["steps"][:i] + p["steps"][i + 1:]
                yield q
        if len(p["steps"]) > 1:
            q = dict(p)
            q["steps"] = p["steps"][:-1]
            yield q


# ==================================================================================== C04

ORDS = [None, 0, 1, 2, 3, 4, "inf", "-inf", 5, -1, -2]


def mkord(o):
    return {"inf": np.inf, "-inf": -np.inf}.get(o, o) if isinstance(o, str) else o


def np_norm(v, o, axis=None):
    o = 2 if o is None else mkord(o)
    v = np.asarray(v)
    a = np.abs(v.astype(np.complex128 if v.dtype.kind == "c" else np.float64))
    if axis is None:
        a = a.ravel()
        axis = 0
    if o == 0:
        return np.count_nonzero(a, axis=axis).astype(float)
    if o == np.inf:
        return np.max(a, axis=axis)
    if o == -np.inf:
        return np.min(a, axis=axis)
    with np.errstate(all="ignore"):
        return np.power(np.sum(np.power(a, float(o)), axis=axis), 1.0 / o)


@register
class Reduce(Scn):
    name = "reduce"

    def gen(self, rng, n, o):
        g = gen_shape(rng)
        part = rng.choice("SSSSBU")
        ax = rng.randrange(len(g))
        if rng.random() < 0.5:
            g[ax] = rng.choice([n, 2 * n, 2 * n + 1, max(1, n - 1), 1])
        dt = rng.choice(["float64", "complex128", "float64", "complex128", "float32", "complex64", "int64", "int32", "int8"])
        p = {"g": g, "axis": ax, "part": part, "dt": dt, "hi": {"int32": 1000 if np.prod(g) < 2000 else 100, "int8": 100}.get(dt, 4), "style": "int" if dt[0] == "i" else rng.choice(["int", "normal"]),
             "sizes": gen_layout(rng, g[ax], n, 0.3) if part == "S" else None, "how": rng.choice(["assign", "to_dist"])}
        calls = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.35 and dt != "int8":
                calls.append(["dot", rng.randrange(2), rng.randrange(2)])
            else:
                q = rng.choice(ORDS)
                axis = -1
                if rng.random() < 0.4:
                    axis = ax if part == "S" else 0
                calls.append(["norm", rng.randrange(2), q, axis])
        p["calls"] = calls
        p["dt1"] = rng.choice(FDT) if dt[0] != "i" and rng.random() < 0.25 else dt
        return p

    def inits(self, p):
        v = [data(p["seed"], f"x{i}", p["g"], p["dt1" if i else "dt"], p["style"], -p["hi"], p["hi"]) for i in range(2)]
        for q in p["calls"]:
            if q[0] == "norm" and q[2] in (-1, -2):
                for a in v:
                    a[a == 0] = 1
        return v

    def build(self, env, p):
        vs = self.inits(p)
        if p["part"] == "S":
            arrs = [env.scatter(g, p["sizes"], p["axis"], None, p["how"]) for g in vs]
        else:
            arrs = [env.bcast(g, p["part"], p["how"], axis=0) for g in vs]
        for i, a in enumerate(arrs):
            env.operand(f"x{i}", a)
        return {"a": arrs}

    def act(self, env, p, st):
        outs = env.outs()
        for i, c in enumerate(p["calls"]):
            a = st["a"][c[1]]
            if c[0] == "dot":
                outs.append((f"dot{i}", a.dot(st["a"][c[2]])))
            else:
                kw = {} if c[3] == -1 else {"axis": c[3]}
                outs.append((f"norm{i}", a.norm(mkord(c[2]), **kw) if c[2] is not None else a.norm(**kw)))
        return outs

    def oracle(self, p, n):
        vs = self.inits(p)
        d = {}
        dt = np.result_type(p["dt"], p["dt1"])
        t = max(rtol_for(p["dt"]), rtol_for(p["dt1"])) if dt.kind != "i" else 1e-9
        for i, c in enumerate(p["calls"]):
            a = vs[c[1]]
            if c[0] == "dot":
                b = vs[c[2]]
                w = O.wide(dt) if dt.kind != "i" else np.int64
                v = np.sum(a.astype(w) * b.astype(w))
                sc = float(np.sum(np.abs(a.astype(w) * b.astype(w))))
                d[f"dot{i}"] = Exp("v", v, tol=t, scale=sc, fn=None)
                d[f"dot{i}"].name = "dot"
            else:
                v = np_norm(a, c[2], None if c[3] == -1 else c[3])
                d[f"norm{i}"] = Exp("v", v, tol=t, scale=float(np.max(np.abs(v), initial=0.0)), dev=False)
        return d

    def shrink(self, p):
        for i in range(len(p["calls"])):
            if len(p["calls"]) > 1:
                q = dict(p)
                q["calls"] = p["calls"][:i] + p["calls"][i + 1:]
                yield q


# ==================================================================================== C05


@register
class Masked(Scn):
    name = "masked"

    def gen(self, rng, n, o):
        g = gen_shape(rng)
        ax = rng.randrange(len(g))
        g[ax] = rng.choice([n, 2 * n, 2 * n + 1, 3 * n])
        dt = rng.choice(FDT)
        mask = gen_mask(rng, n)
        sizes = gen_layout(rng, g[ax], n, 0.3)
        sz = sizes or default_sizes(g[ax], n)
        for c in set(mask):
            if sum(s for s, m in zip(sz, mask) if m == c) == 0:
                sizes = None
        p = {"g": g, "axis": ax, "dt": dt, "style": rng.choice(["int", "normal"]), "mask": mask, "sizes": sizes,
             "how": rng.choice(["assign", "to_dist"]), "only": rng.choice([None, None] + sorted(set(mask)))}
        der = []
        for _ in range(rng.randint(0, 3)):
            der.append(rng.choice(["add", "sub", "mul", "neg", "scale", "conj", "copy", "zeros", "ravel", "iadd"]))
        p["derive"] = der
        calls = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.4:
                calls.append(["dot"])
            else:
                calls.append(["norm", rng.choice([None, 0, 1, 2, 3, "inf", "-inf"]),
                              ax if (rng.random() < 0.25 and "ravel" not in der) else -1])
        p["calls"] = calls
        return p

    def build(self, env, p):
        a = [env.scatter(data(p["seed"], f"x{i}", p["g"], p["dt"], p["style"]), p["sizes"], p["axis"], p["mask"],
                         p["how"]) for i in range(2)]
        return {"a": a}

    def act(self, env, p, st):
        x, y = st["a"]
        x = x.copy()
        outs = env.outs()
        for i, k in enumerate(p["derive"]):
            if k == "add":
                x = x + y
            elif k == "sub":
                x = x - y
            elif k == "mul":
                x = x * y
            elif k == "neg":
                x = -x
            elif k == "scale":
                x = 2 * x
            elif k == "conj":
                x = x.conj()
            elif k == "copy":
                x = x.copy()
            elif k == "zeros":
                x = x.zeros_like()
            elif k == "ravel":
                x, y = x.ravel(), y.ravel()
            elif k == "iadd":
                x += y
            outs.append((f"d{i}", env.snap(x)))
        mine = p["mask"][env.rank]
        for i, c in enumerate(p["calls"]):
            if p["only"] is not None and mine != p["only"]:
                outs.append((f"c{i}", None))
            elif c[0] == "dot":
                outs.append((f"c{i}", x.dot(y)))
            else:
                kw = {} if c[2] == -1 else {"axis": c[2]}
                outs.append((f"c{i}", x.norm(mkord(c[1]), **kw)))
        return outs

    def oracle(self, p, n):
        x, y = (data(p["seed"], f"x{i}", p["g"], p["dt"], p["style"]) for i in range(2))
        sizes = p["sizes"] or default_sizes(p["g"][p["axis"]], n)
        ax = p["axis"]
        off = offsets(sizes)

        def blocks(v, a):
            out = []
            for r in range(n):
                sl = [slice(None)] * v.ndim
                sl[a] = slice(off[r], off[r + 1])
                out.append(v[tuple(sl)])
            return out
        X, Y = blocks(x, ax), blocks(y, ax)
        axis = ax
        d = {}
        for i, k in enumerate(p["derive"]):
            if k == "ravel":
                X, Y = [np.ascontiguousarray(b).ravel() for b in X], [np.ascontiguousarray(b).ravel() for b in Y]
                axis = 0
            else:
                f = {"add": lambda a, b: a + b, "sub": lambda a, b: a + (-b), "mul": lambda a, b: a * b,
                     "neg": lambda a, b: -a, "scale": lambda a, b: 2 * a, "conj": lambda a, b: a.conj(),
                     "copy": lambda a, b: a, "zeros": lambda a, b: np.zeros_like(a), "iadd": lambda a, b: a + b}[k]
                X = [f(a, b).astype(p["dt"]) for a, b in zip(X, Y)]
            d[f"d{i}"] = Exp("d", np.concatenate(X, axis=axis), part="S", axis=axis, tol=None, dtype=p["dt"],
                             mask=p["mask"], sizes=[b.shape[axis] for b in X])
        t = rtol_for(p["dt"])
        w = O.wide(p["dt"])
        for i, c in enumerate(p["calls"]):
            per, sc = [], 0.0
            for r in range(n):
                grp = [q for q in range(n) if p["mask"][q] == p["mask"][r]]
                if p["only"] is not None and p["mask"][r] != p["only"]:
                    per.append(None)
                    continue
                if c[0] == "dot":
                    prod = np.concatenate([(X[q].astype(w) * Y[q].astype(w)).ravel() for q in grp])
                    per.append(np.sum(prod))
                    sc = max(sc, float(np.sum(np.abs(prod))))
                else:
                    if c[2] == -1:
                        v = np_norm(np.concatenate([X[q].ravel() for q in grp]), c[1])
                    else:
                        v = np_norm(np.concatenate([X[q] for q in grp], axis=axis), c[1], axis)
                    per.append(v)
                    sc = max(sc, float(np.max(np.abs(v), initial=0.0)))

            def fn(vals, n, per=per, sc=sc):
                for r in range(n):
                    if per[r] is None:
                        if vals[r] is not None:
                            return f"rank {r} got {vals[r]!r}"
                        continue
                    df = close(np.asarray(vals[r]), np.asarray(per[r]), t, sc)
                    if df:
                        return f"rank {r} (group {p['mask'][r]} of mask {p['mask']}): {df}"
                    for q in range(n):
                        if p["mask"][q] == p["mask"][r] and np.asarray(vals[q]).tobytes() != np.asarray(vals[r]).tobytes():
                            return ("inconsistent", f"ranks {r} and {q} of one group got {vals[r]!r} and {vals[q]!r}")
            d[f"c{i}"] = Exp("f", fn=fn)
        return d

    def shrink(self, p):
        for k in ("calls", "derive"):
            for i in range(len(p[k])):
                if k == "calls" and len(p[k]) == 1:
                    continue
                q = dict(p)
                q[k] = p[k][:i] + p[k][i + 1:]
                yield q


@register
class MaskedOp(Scn):
    """block-diagonal operator with a mask: its outputs carry the mask"""
    name = "masked_op"

    def gen(self, rng, n, o):
        dt = rng.choice(["float64", "complex128"])
        return {"op": O.gen_bd(rng, n, dt, mask=gen_mask(rng, n)), "dt": dt}

    def build(self, env, p):
        keep = []
        op = O.build(env, p["op"], keep)
        u = env.operand("u", O.dvec(env, "u", O.model(p["op"], env.size), p["dt"], "int"))
        v = env.operand("v", O.dvec(env, "v", O.dataspace(p["op"], env.size), p["dt"], "int"))
        return {"op": op, "u": u, "v": v}

    def act(self, env, p, st):
        y = st["op"].matvec(st["u"])
        x = st["op"].rmatvec(st["v"])
        return [("y", y), ("x", x), ("ny", y.norm()), ("yy", y.dot(y)), ("nx", x.norm(1))]

    def oracle(self, p, n):
        sp = p["op"]
        M = O.dense(sp, p["seed"], n)
        u = data(p["seed"], "u", (M.shape[1],), p["dt"], "int")
        v = data(p["seed"], "v", (M.shape[0],), p["dt"], "int")
        y, x = M @ u, M.conj().T @ v
        mk = sp["mask"]
        oy, ox = offsets(O.dataspace(sp, n)["ls"]), offsets(O.model(sp, n)["ls"])

        def grp(v, o, r):
            return np.concatenate([v[o[q]:o[q + 1]] for q in range(n) if mk[q] == mk[r]])
        sy = float(np.linalg.norm(y)) + 1.0
        return {"y": Exp("d", y, part="S", tol=1e-9, scale=sy, sizes=O.dataspace(sp, n)["ls"], mask=mk),
                "x": Exp("d", x, part="S", tol=1e-9, scale=float(np.linalg.norm(x)) + 1.0, sizes=O.model(sp, n)["ls"], mask=mk),
                "ny": Exp("r", per=[np_norm(grp(y, oy, r), 2) for r in range(n)], tol=1e-9, scale=sy),
                "yy": Exp("r", per=[np.sum(grp(y, oy, r) ** 2) for r in range(n)], tol=1e-9, scale=sy ** 2),
                "nx": Exp("r", per=[np_norm(grp(x, ox, r), 1) for r in range(n)], tol=1e-9,
                          scale=float(np.sum(np.abs(x))) + 1.0)}


# ==================================================================================== C06


@register
class Ghost(Scn):
    name = "ghost"

    def gen(self, rng, n, o):
        g = gen_shape(rng)
        ax = rng.randrange(len(g))
        g[ax] = rng.choice([n, 2 * n, 3 * n, 3 * n + 1, 5 * n, max(1, n - 1)])
        dt = rng.choice(FDT + ["int64"])
        sizes = gen_layout(rng, g[ax], n, 0.4)
        sz = sizes or default_sizes(g[ax], n)
        reqs = []
        for _ in range(rng.randint(1, 3)):
            mode = rng.choice(["same", "same", "differ", "differ", "beyond"])
            fr, bk = [], []
            for r in range(n):
                pm = sz[r - 1] if r > 0 else 3
                nx = sz[r + 1] if r < n - 1 else 3
                ex = 1 if mode == "beyond" else 0
                fr.append(rng.randint(0, pm + ex))
                bk.append(rng.randint(0, nx + ex))
            if mode == "same":
                fr, bk = [min(fr[1:] or fr)] * n, [min(bk[:-1] or bk)] * n
            reqs.append([fr if rng.random() < 0.8 else None, bk if rng.random() < 0.8 else None])
        return {"g": g, "axis": ax, "dt": dt, "style": "int", "sizes": sizes, "reqs": reqs,
                "mask": gen_mask(rng, n) if rng.random() < 0.2 else None, "how": rng.choice(["assign", "to_dist"])}

    def build(self, env, p):
        v = data(p["seed"], "x", p["g"], p["dt"], p["style"])
        a = env.operand("x", env.scatter(v, p["sizes"], p["axis"], p["mask"], p["how"]))
        return {"a": a}

    def act(self, env, p, st):
        outs = env.outs()
        for i, (f, b) in enumerate(p["reqs"]):
            kw = {}
            if f is not None:
                kw["cells_front"] = f[env.rank]
            if b is not None:
                kw["cells_back"] = b[env.rank]
            try:
                r = st["a"].add_ghost_cells(**kw)
                outs.append((f"g{i}", r))
            except ValueError:
                outs.append((f"g{i}", "error"))
        return outs

    def oracle(self, p, n):
        v = data(p["seed"], "x", p["g"], p["dt"], p["style"])
        sz = p["sizes"] or default_sizes(p["g"][p["axis"]], n)
        off = offsets(sz)
        d = {}
        for i, (f, b) in enumerate(p["reqs"]):
            short = False
            per = []
            for r in range(n):
                lo, hi = off[r], off[r + 1]
                if f is not None and r > 0:
                    if f[r] > sz[r - 1]:
                        short = True
                    lo -= f[r]
                if b is not None and r < n - 1:
                    if b[r] > sz[r + 1]:
                        short = True
                    hi += b[r]
                sl = [slice(None)] * v.ndim
                sl[p["axis"]] = slice(max(lo, 0), hi)
                per.append(v[tuple(sl)])

            def fn(vals, n, per=per, short=short):
                for r in range(n):
                    err = isinstance(vals[r], str)
                    if short and not err:
                        return ("missing-error", f"request {p['reqs'][i]} exceeds a neighbour's cells but rank {r} got "
                                                 f"no error")
                    if not short:
                        if err:
                            return ("spurious-error", f"rank {r} got an error although all neighbours have enough cells")
                        df = close(vals[r], per[r], None)
                        if df:
                            return f"rank {r}: {df}"
            d[f"g{i}"] = Exp("f", fn=fn)
        return d

    def shrink(self, p):
        for i in range(len(p["reqs"])):
            if len(p["reqs"]) > 1:
                q = dict(p)
                q["reqs"] = p["reqs"][:i] + p["reqs"][i + 1:]
                yield q


# ==================================================================================== C08-C15


def perturb(rng, ls):
    """a layout whose pieces differ a little from ls"""
    n = len(ls)
    s = list(ls)
    for _ in range(rng.randint(1, 2 * n)):
        i = rng.randrange(n)
        j = i + rng.choice([-1, 1])
        if 0 <= j < n and s[i] > 0:
            k = rng.randint(1, s[i]) if rng.random() < 0.3 else 1
            s[i] -= k
            s[j] += k
    return s


def gen_vlayout(rng, d, n, wild=0.3):
    """layout for a vector: None (natural), slightly different, or arbitrary"""
    if d["k"] == "st":
        ls = [gen_vlayout(rng, q, n, wild) for q in d["parts"]]
        return ls if any(x is not None for x in ls) else None
    if d["k"] == "B":
        return None
    k = rng.random()
    if k < 0.4:
        return None
    if k < 1 - wild:
        return perturb(rng, d["ls"])
    return gen_sizes(rng, d["N"], n)


def layout_ok(d, lay):
    if lay is None:
        return True
    if d["k"] == "st":
        return all(layout_ok(q, l) for q, l in zip(d["parts"], lay))
    return d["k"] == "B" or O.need_ok(lay, d["ls"])


class OpBase(Scn):
    kinds = None
    layouts = 0.0
    fit = True

    def spec(self, rng, n, o, dt):
        raise NotImplementedError

    def stacked(self, sp):
        return bool({"sbd", "svs"} & O.kinds(sp))

    def gen(self, rng, n, o):
        dt = rng.choice(["float64", "float64", "complex128", "complex128", "float32", "complex64"])
        if o.get("dt64") and dt in ("float32", "complex64"):
            dt = "float64"
        sp = self.spec(rng, n, o, dt)
        real = O.dtype_of(sp)
        mixed = (not O.LEAVES & {sp["t"]} or self.name == "op_algebra") and real in O.MIXED and \
            not {"mdc"} & O.kinds(sp) and rng.random() < 0.3
        if mixed:
            sp = O.promote(rng, n, sp, real, self.stacked(sp))
        dt = O.dtype_of(sp)
        p = {"op": sp, "dt": dt, "style": rng.choice(["int", "normal"]), "lu": None, "lv": None,
             "bp": rng.choice("BBU"), "times": rng.choice([1, 1, 1, 2]), "how": rng.choice(["assign", "to_dist"]),
             "order": rng.choice(["fa", "af", "f", "a"]), "via": rng.choice(["matvec", "matvec", "dot", "mul", "H"]),
             "other": None}
        if O.has_pow0(sp):
            p["bp"] = "B"
        if mixed:
            p["xdt"] = real
        elif rng.random() < 0.15 and not O.has_pow0(sp):
            p["xdt"] = {"complex128": "float64", "complex64": "float32", "float64": "float32"}.get(dt)
        if rng.random() < o.get("layouts", self.layouts):
            p["lu"] = gen_vlayout(rng, O.model(sp, n), n)
            p["lv"] = gen_vlayout(rng, O.dataspace(sp, n), n)
        if rng.random() < 0.25:
            # the same operator on other vectors, maybe laid out or typed differently, maybe the first ones again
            lay = rng.random() < self.layouts
            p["more"] = [{"c": c, "lay": gen_vlayout(rng, (O.model if c == "f" else O.dataspace)(sp, n), n) if lay else None,
                          "again": rng.random() < 0.5}
                         for c in rng.choice(["f", "a", "fa", "af"])]
        if rng.random() < 0.25 and sp["t"] in ("fd", "sd", "lap", "bd", "vs", "hs", "fred"):
            # another operator of the same kind and sizes is used in turn with it
            tw = O.like(rng, sp, n)
            try:
                O.dense(tw, 0, n)
                p["tw"] = {"op": tw, "first": rng.random() < 0.6}
            except Exception:       # the serial operator does not take these dimensions
                pass
        return p

    def build(self, env, p):
        keep = []
        n = env.size
        op = O.build(env, p["op"], keep)
        for i, k in enumerate(keep):
            env.operand(f"kernel{i}", k)
        u = O.dvec(env, "u", O.model(p["op"], n), p.get("xdt") or p["dt"], p["style"], p["lu"], p["bp"], p["how"])
        v = O.dvec(env, "v", O.dataspace(p["op"], n), p.get("xdt") or p["dt"], p["style"], p["lv"], p["bp"], p["how"])
        env.operand("u", u)
        env.operand("v", v)
        st = {"op": op, "u": u, "v": v}
        if p.get("tw"):
            st["tw"] = O.build(env, p["tw"]["op"], [])
        for q in p.get("more") or []:
            k = "um" if q["c"] == "f" else "vm"
            st[k] = env.operand(k, O.dvec(env, k, (O.model if q["c"] == "f" else O.dataspace)(p["op"], n),
                                          p.get("xdt") or p["dt"], "normal", q["lay"], p["bp"]))
        return st

    def act(self, env, p, st):
        op = st["op"]
        outs = env.outs([("shape", [int(s) for s in op.shape]), ("dtype", str(np.dtype(op.dtype)))])

        def fwd(x):
            return op.matvec(x) if p["via"] in ("matvec", "H") else op.dot(x) if p["via"] == "dot" else op @ x

        def adj(x):
            return op.rmatvec(x) if p["via"] == "matvec" else op.H.matvec(x) if p["via"] == "H" else op.H @ x

        def twin():
            for c in p["order"]:
                outs.append(("yt", st["tw"].matvec(st["u"])) if c == "f" else ("xt", st["tw"].rmatvec(st["v"])))
        if p.get("tw") and p["tw"]["first"]:
            twin()
        for t in range(p["times"]):
            for c in p["order"]:
                if c == "f":
                    outs.append((f"y{t}", fwd(st["u"])))
                else:
                    outs.append((f"x{t}", adj(st["v"])))
        if p.get("tw") and not p["tw"]["first"]:
            twin()
            outs.append(("yr", fwd(st["u"])) if "f" in p["order"] else ("xr", adj(st["v"])))
        for q in p.get("more") or []:
            if q["c"] == "f":
                outs.append(("ym", fwd(st["um"])))
            else:
                outs.append(("xm", adj(st["vm"])))
            if q["again"] and q["c"] in p["order"]:
                outs.append(("yq", fwd(st["u"])) if q["c"] == "f" else ("xq", adj(st["v"])))
        return outs

    def fits(self, p, n):
        sp = p["op"]
        more = p.get("more") or []
        dirs = tuple(d == "a" for d in "fa" if d in p["order"] or any(q["c"] == d for q in more))
        if p.get("tw") and not O.all_blocks_ok(p["tw"]["op"], n):
            return False
        if not all(layout_ok((O.model if q["c"] == "f" else O.dataspace)(sp, n), q["lay"]) for q in more):
            return False
        return O.all_blocks_ok(sp, n, dirs) and ("f" not in p["order"] or layout_ok(O.model(sp, n), p["lu"])) and \
            ("a" not in p["order"] or layout_ok(O.dataspace(sp, n), p["lv"]))

    def oracle(self, p, n):
        sp, seed = p["op"], p["seed"]
        d = {}
        if not self.fits(p, n):
            d["__may_raise__"] = True
        M = O.dense(sp, seed, n)
        A = O.absdense(sp, seed, n)
        mu, dv = O.model(sp, n), O.dataspace(sp, n)
        u = O.flat(O.gvec(seed, "u", mu, p.get("xdt") or p["dt"], p["style"]))
        v = O.flat(O.gvec(seed, "v", dv, p.get("xdt") or p["dt"], p["style"]))
        t = O.tolerance(sp, p["dt"])
        y, x = M @ u, M.conj().T @ v
        if np.dtype(p["dt"]).kind != "c":
            y, x = y.real, x.real
        t = max([t] + [O.tolerance(sp, v) for v in [p.get("xdt") or p["dt"], *O.leaf_dts(sp)]])
        sy = float(np.max(A @ np.abs(u), initial=0.0)) + 1e-30
        sx = float(np.max(A.T @ np.abs(v), initial=0.0)) + 1e-30
        leaf = sp["t"] in O.LEAVES
        dt = O.dtype_of(sp) if leaf else None
        if leaf:
            d["dtype"] = Exp("v", dt)
        elif "mdc" not in O.kinds(sp):
            kind = np.dtype(p["dt"]).kind
            d["dtype"] = Exp("f", fn=lambda vals, n: None if {np.dtype(v).kind for v in vals} == {kind} else
                             f"the operator says its dtype is {vals[0]}, the matrix is {p['dt']}")
        if sp["t"] == "mdc":
            dt = None  # the Fourier operators it is made of answer in complex precision
        ey, ex = O.exp_vec(dv, y, t, sy, dt), O.exp_vec(mu, x, t, sx, dt)
        for k in range(p["times"]):
            d[f"y{k}"], d[f"x{k}"] = ey, ex
        d["yr"], d["xr"] = d["yq"], d["xq"] = ey, ex
        if p.get("tw"):
            T, TA = O.dense(p["tw"]["op"], seed, n), O.absdense(p["tw"]["op"], seed, n)
            yt, xt = T @ u, T.conj().T @ v
            if np.dtype(p["dt"]).kind != "c":
                yt, xt = yt.real, xt.real
            d["yt"] = O.exp_vec(dv, yt, t, float(np.max(TA @ np.abs(u), initial=0.0)) + 1e-30, dt)
            d["xt"] = O.exp_vec(mu, xt, t, float(np.max(TA.T @ np.abs(v), initial=0.0)) + 1e-30, dt)
        for q in p.get("more") or []:
            f = q["c"] == "f"
            w = O.flat(O.gvec(seed, "um" if f else "vm", mu if f else dv, p.get("xdt") or p["dt"], "normal"))
            z = M @ w if f else M.conj().T @ w
            if np.dtype(p["dt"]).kind != "c":
                z = z.real
            d["ym" if f else "xm"] = O.exp_vec(dv if f else mu, z, t, float(np.max((A if f else A.T) @ np.abs(w),
                                                                                   initial=0.0)) + 1e-30, dt)
        d["shape"] = Exp("v", [M.shape[0], M.shape[1]])
        return d

    def shrink(self, p):
        for k, v in (("tw", None), ("more", None), ("times", 1), ("order", "f"), ("order", "a"), ("lu", None), ("lv", None)):
            if p.get(k) != v:
                q = dict(p)
                q[k] = v
                yield q
        sp = p["op"]
        if p.get("more") or p.get("tw"):
            return
        if sp["t"] in ("neg", "conj", "scale", "pow", "H", "T") and p["lu"] is None and p["lv"] is None:
            q = dict(p)
            q["op"] = sp["a"]
            yield q
        if sp["t"] in ("add", "sub") and p["lu"] is None and p["lv"] is None:
            for k in "ab":
                q = dict(p)
                q["op"] = sp[k]
                yield q


@register
class OpLayout(OpBase):
    """operators taking scattered vectors, applied to differently laid out inputs (C08)"""
    name = "op_layout"
    layouts = 1.0

    def spec(self, rng, n, o, dt):
        k = rng.choice(["bd", "bd", "fd", "sd", "hs", "vs", "lap"])
        return O.gen_base(rng, n, dt, [k])


@register
class OpDeriv(OpBase):
    name = "op_deriv"

    def spec(self, rng, n, o, dt):
        fit = rng.random() < 0.75
        return rng.choice([O.gen_fd, O.gen_fd, O.gen_sd])(rng, n, dt, fit=fit)

    def gen(self, rng, n, o):
        p = super().gen(rng, n, o)
        if rng.random() < 0.3:
            p["lu"] = gen_vlayout(rng, O.model(p["op"], n), n, 0.2)
            p["lv"] = gen_vlayout(rng, O.dataspace(p["op"], n), n, 0.2)
        p["bc"] = False
        if rng.random() < 0.1 and p["op"]["t"] in ("fd", "sd"):
            p["bc"] = True          # a broadcast vector is converted to a scattered one
            p["lu"] = p["lv"] = None
        return p

    def build(self, env, p):
        st = super().build(env, p)
        if p["bc"]:
            n = env.size
            for k, d in (("u", O.model(p["op"], n)), ("v", O.dataspace(p["op"], n))):
                st[k] = env.operand(k + "b", env.bcast(O.gvec(env.seed, k, d, p.get("xdt") or p["dt"], p["style"])))
        return st

    def fits(self, p, n):
        if p["bc"]:
            d = O.model(p["op"], n)
            if not O.need_ok(default_sizes(d["N"], n), d["ls"]):
                return False
        return super().fits(p, n)


@register
class OpGradLap(OpBase):
    name = "op_gradlap"
    layouts = 0.2

    def spec(self, rng, n, o, dt):
        return rng.choice([O.gen_grad, O.gen_lap])(rng, n, dt)


@register
class OpBlocks(OpBase):
    name = "op_blocks"
    layouts = 0.4

    def spec(self, rng, n, o, dt):
        k = rng.choice(["bd", "vs", "hs", "bd", "vs", "hs", "sbd", "svs"])
        if k == "sbd":
            return {"t": "sbd", "ops": [O.gen_base(rng, n, dt, ["bd", "vs", "hs", "fd", "wrap"])
                                        for _ in range(rng.randint(1, 3))]}
        if k == "svs":
            b = O.gen_base(rng, n, dt, ["bd", "vs", "fd", "sd"])
            return {"t": "svs", "ops": [b] + [O.like(rng, b, n) for _ in range(rng.randint(0, 2))]}
        return O.gen_base(rng, n, dt, [k])


@register
class OpAlgebra(OpBase):
    name = "op_algebra"
    layouts = 0.0

    def spec(self, rng, n, o, dt):
        e = self.expr(rng, n, o, dt)
        if rng.random() < 0.12 and O.square(e, n):
            e = {"t": "pow", "a": e, "p": rng.choice([0, 0, 1, 2])}
        return e

    def expr(self, rng, n, o, dt):
        k = rng.random()
        if k < 0.65:
            return O.gen_expr(rng, n, dt, rng.randint(1, 4))
        if k < 0.85:
            sq = rng.random() < 0.5
            if sq:
                ops = [O.gen_bd(rng, n, dt, square=True) for _ in range(rng.randint(1, 2))]
            else:
                ops = [O.gen_base(rng, n, dt, ["bd", "bd", "vs", "hs"]) for _ in range(rng.randint(1, 2))]
            return O.grow(rng, n, {"t": "sbd", "ops": ops}, dt, rng.randint(1, 3), True)
        b = O.gen_base(rng, n, dt, ["bd", "fd"])
        return O.grow(rng, n, {"t": "svs", "ops": [b] + [O.like(rng, b, n) for _ in range(rng.randint(0, 2))]}, dt,
                      rng.randint(1, 3), True)


@register
class OpFredholm(OpBase):
    name = "op_fredholm"

    def spec(self, rng, n, o, dt):
        return O.gen_fred(rng, n, dt)


@register
class OpMDC(OpBase):
    name = "op_mdc"

    def spec(self, rng, n, o, dt):
        return O.gen_mdc(rng, n)

    def gen(self, rng, n, o):
        p = super().gen(rng, n, o)
        if rng.random() < 0.4:
            p["other"] = O.gen_mdc(rng, n)
        return p

    def build(self, env, p):
        st = super().build(env, p)
        if p["other"]:
            st["op2"] = O.build(env, p["other"], [])
            st["u2"] = env.operand("u2", O.dvec(env, "u2", O.model(p["other"], env.size), p["dt"], "normal"))
        return st

    def act(self, env, p, st):
        outs = env.outs()
        if p["other"]:
            outs.append(("o2", st["op2"].matvec(st["u2"])))
        outs += super().act(env, p, st)
        if p["other"]:
            outs.append(("o3", st["op2"].matvec(st["u2"])))
        return outs

    def oracle(self, p, n):
        d = super().oracle(p, n)
        if p["other"]:
            q = dict(p)
            M = O.dense(p["other"], p["seed"], n)
            u = data(p["seed"], "u2", (M.shape[1],), p["dt"], "normal")
            v = M @ u
            e = O.exp_vec(O.dataspace(p["other"], n), v, 1e-9,
                          float(np.max(O.absdense(p["other"], p["seed"], n) @ np.abs(u))) + 1e-30)
            d["o2"] = d["o3"] = e
        return d


# ==================================================================================== C12


def scaled(g, by):
    return [scaled(x, by) for x in g] if isinstance(g, list) else g * by


@register
class DotTest(Scn):
    name = "dottest"

    def gen(self, rng, n, o):
        dt = rng.choice(["float64", "complex128"])
        sp = None
        while sp is None:
            k = rng.random()
            if k < 0.35:
                sp = O.gen_expr(rng, n, dt, rng.randint(0, 3))
            elif k < 0.45:
                sp = O.gen_grad(rng, n, dt)
            elif k < 0.55:
                sp = O.gen_lap(rng, n, dt)
            elif k < 0.63:
                sp = O.gen_mdc(rng, n)
            elif k < 0.7:
                sp = O.gen_fred(rng, n, dt)
            elif k < 0.8:
                sp = {"t": "sbd", "ops": [O.gen_base(rng, n, dt, ["bd", "vs", "hs", "fd"]) for _ in range(2)]}
            else:
                sp = O.gen_base(rng, n, dt)
            if not O.all_blocks_ok(sp, n):
                sp = None
        dt = O.dtype_of(sp)
        bad = None
        if rng.random() < 0.35 and O.model(sp, n)["k"] != "st" and O.dataspace(sp, n)["k"] != "st":
            sp = {"t": "bad", "a": sp, "factor": rng.choice([-1, 2, 0, 1.01, 1 + 1e-4, 1 + 1e-5, 1 + 1e-7])}
            if np.dtype(dt).kind == "c" and rng.random() < 0.5:
                sp["factor"] = rng.choice([[0, 1], [0, -1], [-1, 1e-3], [1, 1e-3], [1, 1e-7]])
            if rng.random() < 0.4:
                N = O.vlen(O.model(sp["a"], n))
                sp["bump"] = [rng.choice([0, N - 1, rng.randrange(N)]), rng.choice([0.5, 1e-3, -2.0])]
            bad = True
        opt = {}
        for k, v in (("raiseerror", rng.choice([True, False])), ("verb", rng.random() < 0.3),
                     ("rtol", rng.choice([1e-3, 0.1, 1e-9, 0.0])), ("atol", rng.choice([1e6, 1e-6, 0.0]))):
            if rng.random() < (0.8 if k == "raiseerror" else 0.4):
                opt[k] = v
        return {"op": sp, "dt": dt, "bad": bad, "style": "normal", "opt": opt, "size": rng.choice([1, 1, 1, 2.0 ** -20, 2.0 ** 20]), "bp": "B" if O.has_pow0(sp) else rng.choice("BBU"), "nrnc": rng.random() < 0.3}

    def build(self, env, p):
        op = O.build(env, p["op"], [])
        u, v = (O.dvec(env, k, d, p["dt"], "normal", None, p["bp"],
                       g=scaled(O.gvec(env.seed, k, d, p["dt"], "normal"), p["size"]))
                for k, d in (("u", O.model(p["op"], env.size)), ("v", O.dataspace(p["op"], env.size))))
        env.operand("u", u)
        env.operand("v", v)
        return {"op": op, "u": u, "v": v}

    def act(self, env, p, st):
        dottest = env.pm.utils.dottest.dottest if hasattr(env.pm.utils.dottest, "dottest") else env.pm.utils.dottest
        kw = dict(p["opt"])
        said = len(env.ctx.rs.out)
        if p["nrnc"]:
            kw["nr"], kw["nc"] = int(st["op"].shape[0]), int(st["op"].shape[1])
        try:
            r = dottest(st["op"], st["u"], st["v"], **kw)
            res = ["returned", bool(r)]
        except AssertionError:
            res = ["raised", None]
        res.append("".join(env.ctx.rs.out[said:]))
        y = st["op"].matvec(st["u"])
        x = st["op"].rmatvec(st["v"])
        return [("res", res), ("y", y), ("x", x)]

    def oracle(self, p, n):
        sp, seed = p["op"], p["seed"]
        mu, dv = O.model(sp, n), O.dataspace(sp, n)
        u = O.flat(O.gvec(seed, "u", mu, p["dt"], "normal")) * p["size"]
        v = O.flat(O.gvec(seed, "v", dv, p["dt"], "normal")) * p["size"]
        M = O.dense(sp, seed, n)
        s = float(np.sum(np.abs(v) @ (O.absdense(sp, seed, n) @ np.abs(u)))) + 1e-30
        yy = complex(np.vdot(M @ u, v))
        xx = complex(np.vdot(u, M.conj().T @ v))
        if p["bad"]:
            f = sp["factor"]
            xx *= complex(*f) if isinstance(f, list) else f
            if "bump" in sp:
                xx = yy + np.conj(u[sp["bump"][0]]) * sp["bump"][1]
        opt = p["opt"]
        lim = opt.get("atol", 1e-21) + opt.get("rtol", 1e-6) * abs(yy)
        noise = 1e-12 * s
        raises, verb = opt.get("raiseerror", True), opt.get("verb", False)
        ok = None                       # within rounding of the tolerance: either verdict is right
        if abs(xx - yy) + noise <= 0.7 * lim:
            ok = True
        elif abs(xx - yy) - noise > 1.4 * lim:
            ok = False

        def res(vals, n):
            for r, (how, val, text) in enumerate(vals):
                if ok is True and (how, val) != ("returned", True):
                    return f"dot-test of a matching operator gave {how} {val} on rank {r}"
                if ok is False and (how, val) != (("raised", None) if raises else ("returned", False)):
                    return f"dot-test of an operator with a wrong adjoint gave {how} {val} on rank {r}"
                if (how, val) in (("raised", None) if not raises else ("returned", False), ("returned", None)):
                    return f"dot-test gave {how} {val} on rank {r}"
                if (how, val) != tuple(vals[0][:2]):
                    return ("inconsistent", f"rank 0 got {vals[0]}, rank {r} got {vals[r]}")
                if not verb and text.strip():
                    return f"dot-test printed {text!r} on rank {r} though verb is off"
                if "passed" in text and val is not True or "failed" in text and val is True:
                    return f"dot-test says {text!r} and gives {how} {val} on rank {r}"
            if verb and vals[0][0] == "returned" and not any(t.strip() for _, _, t in vals):
                return "dot-test prints nothing though verb is on"

        def cat(snap_list, d):
            if d["k"] == "st":
                return np.concatenate([cat([s["parts"][i] for s in snap_list], q) for i, q in enumerate(d["parts"])])
            if d["k"] == "B":
                return snap_list[0]["loc"]
            return np.concatenate([s["loc"] for s in snap_list])

        hold = {}

        def ycheck(vals, n):
            hold["y"] = np.vdot(v, cat(vals, dv))

        def xcheck(vals, n):
            x = np.vdot(cat(vals, mu), u)
            if "y" in hold and not p["bad"] and abs(hold["y"] - x) > 1e-8 * s:
                return ("adjoint", f"<A u, v> = {hold['y']} but <u, A^H v> = {x}")
        return {"res": Exp("f", fn=res), "y": Exp("f", fn=ycheck), "x": Exp("f", fn=xcheck)}
