"""Executes one case (one or several simulated jobs) and judges it."""
import json
import traceback

import numpy as np

from sim import world as W
from sim.core import HarnessError, Stuck
from . import base as Bs
from . import scn, scn2  # noqa: F401  (fill the registry)
from .base import Env, arrays_of, same_snap
from .scn import REG


def as_snap(env, v):
    if isinstance(v, dict) and "k" in v:
        return v
    return env.snap(v)


def exc_rec(e):
    tb = traceback.extract_tb(e.__traceback__)
    site, fn = "", ""
    for fr in reversed(tb):
        if "pylops_mpi/" in fr.filename and "/sim/" not in fr.filename:
            site = f"{fr.filename.split('pylops_mpi/', 1)[-1]}:{fr.name}"
            fn = fr.line or ""
            break
    inner = tb[-1].filename if tb else ""
    e.__traceback__ = None
    return {"type": type(e).__name__, "msg": str(e)[:300], "site": site, "line": fn, "inner": inner,
            "mod": type(e).__module__}


# ------------------------------------------------------------------------------------------------ rank program


def make_comm(ctx, g):
    """the communicator of one group; every rank of the world calls this for every group it may be in"""
    world = ctx.comm
    via = g.get("via", "world")
    if via == "world":
        return world
    if via == "dup":
        return world.Dup()
    mem = g["members"]
    if via == "create":
        return world.Create(world.Get_group().Incl(mem))
    if via == "create_group":
        return world.Create_group(world.Get_group().Incl(mem)) if ctx.rank in mem else None
    raise KeyError(via)


def junk(a, k):
    if a.size and a.flags.writeable:
        if a.dtype.kind == "b":
            a[...] = ~a
        elif a.dtype.kind in "iu":
            a[...] = 61 + k % 60
        else:
            a[...] = 1e5 + 7.25 * k


def live_objects(env, st, outs):
    """results of this step that are still the library's own objects"""
    objs = []
    for nm, v in outs:
        if isinstance(v, (env.DA, env.SDA)):
            objs.append((nm, v))
        elif isinstance(v, np.ndarray) and not nm.startswith("all"):
            objs.append((nm, v))
    for i, v in enumerate(st.get("live") or []):
        objs.append((f"live{i}", v))
    seen, out = set(), []
    for nm, v in objs:
        if id(v) not in seen:
            seen.add(id(v))
            out.append((nm, v))
    return out


def alter(env, ops):
    """give the vectors among the operands another content; returns what is needed to undo it"""
    seen, out = set(), []
    for nm, o in ops:
        if isinstance(o, (env.DA, env.SDA)):
            for a in arrays_of(env, o):
                if id(a) not in seen and a.dtype.kind in "fc" and a.flags.writeable:
                    seen.add(id(a))
                    out.append((a, a.copy()))
                    a *= 0.5
                    a += 3.0
    return out


def check_alias(env, st, outs, changed):
    """writing into operands must not change results and the other way round"""
    lives = live_objects(env, st, outs)
    ops = env.operands
    opid = {id(o) for _, o in ops}
    names = {}
    for nm, v in outs:
        if isinstance(v, (env.DA, env.SDA)):
            names.setdefault(id(v), []).append(nm)
    twice = [v for v in names.values() if len(v) > 1]
    if twice:
        changed.append(("aliased", "one and the same object is the result of two operations: " + repr(twice)))
        return
    if any(id(v) in opid for _, v in lives):
        changed.append(("aliased", "the result is the operand itself: " + repr([n for n, v in lives if id(v) in opid])))
        return
    before = [env.snap(v) for _, v in lives]
    for k, (nm, o) in enumerate(ops):
        for a in arrays_of(env, o):
            junk(a, k)
    for (nm, v), s in zip(lives, before):
        if not same_snap(env.snap(v), s):
            changed.append(("aliased", f"writing into the operands afterwards changes result {nm}"))
    for i, (nm, v) in enumerate(lives):
        ob = [env.snap(o) for _, o in ops]
        lb = [env.snap(w) for _, w in lives]
        for a in arrays_of(env, v):
            junk(a, 50 + i)
        for (on, o), s in zip(ops, ob):
            if not same_snap(env.snap(o), s):
                changed.append(("aliased", f"writing into result {nm} afterwards changes operand {on}"))
        for j, ((ln, w), s) in enumerate(zip(lives, lb)):
            if j != i and not same_snap(env.snap(w), s):
                changed.append(("aliased", f"writing into result {nm} afterwards changes result {ln}"))
        if changed:
            break


def run_step(ctx, env, step, mode, rec):
    s = REG[step["s"]]
    p = step["p"]
    rs = ctx.rs
    env.operands = []
    env.partial = []
    env.seed = p["seed"]
    rec["c0"] = ctx.world.coll_count
    env.failid = step.get("failid")
    env.failblk = step.get("failblk", 0)
    rs.phase = "build"
    st = s.build(env, p)
    rec["built"] = True
    ops = list(env.operands)
    before = [(n, o, env.snap(o)) for n, o in ops]
    rec["chg"] = []
    rec["c1"] = ctx.world.coll_count
    rec["n1"] = rs.ncalls

    def unchanged(when):
        for n, o, b in before:
            if not same_snap(env.snap(o), b):
                rec["chg"].append(("operand-changed", f"operand {n} changed {when}"))

    def act(key):
        nonlocal st
        outs = s.act(env, p, st)
        rec[key] = {n: as_snap(env, v) for n, v in outs}
        return outs

    if mode == "fault":
        # the fault is planned; the first attempt may fail
        rs.phase = "try"
        saved = alter(env, ops) if step.get("alter") and s.repeatable else []
        if saved:
            before = [(n, o, env.snap(o)) for n, o in ops]
        ctx.local_fail = step.get("failcall", 1) if step.get("failid") is not None else 0
        ctx.failcb = True
        try:
            act("try")
        except Exception as e:
            rec["fault"] = exc_rec(e)
        rs.phase = "retry"
        ctx.local_fail = ctx.failcb = False
        unchanged("by the failed attempt")
        for a, v in saved:
            a[...] = v
        if saved:
            before = [(n, o, env.snap(o)) for n, o in ops]
        rec["c2"] = ctx.world.coll_count
        if not s.repeatable:
            env.operands = []
            st = s.build(env, p)
            before = [(n, o, env.snap(o)) for n, o in env.operands]
        act("out")
        unchanged("by the retry")
        return
    if mode == "repeat":
        k = step.get("k", 3)

        def once(last=False):
            nonlocal st
            if not s.repeatable or step.get("fresh"):
                env.operands = []
                st = s.build(env, p)
            act("out")
        for _ in range(k):
            once()
        rec["use0"] = (rs.live_comms, rs.live_reqs, dict(rs.comm_sites))
        for _ in range(k):
            once()
        rec["use1"] = (rs.live_comms, rs.live_reqs, dict(rs.comm_sites))
        unchanged("by the operation") if s.repeatable and not step.get("fresh") else None
        return
    outs = act("out")
    rec["c2"] = ctx.world.coll_count
    unchanged("by the operation")
    if step.get("reuse"):
        # the caller goes on using its arrays while others may still be busy
        for k, (nm, o) in enumerate(ops):
            for a in arrays_of(env, o):
                junk(a, k)
    if mode == "alias" and not rec["chg"]:
        check_alias(env, st, outs, rec["chg"])


def step_members(g, step):
    """world ranks that take part in a step, in the order of its communicator"""
    return [g["members"][i] for i in step["on"]] if step.get("on") else g["members"]


def rank_main(case, plans):
    mode = case.get("mode", "plain")

    def main(ctx):
        recs = ctx.recs = []
        ctx.local_fail = None
        ctx.failcb = False
        comm, mine = None, None
        for gi, g in enumerate(case["groups"]):
            if g.get("via") == "split":
                continue
            c = make_comm(ctx, g)
            if ctx.rank in g["members"] and c is not None and c:
                comm, mine = c, gi
        if any(g.get("via") == "split" for g in case["groups"]):
            color, key = ctx.MPI.UNDEFINED, 0
            for gi, g in enumerate(case["groups"]):
                if ctx.rank in g["members"]:
                    color, key, mine = gi, g["members"].index(ctx.rank), gi
            comm = ctx.comm.Split(color, key)
        wc = ctx.world.comms[0]
        ctx.mine = mine
        pre = case.get("pre") or []
        g = case["groups"][mine] if mine is not None else None
        envs = {}
        if g:
            envs[None] = Env(ctx, comm, g["members"], 0, g.get("explicit", True))
            # steps may run on other communicators made of members of the group, in another order
            for step in pre + g["prog"]:
                on = tuple(step["on"]) if step.get("on") else None
                if on not in envs:
                    c = comm.Create(comm.Get_group().Incl(list(on)))
                    envs[on] = Env(ctx, c, step_members(g, step), 0, True) if c else None
        ctx.base_use = (wc.seq[ctx.rank], wc.npt[ctx.rank])
        if g is None:
            return
        for step in pre:
            env = envs[tuple(step["on"]) if step.get("on") else None]
            if env is None:
                continue
            try:
                run_step(ctx, env, step, "plain", {"pre": True})
            except Exception as e:      # refused on every rank; earlier work that fails is earlier work too
                e.__traceback__ = None
        for si, step in enumerate(g["prog"]):
            rec = {"step": si}
            recs.append(rec)
            env = envs[tuple(step["on"]) if step.get("on") else None]
            if env is None:
                rec["skip"] = True
                continue
            rec["cid"] = Bs.comm_id(env.comm)
            try:
                run_step(ctx, env, step, mode, rec)
            except Exception as e:
                rec["exc"] = exc_rec(e)
                if ctx.world.crashed:
                    rec["part"] = {n: as_snap(env, v) for part in env.partial for n, v in part}
                if ctx.world.crashed or not plans[mine][si].get("__may_raise__"):
                    return      # (after a failure was reported the job is over, as it is for a real program)
        ctx.finished = True
    return main


# ------------------------------------------------------------------------------------------------ judging


class Result:
    def __init__(self):
        self.viol = []       # (class, message)
        self.worlds = []
        self.steps = 0
        self.simtime = 0.0
        self.fired = {}
        self.probes = {}
        self.hashes = []
        self.maxsteps = 0
        self.nontrivial = False
        self.calls = 0

    def add(self, w):
        self.steps += w.steps
        self.maxsteps = max(self.maxsteps, w.steps)
        self.simtime += w.now
        for d, s in ((self.fired, w.fired), (self.probes, w.probes)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        self.hashes.append(w.h)
        self.calls += sum(rs.ncalls for rs in w.ranks)


def oracles(case):
    """expected values of every step; computed before the simulated job, shared by nothing in it"""
    return [[REG[s["s"]].oracle(s["p"], len(step_members(g, s))) for s in g["prog"]] for g in case["groups"]]


def simulate(case, plans, forced=None, keep_log=False, wall_cap=60.0, step_cap=300000):
    w = W.run_world(case, rank_main(case, plans), forced=forced, keep_log=keep_log, wall_cap=wall_cap,
                    step_cap=step_cap)
    for rs in w.ranks:
        if rs.outcome and rs.outcome[0] == "exc":
            e = rs.outcome[1]
            raise HarnessError(f"harness exception on rank {rs.id}: {e!r} at {rs.outcome[2]} {rs.outcome[3]}")
    return w


def step_name(case, gi, si):
    st = case["groups"][gi]["prog"][si]
    d = st["p"].get("m") or st["p"].get("fn") or (st["p"].get("op") or {}).get("t") or ""
    tag = f"step {si} ({st['s']}{' ' + d if d else ''})"
    if st.get("on"):
        tag += f" on ranks {step_members(case['groups'][gi], st)}"
    return tag if len(case["groups"]) == 1 else f"group {case['groups'][gi]['members']} {tag}"


def checked(snaps, e, n, where):
    try:
        return Bs.check_out(snaps, e, n, where)
    except Exception as x:
        # results so unlike the expected ones that they cannot even be compared
        return [("malformed", f"{where}: cannot be compared with the expected value ({type(x).__name__}: {x}); "
                              f"rank 0 holds {short(snaps[0])}")]


def judge(case, plans, w, viol, checks, ref=None):
    """checks: set of optional checks for this property"""
    crashed = set(w.crashed)
    for cls, msg in w.violations:
        viol.append((cls, msg))
    broken = bool(w.violations)
    for gi, g in enumerate(case["groups"]):
        for si in range(len(g["prog"])):
            mem = step_members(g, g["prog"][si])
            n = len(mem)
            where = step_name(case, gi, si)
            scen = REG[g["prog"][si]["s"]]
            p = g["prog"][si]["p"]
            exp = plans[gi][si]
            recs = []
            for r in mem:
                rr = w.ctxs[r].recs
                recs.append(rr[si] if si < len(rr) else None)
            if all(r is None for r in recs):
                continue
            excs = [None if r is None else r.get("exc") for r in recs]
            if crashed:
                continue
            if any(x != "try" for r in mem for x in w.ranks[r].errs):
                break      # the planned fault hit the preparation of the case; nothing to judge
            if any(excs):
                may = exp.get("__may_raise__")
                k = next(i for i, e in enumerate(excs) if e)
                e = excs[k]
                txt = f"{where}: {e['type']}: {e['msg']} (raised in {e['site'] or 'the program'}"
                if not all(excs):
                    viol.append(("exception" if not may else "partial-exception",
                                 txt + f" on rank(s) {[mem[i] for i, x in enumerate(excs) if x]} of {mem} only)"))
                elif not may:
                    viol.append(("exception", txt + ")"))
                elif broken is False and len({x["type"] for x in excs}) > 1 and not may:
                    viol.append(("exception-kind", where + f": {[x['type'] for x in excs]}"))
                if not may or not all(excs):
                    break
                continue
            if any(r is None or "out" not in r for r in recs):
                if not broken:
                    viol.append(("incomplete", f"{where}: not finished on rank(s) "
                                 f"{[mem[i] for i, r in enumerate(recs) if r is None or 'out' not in r]}"))
                continue
            names = list(recs[0]["out"])
            if any(list(r["out"]) != names for r in recs):
                viol.append(("disagree", f"{where}: ranks returned different sets of results"))
                continue
            for nm in names:
                e = exp.get(nm)
                snaps = [r["out"][nm] for r in recs]
                if e is not None:
                    viol += checked(snaps, e, n, f"{where} result {nm}")
                i = nm.rfind("@")
                e2 = exp.get("x2" + nm[i:] if i > 0 else "x2") if nm.split("@")[0] == "x" else None
                if e2 is not None:
                    viol += checked(snaps, e2, n, f"{where} result {nm} against the exact solution")
                if "comms" in checks:
                    for r, s in zip(mem, snaps):
                        check_comm(s, w.ctxs[r].recs[si]["cid"], viol, f"{where} result {nm} rank {r}")
            for a, b in (scen.twins(p) if hasattr(scen, "twins") else []):
                for r, q in zip(mem, recs):
                    if a in q["out"] and b in q["out"] and not same_snap(q["out"][a], q["out"][b]):
                        viol.append(("differs", f"{where}: {a} and {b} differ on rank {r}: {short(q['out'][a])} and "
                                                f"{short(q['out'][b])}"))
                        break
            if "operands" in checks:
                for r, q in zip(mem, recs):
                    for cls, m in q.get("chg", [])[:1]:
                        viol.append((cls, f"{where}: {m} (rank {r})"))
                        break
            if "fault" in checks:
                judge_fault(recs, [[x for x in w.ranks[r].errs if x == "try"] for r in mem], mem, where, viol,
                            exp.get("__may_raise__"))
            if "leak" in checks:
                for r, q in zip(mem, recs):
                    u0, u1 = q.get("use0"), q.get("use1")
                    if u0 is None:
                        continue
                    if u1[0] > u0[0]:
                        grown = {k: v - u0[2].get(k, 0) for k, v in u1[2].items() if v > u0[2].get(k, 0)}
                        for site in sorted(grown):
                            viol.append(("leak-comm", f"{where}: communicators in use grew from {u0[0]} to {u1[0]} on rank "
                                                      f"{r} over {g['prog'][si].get('k', 3)} repetitions, made in {site}"))
                        break
                    if u1[1] > u0[1]:
                        viol.append(("leak-request", f"{where}: requests in use grew from {u0[1]} to {u1[1]} on rank {r}"))
                        break
    if "left" in checks and not broken and not crashed and not viol:
        for m in w.leftovers()[:2]:
            viol.append(("leftover", m))
    if "reqs" in checks and not broken and not crashed and not viol:
        for rs in w.ranks:
            if rs.live_reqs > 0:
                viol.append(("leftover-request", f"{rs.live_reqs} request(s) of rank {rs.id} never completed"))
                break
    if "comms" in checks and not broken and not crashed:
        wc = w.comms[0]
        for ctx in w.ctxs:
            if ctx.mine is None or case["groups"][ctx.mine].get("via") == "world":
                continue
            now = (wc.seq[ctx.rank], wc.npt[ctx.rank])
            if now != ctx.base_use:
                viol.append(("outside-communication", f"rank {ctx.rank} used the world communicator "
                             f"({now[0] - ctx.base_use[0]} collective(s), {now[1] - ctx.base_use[1]} point-to-point "
                             f"operation(s)) while working on {case['groups'][ctx.mine]['members']}"))
                break


def check_comm(s, cid, viol, where):
    if s["k"] in ("d", "s"):
        if s.get("comm") is not None and s["comm"] != cid and s["comm"][0] != cid[0]:
            viol.append(("wrong-communicator", f"{where} lives on communicator {s['comm'][0]} instead of {cid[0]}"))
        for q in s.get("parts", []):
            check_comm(q, cid, viol, where)
    elif s["k"] == "l":
        for q in s["v"]:
            check_comm(q, cid, viol, where)


def short(s):
    v = s["loc"] if s.get("k") == "d" else s.get("v", s.get("parts"))
    return repr(v)[:160]


def judge_fault(recs, errs, mem, where, viol, may):
    fl = [r.get("fault") for r in recs]
    if any(fl) and not any(errs) and not may:
        e = next(x for x in fl if x)
        viol.append(("exception", f"{where}: {e['type']}: {e['msg']} in {e['site']} without an injected fault"))
        return
    if any(errs):
        no = [mem[i] for i, x in enumerate(fl) if not x]
        if no:
            viol.append(("swallowed-error", f"{where}: the injected failure did not reach the caller on rank(s) {no}"))


def nontrivial(case, plans, w):
    return w.n > 1 and sum(rs.ncalls for rs in w.ranks) > w.n


def forced_of(case, k):
    f = (case.get("forced") or {}).get(str(k))
    return None if f is None else {int(i): int(c) for i, c in f}


def evaluate(case, checks, keep=False, wall_cap=60.0):
    """runs a case; returns a Result"""
    res = Result()
    plans = oracles(case)
    kind = case.get("kind", "single")

    def sim(c, k):
        w = simulate(c, plans, forced_of(case, k), keep, wall_cap)
        res.add(w)
        if keep:
            res.worlds.append(w)
        else:
            res.last = w
        res.traces = getattr(res, "traces", [])
        res.traces.append(list(w.ch.trace))
        return w
    w = None
    if kind == "single":
        w = sim(case, 0)
        judge(case, plans, w, res.viol, checks)
    elif kind == "variants":
        base = sim(case, 0)
        judge(case, plans, base, res.viol, checks)
        if not res.viol:
            for i, v in enumerate(case["variants"]):
                c = dict(case)
                c.update(v)
                w = sim(c, i + 1)
                judge(c, plans, w, res.viol, checks)
                if not res.viol:
                    compare_runs(case, base, w, i, res.viol)
                if res.viol:
                    break
        w = base
    elif kind == "crash":
        c0 = dict(case)
        c0["faults"] = [f for f in case["faults"] if f["kind"] != "crash"]
        base = sim(c0, 0)
        judge(c0, plans, base, res.viol, checks)
        if not res.viol:
            w = sim(case, 1)
            judge_crash(case, plans, base, w, res.viol)
    res.nontrivial = nontrivial(case, plans, w if w is not None else base)
    return res


def compare_runs(case, a, b, i, viol):
    for gi, g in enumerate(case["groups"]):
        for r in g["members"]:
            ra, rb = a.ctxs[r].recs, b.ctxs[r].recs
            if len(ra) != len(rb):
                viol.append(("differs", f"variant {i}: rank {r} went through {len(rb)} steps instead of {len(ra)}"))
                return
            for si, (x, y) in enumerate(zip(ra, rb)):
                where = step_name(case, gi, si)
                if bool(x.get("exc")) != bool(y.get("exc")):
                    viol.append(("differs", f"variant {i}: {where} fails in one run only"))
                    return
                for nm in x.get("out", {}):
                    if nm.startswith("log"):
                        continue
                    if not same_snap(x["out"][nm], y["out"].get(nm, {"k": "?"})):
                        viol.append(("differs", f"variant {i}: {where} result {nm} differs on rank {r}: "
                                                f"{short(x['out'][nm])} and {short(y['out'].get(nm, {'k': 'v', 'v': None}))}"))
                        return


def judge_crash(case, plans, base, w, viol):
    for cls, msg in w.violations:
        viol.append((cls, msg))
    for gi, g in enumerate(case["groups"]):
        for r in g["members"]:
            if r in w.crashed:
                continue
            ra, rb = base.ctxs[r].recs, w.ctxs[r].recs
            for si, y in enumerate(rb):
                where = step_name(case, gi, si)
                x = ra[si] if si < len(ra) else {}
                part = {nm: v for nm, v in y.get("part", {}).items() if nm in x.get("out", {})}
                for nm, v in {**part, **y.get("out", {})}.items():
                    if nm.startswith("log"):
                        continue
                    if nm not in x.get("out", {}) or not same_snap(x["out"][nm], v):
                        viol.append(("made-up-result", f"{where}: surviving rank {r} obtained {short(v)} for {nm} instead of "
                                                       f"{short(x.get('out', {}).get(nm, {'k': 'v', 'v': None}))} after the crash "
                                                       f"of rank {sorted(w.crashed)}"))
                        return


def dumps(o):
    return json.dumps(o, default=lambda v: v.item() if hasattr(v, "item") else str(v))
