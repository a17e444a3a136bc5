"""Which cases are generated for which property."""
import random

from . import base as Bs
from . import ops as O
from . import runner as R
from .scn import REG

# scenario mixes: (weight, scenario, options)
BROAD = [(3, "roundtrip", {}), (3, "bcast", {}), (5, "chain", {}), (4, "reduce", {}), (2, "masked", {}),
         (1, "masked_op", {}), (4, "ghost", {}), (3, "op_layout", {}), (5, "op_deriv", {}), (3, "op_gradlap", {}),
         (4, "op_blocks", {}), (4, "op_algebra", {}), (3, "op_fredholm", {}), (2, "op_mdc", {}), (3, "dottest", {}),
         (4, "stacked", {}), (4, "solve", {"maxit": 6}), (2, "plot", {})]
MISUSE = [(3, "misuse", {})]


def only(*names, **o):
    return [(1, n, o) for n in names]


SPEC = {
    # property: (mix, optional checks, settings)
    "C01": (only("roundtrip"), set(), {"len": (1, 2)}),
    "C02": ([(4, "bcast", {}), (1, "unsafe_local", {})], set(), {"len": (1, 2)}),
    "C03": (only("chain"), set(), {"len": (1, 2)}),
    "C04": (only("reduce"), set(), {"len": (1, 2)}),
    "C05": ([(5, "masked", {}), (1, "masked_op", {}), (2, "chain", {"part": "S", "mask": True})], set(), {"len": (1, 2)}),
    "C06": (only("ghost"), set(), {"len": (1, 2)}),
    "C07": (BROAD, {"operands"}, {"mode": "alias"}),
    "C08": (only("op_layout"), set(), {}),
    "C09": (only("op_deriv"), set(), {"len": (1, 2)}),
    "C10": (only("op_gradlap"), set(), {}),
    "C11": (only("op_blocks"), set(), {}),
    "C12": (only("dottest"), set(), {}),
    "C13": (only("op_algebra"), {"operands"}, {"alias": 0.3}),
    "C14": ([(6, "op_fredholm", {}), (1, "misuse", {"m": "fredholm_one"})], set(), {"len": (1, 2)}),
    "C15": (only("op_mdc"), set(), {}),
    "C16": (only("solve", solver="cg", maxit=12), set(), {}),
    "C17": (only("solve", solver="cgls", maxit=12), set(), {}),
    "C18": (only("solve_twin", maxit=8), set(), {"red": "fixed"}),
    "C19": (BROAD + MISUSE, {"left", "reqs"}, {"len": (1, 6), "hostile": True, "reuse": 0.4}),
    "C20": (BROAD, set(), {"kind": "variants", "len": (1, 2), "red": "fixed", "reuse": 0.3}),
    "C21": ([e for e in BROAD if e[1] not in ("bcast", "plot")], {"operands", "fault", "left"},
            {"mode": "fault", "red": "fixed"}),
    "C22": (BROAD + [(4, "ghost", {})], set(), {"kind": "crash", "len": (1, 4), "red": "fixed"}),
    "C23": (only("misuse"), {"left"}, {"len": (1, 3)}),
    "C24": (BROAD + [(1, "misuse", {})], {"comms", "left"}, {"groups": True, "len": (1, 3)}),
    "C25": (only("solve_show", maxit=8), set(), {"red": "fixed", "clock": 0.7}),
    "C26": (only("stacked"), set(), {"len": (1, 2)}),
    "C27": ([e for e in BROAD if e[1] != "plot"], {"leak"}, {"mode": "repeat"}),
    "C29": ([e for e in BROAD if e[1] not in ("bcast", "plot")], set(), {"gpu": True, "len": (1, 2)}),
    "C28": (only("plot"), {"operands", "left"}, {"len": (1, 2)}),
}

# simulated cases per quick run, tuned to about 20 s on 8 cores
QUICK = {"C01": 5000, "C02": 5000, "C03": 6000, "C04": 6000, "C05": 5000, "C06": 6000, "C07": 4000,
         "C08": 5000, "C09": 5000, "C10": 4000, "C11": 5000, "C12": 4000, "C13": 4000, "C14": 6000,
         "C15": 4000, "C16": 1200, "C17": 1000, "C18": 700, "C19": 2000, "C20": 1500, "C21": 2000,
         "C22": 1800, "C23": 6000, "C24": 4000, "C25": 800, "C26": 4000, "C27": 1800, "C28": 5000, "C29": 4000}
DEFAULT_QUICK = 3000


def pick(rng, mix):
    t = rng.random() * sum(w for w, _, _ in mix)
    for w, s, o in mix:
        t -= w
        if t < 0:
            return s, o
    return mix[-1][1], mix[-1][2]


def gen_step(rng, n, mix):
    s, o = pick(rng, mix)
    p = REG[s].gen(rng, n, dict(o))
    if "m" in o:
        p["m"] = o["m"]
    p.setdefault("seed", rng.randrange(1 << 30))
    return {"s": s, "p": p}


def gen_on(rng, m):
    """a communicator of some or all of m ranks, in any order"""
    on = list(range(m))
    k = rng.random()
    if k < 0.2:
        on.reverse()
    elif k < 0.75:
        rng.shuffle(on)
    if rng.random() < 0.35:
        on = on[:rng.randint(1, m)]
    return on


def gen_groups(rng, nw):
    """communicators of a world of nw ranks: disjoint groups, permuted members, some ranks idle"""
    k = rng.random()
    ranks = list(range(nw))
    if k < 0.15:
        return [{"members": ranks, "via": "dup"}]
    rng.shuffle(ranks)
    if k < 0.3:
        return [{"members": ranks, "via": rng.choice(["split", "create"])}]
    g = []
    ng = rng.choice([1, 2, 2, 3]) if nw > 2 else rng.choice([1, 2])
    cuts = sorted(rng.sample(range(1, nw + 1), min(ng, nw)))
    via = rng.choice(["split", "split", "create_group", "create"])
    b = 0
    for c in cuts:
        m = ranks[b:c]
        if rng.random() < 0.5:
            m = sorted(m)
        g.append({"members": m, "via": via})
        b = c
    return g


def gen_case(prop, seed, idx, probe=True):
    rng = random.Random(f"{seed}/{prop}/{idx}")
    mix, checks, o = SPEC[prop]
    hi = 6
    n = Bs.gen_n(rng, 1, hi)
    if (o.get("groups") or prop in ("C19", "C22")) and n == 1:
        n = rng.choice([2, 3, 4])
    case = {"prop": prop, "n": n, "idx": idx, "faults": [], "kind": o.get("kind", "single"), "mode": o.get("mode", "plain")}
    if o.get("gpu"):
        case["gpu"] = True
    if o.get("alias") and rng.random() < o["alias"]:
        case["mode"] = "alias"
    case["sched"] = Bs.gen_sched(rng, n, red=o.get("red", "any"))
    lo, hi = o.get("len", (1, 1))
    if o.get("groups"):
        gs = gen_groups(rng, n)
        for g in gs:
            m = len(g["members"])
            g["explicit"] = True
            g["prog"] = []
            two = m > 1 and rng.random() < 0.5
            for _ in range(rng.randint(lo, hi) + two):
                on = gen_on(rng, m) if two and rng.random() < 0.6 else None
                st = gen_step(rng, len(on) if on else m, mix)
                if on:
                    st["on"] = on
                g["prog"].append(st)
    else:
        L = rng.randint(lo, hi)
        if hi == 2 and rng.random() < 0.6:
            L = 1
        gs = [{"members": list(range(n)), "via": "world", "explicit": rng.random() < 0.6,
               "prog": [gen_step(rng, n, mix) for _ in range(L)]}]
    case["groups"] = gs
    if o.get("reuse"):
        for g in gs:
            for st in g["prog"]:
                if rng.random() < o["reuse"]:
                    st["reuse"] = True
    if o.get("hostile"):
        if rng.random() < 0.6:
            case["sched"]["rdv"] = 1.0
        case["faults"] += Bs.gen_stalls(rng, n, 0.5)
    else:
        case["faults"] += Bs.gen_stalls(rng, n, 0.15)
    case["faults"] += Bs.gen_clock(rng, o.get("clock", 0.1))
    if case["kind"] == "variants":
        case["variants"] = []
        for _ in range(rng.choice([1, 1, 2])):
            v = {"sched": Bs.gen_sched(rng, n, red="fixed"),
                 "faults": Bs.gen_stalls(rng, n, 0.4) + Bs.gen_clock(rng, 0.4)}
            if rng.random() < 0.4:
                v["pre"] = []
                for _ in range(rng.choice([1, 1, 2])):
                    on = gen_on(rng, n) if n > 1 and rng.random() < 0.3 else None
                    v["pre"].append(gen_step(rng, len(on) if on else n, mix))
                    if on:
                        v["pre"][-1]["on"] = on
            case["variants"].append(v)
    if case["mode"] == "repeat":
        for st in gs[0]["prog"]:
            st["k"] = rng.randint(12, 20) if rng.random() < 0.04 and st["s"] != "solve" else rng.choice([2, 3])
            st["fresh"] = st["p"]["seed"] % 2 == 0      # arrays and operators made anew each time
    if not probe:
        return case, checks
    if case["mode"] == "fault":
        plan_fault(rng, case)
    if case["kind"] == "crash":
        plan_crash(rng, case)
    return case, checks


def plan_fault(rng, case):
    """choose a fault point that exists in this program, by running it once without the fault"""
    st = case["groups"][0]["prog"][0]
    if st["s"] != "solve" and rng.random() < 0.4:
        st["alter"] = True
    ids = O.local_ids(st["p"]["op"]) if isinstance(st["p"].get("op"), dict) and st["s"] != "op_mdc" else []
    if ids and rng.random() < 0.3:
        st["failid"] = rng.choice(ids)
        st["failblk"] = rng.randrange(3)
        st["failcall"] = rng.choice([1, 1, 2])
        return
    if st["s"] == "solve" and st["p"]["cb"] and rng.random() < 0.4:
        st["p"]["cbfail"] = rng.randint(1, max(1, st["p"]["niter"]))
        return
    w = R.simulate(case, R.oracles(case))
    rec = [c.recs[0] for c in w.ctxs if c.recs]
    if w.violations or not rec or any("c2" not in r for r in rec):
        return
    a, b = min(r["c1"] for r in rec), max(r["c2"] for r in rec)
    if b > a:
        case["faults"] = case["faults"] + [{"kind": "coll_err", "at": rng.randint(a + 1, b),
                                            "error": rng.choice(["mpi", "mpi", "mem"])}]


def plan_crash(rng, case):
    w = R.simulate(case, R.oracles(case))
    if w.violations:
        return
    r = rng.randrange(case["n"])
    k = w.ranks[r].ncalls
    if k:
        case["faults"] = case["faults"] + [{"kind": "crash", "rank": r, "at": rng.randint(1, k),
                                            "mode": rng.choice(["notify", "notify", "notify", "abort"]),
                                            "first": rng.randrange(case["n"])}]
