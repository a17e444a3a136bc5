"""Runs cases of a property under the real mpi4py and Open MPI and judges them with the same oracle.

    mpiexec -n N python tools/realmpi.py --property C09 --cases 40 [--seed 1]

Validates the simulator and the references (they must agree with the real library), it decides no property.
Only whole-world, fault-free cases of N ranks are used; the schedule is whatever the machine does.
"""
import argparse
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from mpi4py import MPI  # noqa: E402
import pylops_mpi  # noqa: E402
import pylops_mpi.optimization.cls_basic  # noqa: E402,F401
import pylops_mpi.plotting.plotting  # noqa: E402,F401
import pylops_mpi.utils.dottest  # noqa: E402,F401
import logging  # noqa: E402

from harness import base as Bs  # noqa: E402
from harness import cases as C  # noqa: E402
from harness import runner as R  # noqa: E402

logging.getLogger().addHandler(logging.NullHandler())


class Out(list):
    """what the rank prints"""

    def write(self, s):
        self.append(s)

    def flush(self):
        pass


def context(comm, out):
    w = types.SimpleNamespace(gpu=False, coll_count=0, crashed=set(), shared={}, fire=lambda k: None, n=comm.size, comms=[],
                              sim_time=MPI.Wtime, now=0.0, time_calls=0, clock_amount=1e9)
    rs = types.SimpleNamespace(id=comm.rank, phase="", ncalls=0, out=out, errs=[], live_comms=0, live_reqs=0, comm_sites={})
    ctx = types.SimpleNamespace(world=w, rs=rs, rank=comm.rank, size=comm.size, MPI=MPI, pm=pylops_mpi, comm=comm, plotlog=[],
                                recs=[], local_fail=None, failcb=False, mine=0, mods=sys.modules)

    def memo(key, fn):
        if key not in w.shared:
            w.shared[key] = fn()
        return w.shared[key]
    ctx.memo = memo
    ctx.rec = lambda a, b: ctx.recs.append((a, b))
    return ctx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--cases", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    comm = MPI.COMM_WORLD
    bad = done = 0
    real_out = sys.stdout
    idx = -1
    while done < a.cases:
        idx += 1
        case, checks = C.gen_case(a.property, a.seed, idx, probe=False)
        g = case["groups"][0]
        if case["n"] != comm.size or len(case["groups"]) != 1 or g["via"] != "world" or any(s.get("on") for s in g["prog"]):
            if idx > 200 * a.cases:
                break
            continue
        if any(s["s"] == "plot" for s in g["prog"]):
            continue
        done += 1
        plans = R.oracles(case)
        out = Out()
        ctx = context(comm, out)
        sys.stdout = out
        env = Bs.Env(ctx, comm, g["members"], 0, g.get("explicit", True))
        recs = []
        mode = case["mode"] if case["mode"] in ("plain", "alias") else "plain"
        for si, step in enumerate(g["prog"]):
            rec = {"step": si, "cid": None}
            recs.append(rec)
            try:
                R.run_step(ctx, env, step, mode, rec)
            except Exception as e:  # noqa: B902
                rec["exc"] = R.exc_rec(e)
                if not plans[0][si].get("__may_raise__"):
                    break
        sys.stdout = real_out
        allr = comm.gather(recs, root=0)
        if comm.rank == 0:
            w = types.SimpleNamespace(crashed=set(), violations=[], comms=[],
                                      ctxs=[types.SimpleNamespace(recs=r) for r in allr],
                                      ranks=[types.SimpleNamespace(errs=[]) for _ in allr])
            viol = []
            R.judge(case, plans, w, viol, checks & {"operands"})
            for v in viol[:2]:
                print(f"case {idx}: {v[0]}: {v[1][:400]}", flush=True)
            bad += bool(viol)
    if comm.rank == 0:
        print(f"{a.property}: {done} cases on {comm.size} real processes, {bad} disagree with the oracle", flush=True)
    sys.exit(1 if comm.bcast(bad) else 0)


if __name__ == "__main__":
    main()
