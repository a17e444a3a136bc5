#!/usr/bin/env python3
"""Same seed, same execution: runs the first cases of every property several times, in fresh processes, in other
orders, with another PYTHONHASHSEED and in other company, and compares the hash of every simulated job's event log
(which rank made which MPI call or was delivered what, in which order, with which faults), every result recorded on
every rank to the last bit, and what the oracles said.

    python3 tools/determinism.py [--cases 40] [--props C01,C20]
"""
import argparse
import json
import os
import subprocess
import sys
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def canon(o):
    if isinstance(o, dict):
        return {str(k): canon(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    if hasattr(o, "tobytes"):
        return (str(o.dtype), o.shape, zlib.crc32(o.tobytes()))
    if isinstance(o, (str, bytes, int, float, complex, bool, type(None))):
        return o
    d = getattr(o, "__dict__", None)
    return (type(o).__name__, canon(d) if d and not callable(o) else None)


def child(prop, seed, order):
    sys.path.insert(0, HERE)
    from sim import world as W
    from sim.core import Stuck
    from harness import cases as C
    from harness import runner as R
    W.prepare(C.SPEC[prop][2].get("gpu"))
    for i in order:
        case, checks = C.gen_case(prop, seed, i)
        try:
            r = R.evaluate(case, checks, keep=True, wall_cap=60)
            dg = zlib.crc32(repr([[canon(c.recs) for c in w.ctxs] for w in r.worlds]).encode())
            o = [[f"{h:016x}" for h in r.hashes], r.viol, r.steps, dg]
        except Stuck as e:
            o = ["stuck", str(e)]
        print(json.dumps([i, o]), flush=True)


def run(prop, seed, order, hashseed, load):
    e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             MPLBACKEND="Agg", PYTHONHASHSEED=str(hashseed))
    ps = [subprocess.Popen([PY, os.path.abspath(__file__), "--child", prop, "--seed", str(seed), "--order",
                            ",".join(map(str, o))], env=e, stdout=subprocess.PIPE, text=True)
          for o in (order[k::load] for k in range(load)) if o]
    out = {}
    for p in ps:
        t, _ = p.communicate()
        assert p.returncode == 0, (prop, p.returncode)
        out.update(json.loads(ln) for ln in t.splitlines() if ln.startswith("["))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--cases", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props")
    ap.add_argument("--child")
    ap.add_argument("--order")
    a = ap.parse_args()
    if a.child:
        return child(a.child, a.seed, [int(x) for x in a.order.split(",")])
    props = a.props.split(",") if a.props else [f"C{k:02d}" for k in range(1, 30)]
    bad = n = jobs = 0
    for p in props:
        o = list(range(a.cases))
        first = run(p, a.seed, o, 0, 1)
        for name, order, hs, load in (("again", o, 0, 1), ("reversed, other hash seed", o[::-1], 12345, 1),
                                      ("8 processes at once", o, 99, 8)):
            other = run(p, a.seed, order, hs, load)
            d = [i for i in first if other.get(i) != first[i]]
            if d:
                bad += len(d)
                print(f"{p}: {name}: cases {d[:10]} differ: {first[d[0]]} / {other.get(d[0])}"[:600])
        n += len(first)
        jobs += sum(len(v[0]) for v in first.values() if v[0] != "stuck")
        print(p, "done", flush=True)
    print(f"{n} cases, {jobs} simulated jobs, each run 4 times: {bad} differences")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
