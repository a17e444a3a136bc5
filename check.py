#!/usr/bin/env python3
"""check.py --property C01 --tier quick|thorough

Seeded search over simulated MPI jobs for one property.  Exit 0: held on everything explored (known findings are
printed as KNOWN-FINDING lines).  Exit 1: a VIOLATION line with a minimised replay file.  Exit 2: the check itself
failed.
"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_INTERP") != "1":
    e = dict(os.environ, VERIF_INTERP="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-u", os.path.abspath(__file__)] + sys.argv[1:], e)

import argparse
import collections
import gc
import json
import multiprocessing as mp
import re
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import loader  # noqa: E402
from sim import world as W  # noqa: E402
from sim.core import HarnessError, Stuck  # noqa: E402
from harness import cases as C  # noqa: E402
from harness import minimise as M  # noqa: E402
from harness import runner as R  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")


def known_entries(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == prop]


def listed(entries, viol):
    for e in entries:
        if e["class"] == viol[0] and re.search(e["match"], viol[1]):
            return e
    return None


class Stats:
    def __init__(self):
        self.cases = self.worlds = self.nontrivial = self.steps = self.calls = 0
        self.maxsteps = 0
        self.simtime = 0.0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.scen = collections.Counter()
        self.strat = collections.Counter()
        self.ranks = collections.Counter()
        self.known = collections.Counter()
        self.hashes = set()
        self.samples = []

    def add(self, case, r):
        self.cases += 1
        self.worlds += len(r.hashes)
        self.steps += r.steps
        self.maxsteps = max(self.maxsteps, r.maxsteps)
        self.calls += r.calls
        self.simtime += r.simtime
        self.fired.update(r.fired)
        self.probes.update(r.probes)
        self.ranks[case["n"]] += 1
        self.strat[case["sched"]["strategy"]] += 1
        for g in case["groups"]:
            for s in g["prog"]:
                self.scen[s["s"] + ((":" + s["p"]["m"]) if "m" in s["p"] and s["s"] == "misuse" else "")] += 1
        if r.nontrivial:
            self.nontrivial += 1
            self.hashes.add(tuple(r.hashes))

    def merge(self, o):
        for k in ("cases", "worlds", "nontrivial", "steps", "calls", "simtime"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.maxsteps = max(self.maxsteps, o.maxsteps)
        for k in ("fired", "probes", "scen", "strat", "ranks", "known"):
            getattr(self, k).update(getattr(o, k))
        self.hashes |= o.hashes
        self.samples += o.samples


def worker(w, a, conn, stop, t_end, entries):
    st = Stats()
    out = {"viol": None, "error": None, "stuck": None}
    try:
        idx = w
        done = 0
        while idx < a.cases and not stop.is_set() and time.time() < t_end:
            conn_idx = idx
            try:
                case, checks = C.gen_case(a.property, a.seed, idx)
                r = R.evaluate(case, checks)
            except Stuck as e:
                out["stuck"] = (conn_idx, str(e))
                stop.set()
                break
            st.add(case, r)
            if idx < 2 * a.jobs and w < 3 and len(st.samples) < 1:
                st.samples.append(json.loads(R.dumps(case)))
            bad = None
            for v in r.viol:
                e = listed(entries, v)
                if e is None:
                    bad = v
                    break
                st.known[e["id"]] += 1
            if bad is not None:
                out["viol"] = (idx, json.loads(R.dumps(case)), sorted(checks), bad)
                stop.set()
                break
            done += 1
            if done % 40 == 0:
                gc.collect()
            idx += a.jobs
    except BaseException as e:
        out["error"] = (idx, f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:])
        stop.set()
    out["stats"] = st
    conn.send(out)
    conn.close()
    os._exit(0)


def in_child(fn, timeout):
    """runs fn(send) in a forked process; returns the last value sent, or None"""
    a, b = mp.Pipe(False)
    pid = os.fork()
    if pid == 0:
        try:
            fn(b.send)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    b.close()
    t = time.time() + timeout
    last = None
    while True:
        left = t - time.time()
        if left <= 0 or not a.poll(left):
            break
        try:
            last = a.recv()
        except EOFError:
            break
    try:
        os.kill(pid, 9)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    return last


def write_replay(prop, a, idx, case, checks, viol, full):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-s{a.seed}-{idx}.json")
    rec = {"property": prop, "seed": a.seed, "index": idx, "tier": a.tier, "violation": list(viol),
           "checks": sorted(checks), "case": case, "unminimised_case": full,
           "how": "python3 replay.py " + os.path.relpath(path, HERE)}
    with open(path, "w") as f:
        f.write(R.dumps(rec))
    return path


def replay_ok(path):
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), path, "--record"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=150)
    return p.returncode == 1, p.stdout


def report(a, idx, case, checks, viol):
    budget = 30 if a.tier == "quick" else 90
    best = None
    if viol[0] != "stuck":
        best = in_child(lambda send: M.minimise(case, checks, viol, send, budget), budget + 60)
    tries = ([best] if best else []) + [(case, viol)]
    for c, v in tries:
        path = write_replay(a.property, a, idx, c, checks, v, case)
        try:
            ok, txt = replay_ok(path)
        except subprocess.TimeoutExpired:
            ok, txt = False, "timeout"
        if ok:
            print(txt.rstrip())
            print(f"VIOLATION property={a.property} replay={path}")
            return 1
    print(f"check error: violation {viol} of case {idx} did not reproduce:\n{txt}")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    if a.self_test:
        return self_test()
    prop = a.property
    if prop not in C.SPEC:
        print("unknown property", prop)
        return 2
    quick = C.QUICK.get(prop, C.DEFAULT_QUICK)
    a.cases = a.cases or (quick if a.tier == "quick" else quick * 60)
    cap = a.cap or (240 if a.tier == "quick" else 1200)
    print(f"property {prop} tier {a.tier} seed {a.seed}: up to {a.cases} cases on {a.jobs} processes, code {loader.REPO}")
    t0 = time.time()
    try:
        W.prepare(C.SPEC[prop][2].get("gpu"))
        W.make_world({"n": 2})
    except Exception:
        traceback.print_exc()
        print("check error: the library could not be loaded")
        return 2
    entries = known_entries(prop)
    kf_lines, kf_bad = [], None
    for e in entries:
        res = in_child(lambda send: send(R.evaluate(e["case"], set(e.get("checks", []))).viol), 120)
        if any(listed([e], v) for v in res or []):
            kf_lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    for ln in kf_lines:
        print(ln)
    gc.collect()
    gc.freeze()
    gc.disable()
    stop = mp.Event()
    procs = []
    for w in range(a.jobs):
        ra, rb = mp.Pipe(False)
        pid = os.fork()
        if pid == 0:
            ra.close()
            worker(w, a, rb, stop, t0 + cap, entries)
        rb.close()
        procs.append((pid, ra))
    total, viols, errors, stucks = Stats(), [], [], []
    for pid, ra in procs:
        o = None
        try:
            if ra.poll(max(1.0, t0 + cap + 120 - time.time())):
                o = ra.recv()
        except EOFError:
            pass
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        if o is None:
            errors.append((-1, "a worker process died or did not answer"))
            stop.set()
            continue
        total.merge(o["stats"])
        if o["viol"]:
            viols.append(o["viol"])
        if o["error"]:
            errors.append(o["error"])
        if o["stuck"]:
            stucks.append(o["stuck"])
    rc = 0
    viols.sort(key=lambda v: v[0])
    if not viols:
        for idx, msg in stucks:
            # a rank that never gives up control: only believed when it happens again in a fresh process
            case, checks = C.gen_case(prop, a.seed, idx, probe=False)
            viols.append((idx, json.loads(R.dumps(case)), sorted(checks), ("stuck", msg)))
            break
    if viols:
        idx, case, checks, v = viols[0]
        print(f"case {idx}: {v[0]}: {v[1]}")
        rc = report(a, idx, case, set(checks), v)
    if rc == 0 and errors:
        print(f"check error in case {errors[0][0]}: {errors[0][1]}")
        rc = 2
    wall = time.time() - t0
    write_evidence(a, total, wall, rc, len(viols), kf_lines)
    print(f"{total.cases} cases, {total.worlds} simulated jobs, {len(total.hashes)} distinct non-trivial, "
          f"{total.steps} scheduling steps, faults {dict(total.fired)}, {wall:.1f} s")
    return rc


def self_test():
    """set-up: nothing to build, but show that the simulator itself works here (on a program without pylops_mpi)"""
    from sim import selfcheck
    return selfcheck.main()


def write_evidence(a, s, wall, rc, nviol, kf):
    h = max(wall, 1e-6) / 3600.0
    gpu = C.SPEC[a.property][2].get("gpu")
    files = ["DistributedArray", "LinearOperator", "StackedLinearOperator", "basicoperators/*", "signalprocessing/Fredholm1",
             "waveeqprocessing/MDC", "optimization/*", "plotting/plotting", "utils/*"]
    cov = {
        "evaluations": s.cases,
        "distinct_nontrivial": len(s.hashes),
        "rule": "A case is generated from Random(f'{seed}/{property}/{index}'): number of ranks, groups, program of library "
                "calls with data, scheduling strategy and faults. Non-trivial: more than one rank and more communication "
                "calls than ranks. Distinct: different hash of the whole event log (which rank made which MPI call, in "
                "which order, with deliveries) over all simulated jobs of the case.",
        "samples": s.samples[:3] or ["none"],
        "simulated_jobs": s.worlds,
        "nontrivial_cases": s.nontrivial,
        "simulated_jobs_per_hour": int(s.worlds / h),
        "seeds_per_hour": int(s.cases / h),
        "simulated_time_s": round(s.simtime, 6),
        "scheduling_steps": s.steps,
        "longest_case_steps": s.maxsteps,
        "communication_calls": s.calls,
        "faults_fired": dict(s.fired),
        "probes": dict(s.probes),
        "rare_paths": {k: v for k, v in s.scen.most_common()},
        "strategies": dict(s.strat),
        "ranks_per_job": {str(k): v for k, v in sorted(s.ranks.items())},
        "known_findings_seen": {str(k): v for k, v in s.known.items()},
        "real_code": [f"pylops_mpi/{f} (one private copy per simulated rank)" for f in files] + ["numpy", "scipy", "pylops"],
        "stubs": ["mpi4py.MPI (sim/mpi.py)", "time.time/perf_counter/monotonic/sleep", "numpy.empty/empty_like contents",
                  "matplotlib (recording stand-in)", "stdout/stderr per rank"] + (["cupy (sim/gpu.py)"] if gpu else []),
        "not_simulated": ["mpi4py and Open MPI themselves"] + (["CuPy and the GPU themselves"] if gpu else ["cupy/GPU"]),
    }
    ev = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulated MPI implements the MPI standard as mpi4py exposes it (see DESIGN.md, trusted base)",
                          "a rank switches only inside MPI calls: ranks share no memory, so no interleaving is lost",
                          "sampling, not enumeration: a clean run is evidence, not proof"],
          "wall_s": round(wall, 2), "violations": nviol if rc == 1 else 0}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.property}.json"), "w") as f:
        f.write(R.dumps(ev))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
