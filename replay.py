#!/usr/bin/env python3
"""replay.py FILE [--log] [--full]: runs the recorded case again; exit 1 if the recorded violation happens again.

--full replays the case as generated instead of the minimised one; --log prints the event log of the failing job.
"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_INTERP") != "1":
    e = dict(os.environ, VERIF_INTERP="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-u", os.path.abspath(__file__)] + sys.argv[1:], e)

import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import world as W  # noqa: E402
from sim.core import Stuck  # noqa: E402
from harness import runner as R  # noqa: E402


def main():
    path = sys.argv[1]
    with open(path) as f:
        rec = json.load(f)
    case = rec["unminimised_case"] if "--full" in sys.argv else rec["case"]
    want = rec["violation"]
    W.prepare(case.get("gpu"))
    try:
        r = R.evaluate(case, set(rec["checks"]), keep=True, wall_cap=60.0)
        viol, hashes = r.viol, [f"{h:016x}" for h in r.hashes]
    except Stuck as e:
        r, viol, hashes = None, [("stuck", str(e))], []
    print(f"property {rec['property']}: seed {rec['seed']} case {rec['index']}, {case['n']} rank(s)")
    for g in case["groups"]:
        for s in g["prog"]:
            print(f"  ranks {g['members']} ({g['via']}): {s['s']} {R.dumps(s['p'])}")
    print(f"  schedule {R.dumps(case['sched'])}")
    print(f"  faults {R.dumps(case['faults'])}")
    if case.get("forced"):
        print(f"  decisions that are not the plain ones: {R.dumps(case['forced'])}")
    for c, m in viol:
        print(f"  observed {c}: {m}")
    if "--log" in sys.argv and r is not None:
        for w in r.worlds:
            print("  ---- event log")
            for ln in w.log or []:
                print("  " + ln)
    same = any(c == want[0] for c, _ in viol)
    if "--record" in sys.argv:
        rec["event_hashes"] = hashes
        rec["event_log"] = (r.worlds[-1].log or [])[:4000] if r is not None else []
        with open(path, "w") as f:
            f.write(R.dumps(rec))
    elif rec.get("event_hashes") is not None and "--full" not in sys.argv:
        print("  event log identical to the recorded one: " + ("yes" if rec["event_hashes"] == hashes else "NO"))
    print("  reproduced" if same else "  NOT reproduced")
    return 1 if same else 0


rc = main()
sys.stdout.flush()
os._exit(rc)
