"""Rewrites MANIFEST.json (python3 tools/mkmanifest.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C07": "operands and results are compared bitwise before and after, then overwritten with junk in both directions",
    "C18": "different ways of driving the same solver are compared bitwise inside one simulated job and against a serial reference",
    "C19": "hostile timing: rendezvous sends, early-leaving collectives, stalled ranks; deadlock, collective mismatch and leftovers are detected by the simulated MPI itself",
    "C20": "the same program is run under 2-3 schedules/fault sequences/prior histories and compared bitwise",
    "C21": "one injected failure per run at a collective call, a local operator or a callback; then retry without the fault",
    "C22": "a rank is crashed at a random communication call; survivors' completed results are compared with the crash-free run",
    "C24": "several groups of ranks work concurrently on their own communicators; use of any other communicator is detected",
    "C25": "shown and silent runs are compared bitwise under a jumping simulated clock; stdout is recorded per rank",
    "C27": "live communicators and requests of the simulated MPI are counted between k and 2k repetitions",
    "C28": "matplotlib is a recording stand-in",
    "C29": "no GPU here: CuPy is a stand-in (sim/gpu.py) that keeps CuPy's rules on mixing host and device arrays; results "
           "are compared with the CPU references, and every array must stay on the engine it was created with",
}
BASE = ("Seeded random search (sampling, not enumeration) over programs, data, layouts, 1-6 simulated ranks, schedules and "
        "faults; the real pylops_mpi, numpy, scipy and pylops code runs, mpi4py/MPI is simulated (trusted: sim/mpi.py "
        "implements MPI semantics; reference models in harness/). ")
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --self-test",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seam is the mpi4py import, the clock, print, numpy.empty, matplotlib and cupy, all reached "
              "through sys.modules or the builtins of the simulated ranks. replay.py FILE re-executes a replay file."}
na = {e["property"] for e in m["not_applicable"]}
for p in props:
    if p["id"] in na:
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py --property {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py --property {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection (simulated MPI, seeded schedules)",
        "level": "exploration",
        "level_note": (BASE + NOTE.get(p["id"], "Results are compared with a NumPy/serial-PyLops/dense reference on the "
                                                "gathered data, on every rank.")).strip()})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
