"""writes /verif/sim/meta.json: per property what the evidence file says about it"""
import json, os
REAL = ["PyDynamic (unmodified, imported from /repo)", "numpy, scipy", "NumPy's generators (seeded by the simulator)"]
STUB = ["NumPy's global RandomState object (same algorithms, state owned by the simulator per thread/worker)",
        "clocks, sleep and operating system entropy (simulated)", "standard output (in-memory, can fail)",
        "CPU count (fixed per simulator worker)", "matplotlib (inert)"]
POOL = "process/thread pools of multiprocessing and concurrent.futures (event-driven simulator; workers are real forked processes in part of the runs, else in-process stand-ins isolated by pickling)"
A = ["the seeded random stream decides everything the run depends on (checked by selftest: same logs in other processes, batches, orders, hash seeds)",
     "search is sampling: a clean run is evidence, not proof"]
M = {}
def m(id, technique, rule, note, level="exploration", stub=(), real=(), assume=()):
    M[id] = dict(technique="deterministic simulation: " + technique, level=level, rule=rule, level_note=note,
                 real=REAL + list(real), stub=STUB + list(stub), assumptions=A + list(assume))
UM = "seeded random UMC_generic configurations (model, shapes, runs, block sizes, bins, workers) under a simulated pool with random task durations; distinct = configuration and completion order; "
m("C01", "simulated worker pool, batch statistics as reference model", UM + "non-trivial = at least two blocks, so the update formulae are used",
  "seeded search over configurations and completion orders; every returned mean/covariance is compared with numpy on the recorded evaluations to 1e-9", stub=[POOL])
m("C02", "simulated worker pool, conservation check over recorded history", UM + "non-trivial = at least two blocks",
  "seeded search; every draw and evaluation is recorded and matched one to one with what is returned", stub=[POOL])
m("C03", "simulated worker pool, histogram recount as reference", UM + "non-trivial = results outside of the initial range occur",
  "seeded search; edges and counts are recomputed from the recorded evaluations", stub=[POOL])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkmeta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkmeta_more.py")) else None
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(M, open(os.path.join(here, "sim", "meta.json"), "w"), indent=1)
