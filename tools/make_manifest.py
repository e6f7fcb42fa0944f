"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "deterministic simulation: seeded search over "
WHAT = {
 "C01": "networks, settings and linear-solver fault sequences; every success checked against independently written network equations",
 "C02": "linear-solver fault sequences that stop, plus solve-count budgets; outcome compared with the fault-free run of the same seed",
 "C03": "operation histories (solves, failures, edits) on several networks; every solve compared with a fresh copy in a fresh process state",
 "C04": "schedules of simulated processes sharing a simulated-fault disk (crash, torn, full, unreadable) under the derivative cache",
 "C05": "solve/edit histories with automatic devices and solver faults; rest state checked by a reference controller",
 "C06": "time series with faults confined to hours; every hour compared with a standalone solve",
 "C07": "crash points and disk faults while result files are written, with reruns",
 "C08": "a simulated HTTP server with network faults and interleaved loads, plus disk faults",
 "C09": "environments (hash seed, clock, cache, directory, history); all runs of a case compared",
 "C10": "microgrids and solver faults under the balancing loop; swing power recomputed independently",
 "C11": "solver faults that fail or stall the direct attempt or continuation steps; result checked against the unrelaxed equations",
 "C12": "command lines with disk, solver and input faults; exit status and files compared with an API run",
 "C13": "injection of an asynchronous exception at a chosen executed line; redo compared with an undisturbed process",
 "C14": "line-level thread schedules of loading, deriving and solving; each thread compared with running alone",
 "C15": "switching histories with solves and solver faults; island gate and island selection checked by a reference graph",
 "C16": "histories of solves, edits, displays and dumps in one process with disk faults; every earlier result compared with its record, and every solve with one that shows nothing",
 "C17": "repeated programs under the same faults in one simulated process; objects, stores, descriptors, threads and files may not grow",
 "C18": "orders of construction, of files and of names with solver faults; every description of a grid compared with the plain one in a fresh process",
}
NOTE = {}
NA = {
 "N01": "pure input-to-network translation: no schedule, time, I/O fault or history for the simulator to decide (faults while reading are in C08 and C12); needs a reference GLM reader, a differential-testing job",
 "N02": "pure record parsing of one file, no nondeterminism for a simulator to control; a differential or translation-validation job",
 "N03": "closed-form numerical function of its arguments, nothing to schedule or fault",
 "N04": "pure symbolic computation, decided by algebra rather than by schedules or faults",
 "N05": "a pure predicate over one finished solution, and the code marks its line and transformer results as broken; no schedule or fault reaches it",
 "N06": "an optimality claim about a pure numerical function; simulation can check that a success satisfies the equations (C01), not that no better compensation exists",
}
checks = []; na = []
for p in props:
    i = p["id"]
    mod = os.path.join(here, "sim", "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(mod):
        checks.append({"property": i, "quick_cmd": f"./check --property {i} --tier quick", "thorough_cmd": f"./check --property {i} --tier thorough",
                       "technique": TECH + WHAT[i], "level": "exploration",
                       "level_note": NOTE.get(i, "Seeded random exploration: every run is exactly repeatable and a violation comes with a minimised replay file; absence of violations is evidence over the runs made, not a proof. Real repository code runs; only the seams named in DESIGN.md are simulated.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: the seams are the module attributes, built-in functions and interpreter trace hooks the simulator replaces from outside. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
