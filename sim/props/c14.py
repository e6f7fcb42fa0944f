"""C14: threads that load and solve different networks do not disturb each other."""
import copy, json, os, random, sys, tempfile

from .. import cases, fresh, netspec
from ..strike import choose
from ..threads import Threads, Endless
from ..trace import Trace
from . import c13

COUNTS = {"quick": 220, "thorough": 40000}
TIME_UNIT = "executed lines of repository code, each a point where another thread may go on"
RULE = ("two to four threads of one process each load a case (or build a network in memory), solve it, change its loads and solve again or run its hours, and write result files; some share the models, the case text or the settings "
        "object's values, some are struck by an exception; a seeded scheduler decides after every executed line (or instruction) of the repository's code which thread goes on, with the stores of the process cold or warm; "
        "each thread's outcomes are compared with the same job alone in a fresh process; non-trivial when the threads changed hands at least twice")
REAL = ["readers, network model, derivation and its caches, stamping, solver, device control, time series, result files; real threads"]
STUB = ["the choice of the thread that runs"]
ASSUMPTIONS = ["library code (NumPy, SciPy, SymPy, pandas) is not interrupted between two lines of repository code", "numbers of a solve that fails or needs more than 15 iterations are not compared"]
LIMIT = 200

def job(s, k, th=None, shared=None):
    """The work of thread k -> list of answers, one per operation."""
    t = s["threads"][k]
    p, out = c13.prepare(t["case"], f"t{k}")
    new = lambda: c13.Job(t["case"], p, out, (shared or {}).get(json.dumps(t["case"]["settings"], sort_keys=True)) if s["share"] else None)
    j = new()
    res = []
    for op in t["ops"]:
        try:
            if op["op"] == "edit":
                if j.net is not None and not t["case"].get("series"):
                    for l in j.net.loads:
                        if hasattr(l, "P"): l.P *= op["f"]; l.Q *= op["f"]
                    for l in getattr(j.net, "generators", []) or []:
                        if hasattr(l, "P"): l.P *= op["f"]
                res.append(["ok", None]); continue
            if op["op"] == "reload": j = new()
            if th is not None and op.get("strike") and op["strike"].get("at"):
                at = op["strike"]["at"]
                th.strike[k] = [at[0], at[1], op["strike"]["kind"], False]
            r = j.go()
            d = j.describe(r)
            res.append(["ok", d])
        except Endless: raise
        except (Exception, KeyboardInterrupt) as e: res.append(["raise", type(e).__name__, repr(e)[:200]])
        finally:
            if th is not None and th.strike[k] is not None:
                if th.strike[k][3]: res[-1] = ["struck"]
                th.strike[k] = None
    return res

def alone(req):
    sys.stdout = open(os.devnull, "w")
    os.makedirs(req["dir"], exist_ok=True); os.chdir(req["dir"]); tempfile.tempdir = req["dir"]
    s = req["s"]; k = req["k"]
    c13.forget(s)
    th = Threads([lambda me: job(s, k)], {"mode": "quantum", "q": 1}, random.Random(0), Trace(), s["instructions"])
    th.profile[0] = {}
    a = th.run()[0]
    return {"a": a, "counts": th.profile[0], "steps": th.step[0]}

def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    s = {"models": rng.choice(["memory", "disk", "derive", "derive"]), "instructions": False, "share": rng.random() < .3, "seed": rng.getrandbits(40), "threads": []}
    for k in range(n):
        if k and rng.random() < .35: c = copy.deepcopy(s["threads"][rng.randrange(k)]["case"])
        else:
            c = c13.gen_case(rng, small=True)
            if rng.random() < .93: c["settings"].pop("tx_stepping", None)
            c["out"] = rng.random() < .3
        ops = [{"op": "go"}]
        u = rng.random()
        if u < .3: ops += [{"op": "edit", "f": rng.choice([.5, .9, 1.1])}, {"op": "go"}]
        elif u < .45: ops += [{"op": "reload"}]
        elif u < .55: ops += [{"op": "go"}]
        if rng.random() < .15:
            ops[0]["strike"] = {"kind": rng.choice(["interrupt", "memory", "disk"]), "u": [rng.random(), rng.random()], "spread": rng.choice(["file", "place", "run"])}
            if len(ops) == 1: ops.append({"op": "reload"})
        s["threads"].append({"case": c, "ops": ops})
    u = rng.random()
    if u < .3: s["sched"] = {"mode": "uniform", "p": rng.choice([.5, .1, .02, .003])}
    elif u < .5: s["sched"] = {"mode": "quantum", "q": rng.choice([1, 1, 2, 3, 7, 40])}
    elif u < .85: s["sched"] = {"mode": "place", "u": [rng.random() for _ in range(rng.choice([1, 2, 4, 8]))], "spread": rng.choice(["file", "file", "place"]), "p": rng.choice([1, .5, .1])}
    else: s["sched"] = {"mode": "prio", "d": rng.choice([1, 2, 3, 5])}
    if all(not t["case"].get("series") and not t["case"].get("inf") and not t["case"]["settings"].get("tx_stepping") for t in s["threads"]) and n == 2 and rng.random() < .25: s["instructions"] = True
    return s

def run(s, T):
    import sim.props.c14 as me
    # the baton passes faster between threads on one processor
    cpus = sorted(os.sched_getaffinity(0))
    try: os.sched_setaffinity(0, {cpus[int(os.environ.get("SIM_WORKER", "0")) % len(cpus)]})
    except OSError: pass
    fr = fresh.Fresh(alone)
    ref = [fr.ask({"s": s, "k": k, "dir": os.path.join(me.RUNDIR, f"f{k}")}) for k in range(len(s["threads"]))]
    for k, r in enumerate(ref): T.ev("alone", k, r["steps"], json.dumps(r["a"])[:2000])
    s = copy.deepcopy(s)
    counts = {}
    for r in ref:
        for p, c in r["counts"].items(): counts[p] = counts.get(p, 0) + c
    z = s["sched"]
    if z["mode"] == "place":
        z["places"] = [x[0] for x in (choose(counts, [u, 0], z["spread"]) for u in z["u"]) if x]
    if z["mode"] == "prio": z["total"] = sum(r["steps"] for r in ref)
    for k, t in enumerate(s["threads"]):
        for op in t["ops"]:
            if op.get("strike"): op["strike"]["at"] = choose(ref[k]["counts"], op["strike"]["u"], op["strike"]["spread"])
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(root); os.chdir(root)
    c13.forget(s)
    th = Threads([None] * len(ref), z, random.Random(s["seed"]), T, s["instructions"], budget=[20 * r["steps"] + 200000 for r in ref])
    shared = {json.dumps(t["case"]["settings"], sort_keys=True): netspec.settings(t["case"]["settings"]) for t in s["threads"]}
    th.jobs = [lambda q: job(s, q, th, shared)] * len(ref)
    got = th.run()
    T.sim_time += sum(th.step)
    T.nontrivial = len(th.switches) >= 2
    T.ev("schedule", len(th.switches), th.switches[:3000], th.step)
    for p in sorted(th.places)[:2000]: T.probe("switched-in-" + p.split(":")[0].split("/")[-1])
    T.probe("sched-" + z["mode"])
    for k, (g, r) in enumerate(zip(got, ref)):
        T.ev("outcome", k, json.dumps(g)[:2000])
        v = lambda sig, msg: [{"sig": sig, "msg": f"thread {k} of {len(ref)}: {msg}", "schedule": th.switches[:200000], "stores": s["models"]}]
        if isinstance(g, dict): return v("endless" if "Endless" in g["error"] else "thread-error", ("does not end: " if "Endless" in g["error"] else "dies: ") + g["error"][-600:])
        if isinstance(r["a"], dict): raise RuntimeError(r["a"]["error"])
        struck = False
        for n, (x, y) in enumerate(zip(g, r["a"])):
            if x[0] == "struck": T.fault(s["threads"][k]["ops"][n]["strike"]["kind"]); struck = True; continue
            if struck and s["threads"][k]["ops"][n]["op"] == "go": continue     # C13's question
            if x[0] != y[0]: return v("outcome", f"operation {n} ends with {x[1:] if x[0] == 'raise' else 'a result'} instead of {y[1:] if y[0] == 'raise' else 'a result'}")
            if x[0] == "raise":
                if x[1] != y[1]: return v("outcome", f"operation {n} raises {x[2]} instead of {y[2]}")
            elif y[1] is not None:
                d = c13.differs(x[1], None, {"d": y[1], "e": None})
                if d: return v("result", f"operation {n}: {d}")
    return []

def shrink(s):
    from .. import runner
    import sim.props.c14 as me
    if s["sched"]["mode"] != "explicit":
        r = runner.execute(me, s)
        v = r.get("violations") or []
        if v and len(v[0].get("schedule", [])) < 200000:
            c = copy.deepcopy(s); c["sched"] = {"mode": "explicit", "switches": v[0]["schedule"]}; yield c
    else:
        z = s["sched"]["switches"]
        k = len(z) // 2
        while k >= 1:
            for a in range(0, len(z), k):
                c = copy.deepcopy(s); c["sched"]["switches"] = z[:a] + z[a + k:]; yield c
            k //= 2
    for k, t in enumerate(s["threads"]):
        for n, op in enumerate(t["ops"]):
            if op.get("strike"): c = copy.deepcopy(s); del c["threads"][k]["ops"][n]["strike"]; yield c
        if len(t["ops"]) > 1: c = copy.deepcopy(s); c["threads"][k]["ops"].pop(); yield c
        if t["case"].get("out"): c = copy.deepcopy(s); c["threads"][k]["case"]["out"] = False; yield c
    if s["sched"]["mode"] != "explicit" and len(s["threads"]) > 2:
        for k in range(len(s["threads"])): c = copy.deepcopy(s); del c["threads"][k]; yield c
