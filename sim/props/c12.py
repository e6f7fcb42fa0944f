"""C12: the command-line tool exits cleanly only if what it was asked for is done."""
import contextlib, copy, io, math, os, re, shutil, signal, sys, tempfile

from .. import cases, env, fresh, lin as linmod
from ..fresh import match_result_files
from ..lin import Lin
from ..procs import World, Unbounded, gen_fault
from ..trace import Trace, BudgetExceeded

COUNTS = {"quick": 450, "thorough": 40000}
TIME_UNIT = "file-system calls and linear solves"
RULE = ("a simulated process runs the command-line tool with random options (load factor, infeasibility, homotopy, load file and hours, swing bus, island, generator, output file) on a random or damaged "
        "GLM or RAW case, while linear-solver faults, disk errors, short transfers and kills strike; the same calculation, composed from the library in a fresh process under the same solver faults, "
        "says what must come out; non-trivial when a fault fired, the input was damaged or a calculation other than the plain one was asked for")
REAL = ["run_solver.py as a script and everything it uses (readers, solver, time series, generator balancing, output)", "the files themselves"]
STUB = ["the order and outcome of file-system calls below the working directory", "answers of the linear solver where a fault says so", "os.urandom, tempfile names, pids and the clock (seeded)"]
ASSUMPTIONS = ["the options mean what the library functions of the same name do (their own meaning is judged by C05, C07, C10, C11 and C15)", "standard output is not a file that can fail"]

SOLVES = 6000

def option(s, name): return s["opts"].get(name)

def argv(s):
    a = ["run_solver.py", s["case"]]
    for k, v in s["opts"].items():
        if v is True: a.append("--" + k)
        elif isinstance(v, list): a += ["--" + k] + [str(x) for x in v]
        elif v is not None: a += ["--" + k, str(v)]
    return a

def plain(r):
    """A result as data for match_result_files."""
    d = {"kind": "success" if r.is_success else "failure", "iters": int(r.iterations), "bus": [b.bus.Bus for b in r.bus_results],
         "v": {str(b.bus.Bus): [float(b.V_r), float(b.V_i)] for b in r.bus_results}, "gen": [[float(g.P), float(g.Q)] for g in r.generator_results],
         "load": [[float(l.P), float(l.Q)] for l in r.load_results], "rated": bool(getattr(r, "violates_equipment_ratings", False))}
    return d

def reference(req):
    """The calculation the options ask for, composed from the library."""
    from logic.network.networkloader import NetworkLoader
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    from models.optimization.L2infeasibility import L2InfeasibilityOptimization
    sys.stdout = open(os.devnull, "w")
    s = req["s"]
    os.chdir(req["dir"])
    tempfile.tempdir = tempfile.mkdtemp()
    o = s["opts"]
    T = Trace()
    out = {"kind": None, "results": {}}
    try:
        with Lin(T, s["plan"], budget=SOLVES):
            st = PowerFlowSettings(max_iters=50, tx_stepping=bool(o.get("tx_stepping")))
            f = float(o.get("load_factor", 1))
            net = NetworkLoader(st).from_file(s["case"])
            if o.get("infeasibility"): net.optimization = L2InfeasibilityOptimization(net.buses)
            for l in net.loads: l.P *= f; l.Q *= f
            pf = PowerFlow(net, st)
            if o.get("loadfile") is not None or o.get("artificialswingbus") is not None:
                ts = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=o.get("loadfile"), loadfile_start=o.get("loadstart"), loadfile_end=o.get("loadend"),
                                                            artificialswingbus=o.get("artificialswingbus"), negativeloads=o.get("negativeloads"),
                                                            select_island=bool(o.get("select_island"))), pf)
                if o.get("loadfile") is not None:
                    first, last = int(o.get("loadstart") or 0), int(o.get("loadend") or 0)
                    # a snapshot is described before the next hour moves the network on
                    real = PowerFlow.execute
                    r = None
                    hours = iter(range(first, last))
                    ts.set_load_names()
                    for h in hours:
                        ts.set_load_values(h)
                        r = ts.execute_powerflow()
                        out["results"][f"_{h}"] = plain(r)
                    if not net.is_three_phase or not os.path.isfile(o["loadfile"]): raise Exception("not possible")
                else:
                    out["results"][""] = plain(ts.execute())
            else:
                out["results"][""] = plain(pf.execute())
        out["kind"] = "done"
    except BudgetExceeded: out["kind"] = "budget"
    except (Exception, KeyboardInterrupt) as e: out["kind"] = "raise"; out["exc"] = repr(e)[:200]
    out["solves"] = T.counts.get("solve", 0)
    return out

def cli(root, s):
    def fn(seam):
        os.chdir(root)
        tempfile.tempdir = os.path.join(root, "tmp"); os.environ["TMPDIR"] = tempfile.tempdir
        import importlib.util, runpy
        script = importlib.util.find_spec("run_solver").origin
        import logic.powerflow, logic.network.networkloader, logic.network.timeseriesprocessor        # noqa: the solver seam lies in one of these
        T = Trace()
        sys.argv = argv(s)
        buf = io.StringIO()
        with Lin(T, s["plan"], budget=SOLVES), contextlib.redirect_stdout(buf):
            try: runpy.run_path(script, run_name="__main__"); code = 0
            except SystemExit as e: code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1; err = "SystemExit"
            except BudgetExceeded: code = "budget"
            except BaseException as e: code = 130 if isinstance(e, KeyboardInterrupt) else 1; err = repr(e)[:200]
        return {"code": code, "err": "" if code == 0 or code == "budget" else err, "out": buf.getvalue()[-4000:], "hash": T.h.hexdigest(), "solves": T.counts.get("solve", 0), "faults": T.faults}
    return fn

# ------------------------------------------------------------------ scenarios

def gen(rng, i, tier):
    kind = rng.choice(["raw", "raw", "glm", "glm", "ts", "ts", "micro", "micro"])
    stress = 1.0 if rng.random() < .65 else rng.choice([8.0, 30.0, 100.0, 300.0])
    o = {}
    spec = cases.gen_raw(rng, stress=stress) if kind == "raw" else cases.gen_micro(rng) if kind == "micro" else cases.gen_glm(rng, stress=stress)
    s = {"kind": kind, "spec": spec}
    if rng.random() < .4: o["load_factor"] = rng.choice([0.5, 2, 1.5, 0, 0.25, 3])
    if rng.random() < .25: o["infeasibility"] = True
    if rng.random() < .25: o["tx_stepping"] = True
    if rng.random() < .2: o["verbose"] = True
    if rng.random() < .12: o["debug"] = True
    names = []
    if spec["fmt"] == "glm":
        for l in spec["loads"]:
            for ph, p, q in l["pq"]: names.append(f"cl_n{l['n']}{ph}")
    s["load"] = None
    if kind == "ts" or (kind == "micro" and rng.random() < .4) or rng.random() < .04:
        rows = rng.randint(1, 5)
        cols = rng.sample(names, rng.randint(0, len(names))) + rng.choice([[], ["cl_none"]]) + ["hour"]
        s["load"] = {"cols": cols, "rows": [[round(rng.choice([0, 1, 1, 1]) * rng.uniform(1e3, 2e5), 2) for _ in cols] for _ in range(rows)]}
        o["loadfile"] = "loads.csv"
        a = rng.randrange(rows); o["loadstart"] = rng.choice([a, a, None]); o["loadend"] = rng.choice([rows, min(rows, a + 2), a + 1, rows + 1, a])
    if kind == "micro":
        a = spec["swings"][0]
        o["artificialswingbus"] = f"n{a}"
        if rng.random() < .85: o["select_island"] = "True"
        if rng.random() < .7: o["negativeloads"] = [rng.choice(["", "gen_"]) + f"n{rng.choice([e['n'] for e in spec['els'] if e['n'] > a])}"]
    elif rng.random() < .05: o["artificialswingbus"] = "n0"
    if rng.random() < .85: o["outputfile"] = rng.choice(["out", "res/out", "a/b/c.out", "./x.y", "out dir/r"])
    if rng.random() < .03: o["load_factor"] = "much"
    s["opts"] = {k: v for k, v in o.items() if v is not None}
    s["case"] = rng.choice(["case", "in/case", "./case.v1"]) + cases.suffix(spec)
    s["input"] = rng.choice([None] * 16 + ["missing", "empty", "cut", "cut", "foreign", "directory", "other-suffix", "no-loadfile", "bad-loadfile", "islands"])
    s["frac"] = round(rng.random(), 3)
    plan = []
    if rng.random() < .35:
        from ..scen import gen_plan
        plan = gen_plan(rng, horizon=rng.choice([3, 8, 30]))
    s["plan"] = plan
    s["faults"] = [gen_fault(rng, 1, horizon=rng.choice([6, 15, 40])) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    for f in s["faults"]:
        f.pop("proc", None)
        if rng.random() < .5: f["path"] = rng.choice(["voltage", "power", "case", "loads.csv", "res", "_1"])
    s["seed"] = rng.randrange(1 << 30); s["bufsize"] = rng.choice([None, None, 64, 512])
    s["stale"] = rng.random() < .4
    return s

def layout(s, root, T=None):
    """The files the tool finds."""
    os.makedirs(os.path.join(root, "tmp"), exist_ok=True)
    p = os.path.join(root, s["case"]); os.makedirs(os.path.dirname(p), exist_ok=True)
    spec = s["spec"]
    if s["input"] == "islands" and spec["fmt"] == "glm" and len(spec["els"]) > 1:
        spec = copy.deepcopy(spec); spec["els"][-1]["t"] = "open"
    text = cases.text(spec)
    if s["input"] == "directory": os.mkdir(p)
    elif s["input"] != "missing":
        if s["input"] == "empty": text = ""
        elif s["input"] == "cut": text = text[:int(s["frac"] * len(text))]
        elif s["input"] == "foreign": text = "<html>\n<body>Not found</body>\n</html>\n"
        if s["input"] == "other-suffix": p = p.rsplit(".", 1)[0] + ".txt"
        with open(p, "w") as f: f.write(text)
    if s["load"] and s["input"] != "no-loadfile":
        l = s["load"]
        rows = [",".join(l["cols"])] + [",".join("%.2f" % x for x in r) for r in l["rows"]]
        text = "\n".join(rows) + "\n"
        if s["input"] == "bad-loadfile": text = '"' + text
        with open(os.path.join(root, "loads.csv"), "w") as f: f.write(text)

def run(s, T):
    import sim.props.c12 as me
    fr = fresh.Fresh(reference)
    s = copy.deepcopy(s)
    if s["input"] == "other-suffix" : pass
    root = os.path.join(me.RUNDIR, "t"); refd = os.path.join(me.RUNDIR, "r")
    layout(s, root); layout(s, refd)
    if s["input"] == "other-suffix": s["case"] = s["case"].rsplit(".", 1)[0] + ".txt"
    out = option(s, "outputfile")
    wanted = []
    if out:
        hours = range(int(option(s, "loadstart") or 0), int(option(s, "loadend") or 0)) if option(s, "loadfile") else [None]
        wanted = ["" if h is None else f"_{h}" for h in hours]
        if s["stale"]:
            for w in wanted:
                for k in ("voltage", "power"):
                    q = os.path.join(root, f"{out}{w}_{k}.csv"); os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, "w").write("bus,name,v_magnitude,v_ang_degrees\n0,n0:A,1.000,0.000\n" if k == "voltage" else "bus,name,P(MW),Q(MVar)\n")
    ref = fr.ask({"s": s, "dir": refd})
    T.ev("reference", ref["kind"], ref["solves"], len(ref["results"]))
    w = World(T, root, s["seed"], s["faults"], 1, bufsize=s["bufsize"])
    try:
        p = w.spawn(cli(root, s), name="cli")
        w.run()
    except Unbounded as e:
        w.kill_all()
        return [{"sig": "unbounded", "msg": str(e)}]
    T.sim_time += w.n
    T.nontrivial = bool(p.faulted or s["plan"] or s["input"] or set(s["opts"]) - {"outputfile", "verbose"})
    if p.state == "dead":
        if p.crashed: return []
        if os.WIFSIGNALED(p.wait) and os.WTERMSIG(p.wait) == signal.SIGSEGV and linmod.IN_SOLVER is not None and linmod.IN_SOLVER[0]:
            T.probe("solver-crash"); return []
        return [{"sig": "process-died", "msg": f"the tool ended abnormally ({p.wait})"}]
    if "died" in p.result: raise RuntimeError(p.result["died"])
    d = p.result["done"]
    code = d["code"]
    T.ev("exit", code, d["solves"], d["hash"])
    T.sim_time += d["solves"]
    for k, n in d["faults"].items(): T.faults[k] = T.faults.get(k, 0) + n
    T.probe(f"exit-{'zero' if code == 0 else 'nonzero' if code != 'budget' else 'budget'}-ref-{ref['kind']}")
    if code == "budget" or ref["kind"] == "budget": return []
    line = " ".join(argv(s)[1:])
    if code != 0:
        if ref["kind"] == "done" and not p.faulted:
            return [{"sig": "needless-failure", "msg": f"'{line}' ends with status {code} ({d['err']}), though nothing stands in its way"}]
        return []
    if ref["kind"] == "raise":
        return [{"sig": "clean-exit", "msg": f"'{line}' exits with status 0, but what it was asked for is not possible: {ref['exc']}"}]
    for x in wanted:
        if x not in ref["results"]: continue
        prefix = os.path.join(root, out + x)
        problem = match_result_files(prefix, ref["results"][x])
        if problem: return [{"sig": "wrong-output", "msg": f"'{line}' exits with status 0, but {problem.replace(root, '.')}"}]
        if ref["results"][x]["kind"] == "success":
            for k in ("voltage", "power"):
                rated = open(f"{prefix}_{k}.csv").read().endswith("VIOLATED EQUIPMENT RATINGS")
                if rated != ref["results"][x]["rated"]: return [{"sig": "wrong-output", "msg": f"'{line}': {out + x}_{k}.csv {'marks' if rated else 'does not mark'} violated equipment ratings"}]
    m = re.findall(r"Successful:\s*(True|False)\s*\n\s*Iterations:\s*(\d+)", d["out"])
    want = [(str(r["kind"] == "success"), str(r["iters"])) for r in ref["results"].values()]
    if m and len(want) == 1 and len(m) == 1 and m != want:
        return [{"sig": "wrong-summary", "msg": f"'{line}' prints success {m[0][0]} after {m[0][1]} iterations, should be {want[0]}"}]
    return []

def shrink(s):
    for k in range(len(s["faults"])): c = copy.deepcopy(s); del c["faults"][k]; yield c
    for k in range(len(s["plan"])): c = copy.deepcopy(s); del c["plan"][k]; yield c
    for k in list(s["opts"]):
        c = copy.deepcopy(s); del c["opts"][k]; yield c
    if s["input"]: c = copy.deepcopy(s); c["input"] = None; yield c
    if s["stale"]: c = copy.deepcopy(s); c["stale"] = False; yield c
    if s["bufsize"]: c = copy.deepcopy(s); c["bufsize"] = None; yield c
    if s["load"] and len(s["load"]["rows"]) > 1:
        c = copy.deepcopy(s); c["load"]["rows"].pop(); yield c
    for x in cases.shrinks(s["spec"]):
        if s["kind"] == "micro" and not any(e["t"] == "open" for e in x["els"]): continue
        c = copy.deepcopy(s); c["spec"] = x; yield c
