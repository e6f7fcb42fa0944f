"""C13: a solve that is interrupted leaves the network and process usable."""
import copy, gc, json, os, sys, tempfile

from .. import cases, corpus, fresh, netspec
from ..lin import Lin
from ..strike import Strike, choose
from ..trace import Trace, BudgetExceeded

COUNTS = {"quick": 450, "thorough": 40000}
TIME_UNIT = "executed lines of repository code at which an exception could strike"
RULE = ("a case is loaded, its model equations derived or read from the cache, and it is solved once, under infeasibility analysis, with homotopy or as a time series, and written out; one to three times a keyboard "
        "interrupt, a memory error or an I/O error strikes at a chosen execution of a chosen line or instruction of the repository's code, or the linear solver raises; then the same operation is repeated on the objects "
        "that are left, and another case is solved; both are compared with a fresh process, and a keyboard interrupt must come out or leave no mark; non-trivial when a strike hit")
REAL = ["readers, derivation and its cache on disk, stamping, solver, time series, result files"]
STUB = ["none; exceptions are raised through sys.monitoring before a line or instruction runs"]
ASSUMPTIONS = ["networks without automatic devices, which by design remember their position", "numbers of a solve that fails or needs more than 15 iterations are not compared"]
LIMIT = 150

SMALL = 6

def forget(s):
    """The process-wide stores as a process finds them that has not used some models yet."""
    from logic.stamping.lagrangesegment import LagrangeSegment
    segs = [o for o in gc.get_objects() if isinstance(o, LagrangeSegment)]
    segs.sort(key=lambda x: (len(str(x.lagrange)), str(x.lagrange_key)))
    small = [x for x in segs if x._derivatives is not None][:SMALL]
    p = LagrangeSegment._pickler
    d = os.path.join(os.getcwd(), "models"); os.makedirs(d, exist_ok=True)
    if s["models"] == "disk":
        old = getattr(p, "pickle_dir", None)
        if old and os.path.isdir(old):
            import shutil
            for x in small:
                q = p._get_pickle_file(x.lagrange_key) if hasattr(p, "_get_pickle_file") else None
                if q and os.path.isfile(q): shutil.copy(q, d)
    p.pickle_dir = d
    if s["models"] in ("disk", "derive"):
        for x in small: x._derivatives = None

class Job:
    """One user's objects: network, power flow, time series processor."""
    def __init__(self, case, path, out, settings=None):
        self.c, self.path, self.out, self.given = case, path, out, settings
        self.net = self.pf = self.ts = None

    def go(self):
        c = self.c
        if self.net is None:
            from logic.network.networkloader import NetworkLoader
            self.st = self.given or netspec.settings(c["settings"])
            if c.get("netspec"): net, self.H = netspec.build(c["netspec"])
            else: net = NetworkLoader(self.st).from_file(self.path)
            netspec.attach_infeasibility(net, c.get("inf"))
            self.net = net
        if self.pf is None:
            from logic.powerflow import PowerFlow
            self.pf = PowerFlow(self.net, self.st)
        if c.get("series"):
            from logic.network.timeseriesprocessor import TimeSeriesProcessor
            from logic.network.timeseriessettings import TimeSeriesSettings
            z = c["series"]
            if self.ts is None:
                self.ts = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=self.path + ".csv", loadfile_start=z["start"], loadfile_end=z["end"]), self.pf)
            r = self.ts.execute()
        else:
            r = self.pf.execute()
        if self.out: r.output(self.out)
        return r

    def describe(self, r):
        d = {"digest": cases.digest(self.net)}
        if self.c.get("series"):
            # earlier hours refer to the loads of the network as they are now
            d["hours"] = [[int(h), {k: v for k, v in cases.results(x).items() if k != "load"}] for h, x in r.powerflow_snapshot_results.items()]
        else: d["solve"] = cases.results(r)
        if self.out:
            from ..zygote import filedata
            d["files"] = filedata(self.out)
        return d

def prepare(case, name):
    """Write the case's files in the working directory -> (path, prefix of result files)"""
    d = os.path.join(os.getcwd(), name); os.makedirs(d, exist_ok=True)
    if case.get("netspec"): p = os.path.join(d, "none")
    else:
        p = os.path.join(d, "case" + (".RAW" if case["fmt"] == "raw" else ".glm"))
        with open(p, "w") as f: f.write(cases.text(case["spec"]) if "spec" in case else corpus.text(case["file"]))
    if case.get("series"):
        z = case["series"]
        with open(p + ".csv", "w") as f: f.write("\n".join([",".join(z["cols"])] + [",".join(map(str, r)) for r in z["rows"]]) + "\n")
    return p, os.path.join(d, "res", "r") if case.get("out") else None

def once(job, T, plan=(), strike=None):
    """-> (description | None, exception | None)"""
    with Lin(T, plan, budget=6000):
        try:
            if strike is not None:
                with strike: r = job.go()
            else: r = job.go()
            return job.describe(r), None
        except BudgetExceeded: return {"budget": True}, None
        except (Exception, KeyboardInterrupt) as e: return None, e

def undisturbed(req):
    """In a fresh process: what comes out, and how often each place is executed."""
    sys.stdout = open(os.devnull, "w")
    os.makedirs(req["dir"], exist_ok=True); os.chdir(req["dir"]); tempfile.tempdir = req["dir"]
    s = req["s"]
    forget(s)
    case = s["case"] if req["which"] == "case" else s["other"]
    p, out = prepare(case, req["which"])
    k = Strike(profile=True, instructions=s["instructions"]) if req["profile"] else None
    d, e = once(Job(case, p, out), Trace(), plan=s.get("base", ()) if req["which"] == "case" and not req.get("calm") else (), strike=k)
    return {"d": d, "e": type(e).__name__ if e else None, "counts": k.counts if k else None}

def fragile(a):
    d = a["d"]
    if d is None or "budget" in d: return True
    rs = [d["solve"]] if "solve" in d else [r for h, r in d["hours"]]
    return any(not r["ok"] or r["iters"] > 15 for r in rs)

def differs(d, e, ref):
    if ref["d"] is None:
        return None if e is not None and type(e).__name__ == ref["e"] else f"{'raises ' + repr(e)[:200] if e else 'ends normally'} instead of raising {ref['e']}"
    if e is not None: return f"raises {e!r}"[:300]
    if "budget" in d: return "does not end"
    b = ref["d"]
    x = cases.close(d["digest"], b["digest"])
    if x: return "loaded network: " + x
    if fragile(ref): return None
    x = cases.close({k: d[k] for k in ("solve", "hours") if k in d}, {k: b[k] for k in ("solve", "hours") if k in b})
    if x: return "results: " + x
    if "files" in b:
        if set(d["files"]) < set(b["files"]): return f"result files {sorted(d['files'])} instead of {sorted(b['files'])}"
        for n in b["files"]:
            x = cases.close(d["files"][n], b["files"][n], rtol=1e-5, atol=.011)
            if x: return f"{n}: {x}"
    return None

# ------------------------------------------------------------------ scenarios

def gen_case(rng, small=False):
    u = rng.random()
    st = {"max_iters": rng.choice([50, 20])}
    if u < .25:
        n = rng.choice(corpus.listing(6000 if small else 15000) or [None])
        if n:
            st["device_control"] = False
            return {"file": n, "fmt": "raw" if n.endswith("RAW") else "glm", "settings": st}
    c = {"settings": st}
    if u < .5:
        tx = rng.random() < .5
        c["netspec"] = netspec.gen_tx(rng, nmax=4) if tx else netspec.gen_dx(rng, nmax=3, fuses=False)
        c["fmt"] = "none"
    else:
        c["spec"] = cases.gen_raw(rng, n=rng.randint(2, 5)) if rng.random() < .35 else cases.gen_glm(rng, n=rng.randint(1, 3), devices=False)
        c["fmt"] = c["spec"]["fmt"]
        if c["fmt"] == "glm" and not small and rng.random() < .75:
            names = [f"cl_n{l['n']}{ph}" for l in c["spec"]["loads"] for ph, p, q in l["pq"]]
            rows = rng.randint(1, 4)
            cols = rng.sample(names, rng.randint(1, len(names)))
            a = rng.randrange(rows)
            c["series"] = {"cols": cols, "rows": [[round(rng.choice([0, 1, 1, 1]) * rng.uniform(1e3, 8e4), 2) for _ in cols] for _ in range(rows)], "start": a, "end": rows}
    if rng.random() < .25: c["inf"] = rng.choice(["L1", "L2"])
    if rng.random() < .25 and not c.get("series"):
        st["tx_stepping"] = True
        if rng.random() < .5: st["max_iters"] = rng.choice([1, 2, 3])
    if rng.random() < .2: st["debug"] = True
    return c

def gen(rng, i, tier):
    c = gen_case(rng)
    c["out"] = rng.random() < .3
    s = {"case": c, "other": gen_case(rng, True), "models": rng.choice(["memory", "memory", "disk", "derive"]), "instructions": rng.random() < .25}
    if c["settings"].get("tx_stepping") or c.get("series") or c.get("inf"): s["instructions"] = False
    s["strikes"] = []
    if rng.random() < .08:      # the direct attempt fails, the continuation then succeeds
        it = rng.randint(4, 8)
        c = s["case"] = {"fmt": "none", "out": False, "settings": {"tx_stepping": True, "max_iters": it}, "netspec": netspec.gen_tx(rng, nmax=3) if rng.random() < .6 else netspec.gen_dx(rng, nmax=2, fuses=False)}
        s["base"] = [{"kind": "abs", "mag": 30.0, "seed": rng.randrange(1 << 30), "from": 0, "to": it}]
        s["instructions"] = False
    for _ in range(rng.choice([1, 1, 2, 3])):
        guard = not s["instructions"] and rng.random() < .4
        k = {"kind": "interrupt" if guard and rng.random() < .6 else rng.choice(["interrupt", "interrupt", "memory", "disk"]), "u": [rng.random(), rng.random()], "spread": "guarded" if guard else rng.choice(["file", "file", "place", "run"]), "again": rng.choice(["same", "same", "same", "reload"])}
        if rng.random() < .12: k["plan"] = [{"kind": rng.choice(["raise_intr", "raise_mem", "raise", "raise_os"]), "at": rng.choice([0, 0, 1, 2, 3, 5, 8])}]
        s["strikes"].append(k)
    return s

def run(s, T):
    import sim.props.c13 as me
    fr = fresh.Fresh(undisturbed)
    ask = lambda which, prof, calm=False: fr.ask({"s": s, "which": which, "profile": prof, "calm": calm, "dir": os.path.join(me.RUNDIR, f"f-{which}-{int(calm)}")})
    base = s.get("base", [])
    ref = ask("case", True)
    ref2 = ask("other", False)
    ref3 = ask("case", False, True) if base else None
    T.ev("undisturbed", ref["e"], len(ref["counts"]), sum(ref["counts"].values()), json.dumps(ref["d"], sort_keys=True)[:4000])
    T.sim_time += sum(ref["counts"].values())
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(root); os.chdir(root)
    forget(s)
    p, out = prepare(s["case"], "case")
    job = Job(s["case"], p, out)
    T.nontrivial = False
    last = None
    for n, k in enumerate(s["strikes"]):
        strike = None
        if not k.get("plan"):
            at = choose(ref["counts"], k["u"], k["spread"])
            if at is None: continue
            strike = Strike(at=at, kind=k["kind"], instructions=s["instructions"])
        d, e = once(job, T, plan=k.get("plan", []) + base, strike=strike)
        hit = bool(k.get("plan")) and T.faults.get("lin." + k["plan"][0]["kind"]) or strike is not None and strike.fired
        T.ev("strike", n, at if strike else k["plan"], k["kind"], bool(hit), type(e).__name__ if e else None)
        if hit:
            T.nontrivial = True
            if strike:
                T.fault(k["kind"]); last = f"{k['kind']} at {at[0]} (execution {at[1]})"
                T.probe("struck-" + at[0].split("/")[-1].split(":")[0])
            else: last = k["plan"][0]["kind"]
            if strike and k["kind"] == "interrupt" and e is None:
                T.probe("interrupt-absorbed")
                x = differs(d, e, ref)
                if x: return [{"sig": "swallowed", "msg": f"a keyboard interrupt at {at[0]} (execution {at[1]}) does not come out, and the operation {x}"}]
            elif e is None and differs(d, e, ref):
                # a reader that replaces what it fails to read by a default has answered, with another network
                T.probe("failure-replaced-by-default"); job = Job(s["case"], p, out)
        if k["again"] == "reload": job = Job(s["case"], p, out)
    d, e = once(job, T, plan=base)
    T.ev("redo", type(e).__name__ if e else None, json.dumps(d, sort_keys=True)[:4000] if d else None)
    x = differs(d, e, ref)
    if x: return [{"sig": "redo", "msg": f"after {last}, repeating the operation on the same objects: {x}"}]
    if base:
        T.probe("continuation-" + ("ends" if ref["d"] and ref["d"].get("solve", {}).get("ok") else "fails"))
        d, e = once(job, T)
        x = differs(d, e, ref3)
        if x: return [{"sig": "redo", "msg": f"after {last}, repeating the operation on the same objects, now with a linear solver that works: {x}"}]
    p, out = prepare(s["other"], "other")
    d, e = once(Job(s["other"], p, out), T)
    x = differs(d, e, ref2)
    if x: return [{"sig": "other-case", "msg": f"after {last}, solving another case in the process: {x}"}]
    return []

def shrink(s):
    for k in range(len(s["strikes"])):
        if len(s["strikes"]) > 1: c = copy.deepcopy(s); del c["strikes"][k]; yield c
    for k, z in enumerate(s["strikes"]):
        if z["again"] == "reload": c = copy.deepcopy(s); c["strikes"][k]["again"] = "same"; yield c
        if z["u"][1] >= .25: c = copy.deepcopy(s); c["strikes"][k]["u"][1] = 0.0; yield c
    if s["models"] != "memory": c = copy.deepcopy(s); c["models"] = "memory"; yield c
    if s["case"].get("out"): c = copy.deepcopy(s); c["case"]["out"] = False; yield c
    if s.get("base"): c = copy.deepcopy(s); del c["base"]; yield c
    for x in list(s["case"]["settings"]): c = copy.deepcopy(s); del c["case"]["settings"][x]; yield c
