"""C07: a result file that exists under its name is complete."""
import copy, math, os
from .. import netspec, scen
from ..fresh import Fresh, describe, match_result_files
from ..procs import World, Unbounded, gen_fault, MUTATES
from ..trace import Trace

COUNTS = {"quick": 900, "thorough": 30000}
TIME_UNIT = "file-system calls"
RULE = ("one to four executions, one or two of them at a time under different prefixes, solve a network (or a time series of 2-5 hours, or fail to) and write their results into one directory; "
        "every file-system call is a scheduling point where errors, short writes, full disks and kills strike; the files under their final names are examined after every call, "
        "and an undisturbed execution of everything follows; non-trivial when a fault fired")
REAL = ["PowerFlowResults.output, QuasiTimeSeriesResults.output, TimeSeriesProcessor with outputfile", "the solves behind them", "the files themselves"]
STUB = ["the order and outcome of file-system calls below the output directory", "buffer sizes (smaller, so that a small file takes several writes)"]
ASSUMPTIONS = ["a kill keeps every write that completed (process death, not power loss)", "no two executions at a time write under the same prefix"]

def gen_variant(rng, spec, prefix, series):
    v = {"prefix": prefix, "scale": rng.choice([1.0, .5, round(rng.uniform(.2, 1.2), 3), 1e5 if rng.random() < .5 else 1.0]),
         "mode": "single"}
    if series:
        v["mode"] = rng.choice(["series", "series", "collected"])
        n = rng.randint(2, 5)
        v["hours"] = [rng.choice([1.0, .3, .8, 0.0, 1e5]) if rng.random() < .5 else round(rng.uniform(.2, 1.2), 2) for _ in range(n)]
        v["scale"] = 1.0
    elif rng.random() < .25:
        v["again"] = round(rng.uniform(.3, .9), 2)        # the same process writes a second result to the same files
    if rng.random() < .15: v["overload"] = True
    return v

def gen(rng, i, tier):
    spec = netspec.gen_dx(rng, nmax=3, fuses=rng.random() < .5) if rng.random() < .75 else netspec.gen_tx(rng, nmax=4)
    series = spec["kind"] == "dx" and rng.random() < .5
    d = rng.choice(["", "a/", "a/b c/"])
    prefixes = [d + "res"] if rng.random() < .6 else [d + "res", d + "res2"]
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        phases.append({"procs": [gen_variant(rng, spec, p, series) for p in prefixes],
                       "faults": [gen_fault(rng, len(prefixes), horizon=40) for _ in range(rng.choice([0, 1, 1, 2]))]})
    if not any(p["faults"] for p in phases): phases[-1]["faults"] = [gen_fault(rng, len(prefixes), horizon=40)]
    return {"spec": spec, "settings": {"tolerance": 1e-4, "max_iters": 15, "device_control": False}, "phases": phases, "seed": rng.randrange(1 << 30), "stick": rng.choice([0, .3, .7, .95]),
            "bufsize": rng.choice([None, 16, 64, 200, 1000])}

def load_name(l): return f"cl_{l['num']}{l['phase']}" if l["phase"].isalpha() else f"rl_{l['num']}_{l['phase'][0]}"

def body(s, v, root, outs=None):
    """Solve and write; -> descriptions per prefix written, in order."""
    from logic.powerflow import PowerFlow
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    outs = outs if outs is not None else []
    spec = copy.deepcopy(s["spec"])
    for l in spec["loads"]: l["P"] *= v["scale"]; l["Q"] *= v["scale"]
    if v.get("overload"):
        for l in spec["loads"]: l["IP"] = 0 if l["IP"] == 0 else l["IP"] * 3
    net, H = netspec.build(spec)
    pf = PowerFlow(net, netspec.settings(s["settings"]))
    prefix = os.path.join(root, v["prefix"])
    d = lambda r: describe(done(r), H)
    if v["mode"] == "single":
        r = pf.execute(); outs.append([v["prefix"], d(r)]); r.output(prefix)
        if v.get("again"):
            for l in net.loads: l.P *= v["again"]; l.Q *= v["again"]
            r = pf.execute(); outs.append([v["prefix"], d(r)]); r.output(prefix)
        return outs
    import tempfile
    csv = os.path.join(os.path.dirname(root), f"loads-{os.getpid()}-{abs(hash(v['prefix'])) % 1000}.csv")
    cols = {}
    for l in spec["loads"]: cols.setdefault(load_name(l), abs(complex(l["P"], l["Q"])) or 500.0)
    with open(csv, "w") as f:
        f.write(",".join(cols) + "\n")
        for h in v["hours"]: f.write(",".join(str(round(x * h, 3)) for x in cols.values()) + "\n")
    proc = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=csv, loadfile_start=0, loadfile_end=len(v["hours"]),
                                                  outputfile=prefix if v["mode"] == "series" else None), pf)
    if v["mode"] == "series":
        import logic.powerflowresults as m
        orig = m.PowerFlowResults.output
        def output(self, path):
            outs.append([os.path.relpath(path, root), d(self)])
            return orig(self, path)
        m.PowerFlowResults.output = output
        proc.execute()
    else:
        r = proc.execute()
        for h, x in r.powerflow_snapshot_results.items(): outs.append([f"{v['prefix']}_{h}", d(x)])
        r.output(prefix)
    return outs

def done(r):
    o = scen.Outcome(); o.res = r
    return o

def reference(req):
    """Solve and write without any fault, in a fresh process and a directory of its own."""
    root = req["root"]; os.makedirs(root)
    outs = []
    try: body(req["s"], req["v"], root, outs)
    except Exception as e: return {"exc": repr(e), "outs": outs}
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs: files[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f)).read()
    bad = None
    for p, dd in {p: dd for p, dd in outs}.items():
        bad = bad or match_result_files(os.path.join(root, p), dd)
    return {"files": files, "outs": [o[0] for o in outs], "bad": bad}

def contents(s, v, F, n, root):
    """What the files of this execution contain when it is left alone: {file: [content of each write, in order]}"""
    out = []
    vs = [v] if not v.get("again") else [{**v, "again": None}, v]
    for x in vs:
        r = F.ask({"s": {"spec": s["spec"], "settings": s["settings"]}, "v": x, "root": os.path.join(root, f"ref{n}{len(out)}")})
        out.append(r)
    return out

def run(s, T):
    import sim.props.c07 as me
    F = Fresh(reference)
    root = os.path.join(me.RUNDIR, "out"); os.makedirs(root)
    T.nontrivial = False
    now = {}                # file -> content an earlier execution left
    n = 0
    phases = s["phases"] + [{"procs": s["phases"][-1]["procs"], "faults": [], "final": True}]
    cache = {}
    for k, ph in enumerate(phases):
        new = []            # per process: {file: [contents it may write]}
        last = []
        for v in ph["procs"]:
            key = str(v)
            if key not in cache:
                cache[key] = contents(s, v, F, n, me.RUNDIR); n += 1
            rs = cache[key]
            if any("exc" in r for r in rs): T.probe("reference-raises"); return []
            for r in rs:
                if r["bad"]: return [{"sig": "incomplete", "msg": f"without any fault: {r['bad']}"}]
                if v["mode"] == "single" and len(r["files"]) != 2 or v["mode"] != "single" and len(r["files"]) != 2 * len(v["hours"]):
                    return [{"sig": "incomplete", "msg": f"without any fault: files {sorted(r['files'])}"}]
            new.append({f: [r["files"].get(f) for r in rs] for r in rs for f in r["files"]})
            last.append(rs[-1]["files"])
        seen = {}           # complete files of this phase must stay
        def check(w, p, op, new=new, seen=seen, k=k):
            if op["op"] not in MUTATES and op["op"] not in ("close", "open-w"): return None
            for files in new:
                for f, cs in files.items():
                    path = os.path.join(root, f)
                    try: c = open(path).read()
                    except FileNotFoundError: c = None
                    if c is None:
                        if f in seen: return {"sig": "lost", "msg": f"{f} of this execution has disappeared after {op['op']} {op['path']} (step {w.n})"}
                        continue
                    if c in cs: seen[f] = c
                    elif c != now.get(f):
                        return {"sig": "torn", "msg": f"after {op['op']} {op['path']} (step {w.n}) {f} holds {len(c)} characters, {c[-60:]!r}, which is neither the earlier nor the new result"}
                    elif f in seen:
                        return {"sig": "reverted", "msg": f"{f} holds an earlier result again"}
            return None
        w = World(T, root, s["seed"] + k, ph["faults"], s["stick"], [], s["bufsize"], on_step=check)
        try:
            for v in ph["procs"]:
                def fn(seam, v=v):
                    outs = []
                    try: body(s, v, root, outs)
                    except OSError as e: return {"raised": repr(e), "outs": [o[0] for o in outs]}
                    return {"outs": [o[0] for o in outs]}
                w.spawn(fn)
            w.run()
        except Unbounded as e:
            w.kill_all(); return [{"sig": "unbounded", "msg": str(e)}]
        if w.violations: w.kill_all(); return w.violations
        T.sim_time += w.n
        for p, v, files, want in zip(w.procs, ph["procs"], new, last):
            if p.faulted: T.nontrivial = True
            if p.state == "dead":
                if not p.crashed: return [{"sig": "process-died", "msg": f"the process ended abnormally ({p.wait})"}]
                T.probe("killed"); continue
            if "died" in p.result:
                return [{"sig": "failed", "msg": f"writing results failed otherwise than by an OSError: {p.result['died'][-600:]}"}]
            d = p.result["done"]
            if "raised" in d:
                T.probe("raised")
                if not p.faulted: return [{"sig": "failed", "msg": f"writing results raised without a fault: {d['raised']}"}]
                whole = d["outs"][:-1]          # everything before the write that raised
            else:
                whole = d["outs"]; T.probe("wrote")
            for pre in whole if v["mode"] != "single" else (whole if "raised" not in d else []):
                for kind in ("voltage", "power"):
                    f = f"{pre}_{kind}.csv"
                    path = os.path.join(root, f)
                    if not os.path.exists(path) or open(path).read() != want.get(f):
                        if v["mode"] == "collected" and "raised" in d: continue
                        return [{"sig": "incomplete" if not ph.get("final") else "not-recovered",
                                 "msg": f"{'the undisturbed execution' if ph.get('final') else 'an execution'} reported no error for {f}, but it is {'missing' if not os.path.exists(path) else 'not the complete result'}"}]
            if "raised" not in d and (set(want) - {f for f in want if os.path.exists(os.path.join(root, f))}):
                return [{"sig": "incomplete", "msg": "an execution reported no error but left files out"}]
        for f in {f for files in new for f in files} | set(now):
            path = os.path.join(root, f)
            if os.path.exists(path): now[f] = open(path).read()
    return []

def shrink(s):
    for i in range(len(s["phases"])):
        if len(s["phases"]) > 1:
            c = copy.deepcopy(s); del c["phases"][i]; yield c
    for i, p in enumerate(s["phases"]):
        for j in range(len(p["faults"])):
            c = copy.deepcopy(s); del c["phases"][i]["faults"][j]; yield c
    if len(s["phases"][0]["procs"]) > 1:
        c = copy.deepcopy(s)
        for p in c["phases"]:
            p["procs"] = p["procs"][:1]
            for f in p["faults"]: f.pop("proc", None)
        yield c
    for i, p in enumerate(s["phases"]):
        for j, v in enumerate(p["procs"]):
            if v.get("again"): c = copy.deepcopy(s); del c["phases"][i]["procs"][j]["again"]; yield c
            if len(v.get("hours", [])) > 2: c = copy.deepcopy(s); c["phases"][i]["procs"][j]["hours"].pop(); yield c
    if s["stick"] != .95: c = copy.deepcopy(s); c["stick"] = .95; yield c
