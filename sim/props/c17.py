"""C17: work that is finished leaves nothing behind."""
import contextlib, copy, functools, gc, io, os, sys, tempfile

from .. import cases, env, netspec, scen
from ..lin import Lin
from ..procs import World, Unbounded, gen_fault
from ..trace import Trace
from . import c08

COUNTS = {"quick": 200, "thorough": 12000}
TIME_UNIT = "file-system and network calls and linear solves"
RULE = ("a program of one to four pieces of work (loading files and URLs, good, damaged or failing; solving once, repeatedly, with infeasibility analysis, homotopy or as a time series; displaying, writing) is carried "
        "out six times over in one simulated process, each time under the same linear-solver, network and disk faults, and everything is dropped; between the last repetitions the process may not hold more objects of "
        "the repository's classes, entries in its process-wide stores or open files, and the temporary and working directories no more files; non-trivial when the program contains a failure, a download or more than one piece of work")
REAL = ["readers, downloads, derivation, solver, time series, result files", "the files themselves"]
STUB = ["TCP and TLS (a simulated server)", "the order and outcome of file-system calls below the process's directories", "os.urandom, tempfile names, pids and the clock (seeded)"]
ASSUMPTIONS = ["the program drops its own references and the garbage collector has run", "files that a disk error or a kill leaves half made are not counted"]
CYCLES = 6

# ------------------------------------------------------------------ the inventory of a process

def modules():
    src = os.path.join(os.path.realpath(env.REPO), "src") + os.sep
    return {n: m for n, m in sorted(sys.modules.items()) if m is not None and os.path.realpath(getattr(m, "__file__", None) or "").startswith(src)}

def size(x, seen, depth=3):
    """Entries of a container, of the containers in it, and of those in objects of the repository's classes."""
    if id(x) in seen: return 0
    if isinstance(x, (functools._lru_cache_wrapper,)): return x.cache_info().currsize
    if isinstance(x, dict):
        seen.add(id(x))
        return len(x) + (sum(size(v, seen, depth - 1) for v in list(x.values())) if depth else 0)
    if isinstance(x, (list, set, frozenset, tuple)) or type(x).__name__ == "deque":
        seen.add(id(x))
        return len(x) + (sum(size(v, seen, depth - 1) for v in list(x)) if depth else 0)
    return 0

def inventory():
    for _ in range(2): gc.collect()
    mods = modules()
    n = {}
    for o in gc.get_objects():
        t = type(o)
        if getattr(t, "__module__", None) in mods: n[f"{t.__module__}.{t.__qualname__}"] = n.get(f"{t.__module__}.{t.__qualname__}", 0) + 1
    stores = {}
    for name, m in mods.items():
        for a, x in sorted(vars(m).items()):
            if a.startswith("__"): continue
            if isinstance(x, type):
                if x.__module__ != name: continue
                for b, y in sorted(vars(x).items()):
                    if not b.startswith("__"): stores[f"{name}.{a}.{b}"] = size(y, set())
            elif type(x).__module__ in mods: stores[f"{name}.{a}"] = size(vars(x) if hasattr(x, "__dict__") else {}, set())
            else: stores[f"{name}.{a}"] = size(x, set())
    return {"objects": n, "stores": {k: v for k, v in stores.items() if v}, "files": len(os.listdir("/proc/self/fd")), "threads": sum(1 for _ in os.listdir("/proc/self/task"))}

# ------------------------------------------------------------------ the program

def work(op, k, T):
    """One piece of work; what it raises is its own business."""
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    st = netspec.settings(op["settings"])
    with Lin(T, op["plan"], budget=3000):
        for _ in range(op["times"]):
            if op["kind"] == "built": net, H = netspec.build(op["spec"])
            else: net = NetworkLoader(st).from_file(op["url"] if op["kind"] == "url" else f"case{k}{op['suffix']}")
            netspec.attach_infeasibility(net, op.get("inf"))
            pf = PowerFlow(net, st)
            if op.get("series"):
                from logic.network.timeseriesprocessor import TimeSeriesProcessor
                from logic.network.timeseriessettings import TimeSeriesSettings
                r = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=f"loads{k}.csv", loadfile_start=0, loadfile_end=op["series"], outputfile=f"out{k}" if op["out"] else None), pf).execute()
            else:
                for _ in range(op["solves"]): r = pf.execute()
            if op["show"]: r.display(verbose=True); net.display()
            if op["out"]: r.output(f"out{k}")

def child(root, s):
    def fn(seam):
        os.chdir(root)
        tempfile.tempdir = os.path.join(root, "tmp"); os.environ["TMPDIR"] = tempfile.tempdir
        c08.install_net(seam)
        T = Trace()
        done = []
        gc.collect(); gc.freeze()               # what was there before
        for c in range(CYCLES):
            seam.call("load-begin", "app", c, "")
            said = []
            for k, op in enumerate(s["ops"]):
                try:
                    with contextlib.redirect_stdout(io.StringIO()): work(op, k, T)
                    said.append("done")
                except (Exception, KeyboardInterrupt) as e: said.append(type(e).__name__)
            e = None
            seam.off = True
            inv = inventory()
            seam.off = False
            done.append({"inv": inv, "said": said})
            seam.call("cycle", "app", c)
        return {"cycles": done, "hash": T.h.hexdigest(), "faults": T.faults, "solves": T.counts.get("solve", 0)}
    return fn

def gen(rng, i, tier):
    ops, text, responses, connect = [], {"glm": [], "raw": []}, {}, {}
    specs = {"glm": cases.gen_glm(rng, n=rng.randint(1, 3)), "raw": cases.gen_raw(rng, n=rng.randint(2, 4))}
    req = 0
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        kind = rng.choice(["file", "file", "url", "url", "built"])
        op = {"kind": kind, "settings": {"max_iters": rng.choice([50, 20, 3])}, "plan": [], "times": rng.choice([1, 1, 2]), "solves": rng.choice([0, 1, 1, 2]), "show": rng.random() < .3, "out": rng.random() < .3,
              "inf": rng.choice([None, None, None, "L1", "L2"])}
        if kind == "built":
            op["spec"] = netspec.gen_net(rng, stress_p=.1, auto=rng.random() < .4)
            if rng.random() < .2 and not op["inf"]: op["settings"].update(tx_stepping=True, max_iters=4)
        else:
            f = rng.choice(["glm", "glm", "raw"])
            if kind == "file":
                op["spec"] = cases.gen_glm(rng, n=rng.randint(1, 3)) if f == "glm" else cases.gen_raw(rng, n=rng.randint(2, 5))
                op["suffix"] = cases.suffix(op["spec"])
                op["damage"] = rng.choice([None] * 6 + ["cut", "cut", "missing", "foreign"]); op["frac"] = round(rng.random(), 3)
                if f == "glm" and rng.random() < .4: op["series"] = rng.randint(1, 4); op["columns"] = [f"cl_n{l['n']}{ph}" for l in op["spec"]["loads"] for ph, p, q in l["pq"]]
            else:
                op["url"] = rng.choice(["http", "https"]) + "://h/" + rng.choice(["case.glm", "net.glm", "case.RAW"]) + rng.choice(["", "", "?v=1"])
                for _ in range(op["times"]):
                    if rng.random() < .35:
                        u = rng.choice(["status", "cut", "connect"])
                        if u == "status": responses[f"0:{req}"] = {"status": rng.choice([404, 500, 503, 204]), "full": rng.random() < .7}
                        elif u == "cut": responses[f"0:{req}"] = {"status": 200, "cut": round(rng.random(), 3), "reset": rng.random() < .4}
                        else: connect[f"0:{req}"] = rng.choice(["ECONNREFUSED", "ETIMEDOUT", "dns"])
                    req += 1
        if rng.random() < .3: op["plan"] = scen.gen_plan(rng, horizon=4)
        ops.append(op)
    faults = [gen_fault(rng, 1, horizon=15) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    for f in faults:
        f.pop("proc", None)
        if f["do"] in ("crash", "crash_after", "tear"): f["do"] = "errno"; f["e"] = 5
        f["op"] = f.get("op") or ["open-w", "open-r", "write", "read", "close", "mkdir", "stat", "replace", "remove", "rmdir", "listdir", "scandir"]
    return {"ops": ops, "specs": specs, "responses": responses, "connect": connect, "versions": [0], "faults": faults, "seed": rng.randrange(1 << 30), "bufsize": rng.choice([None, None, 512])}

def present(root):
    """Files below the process's directories, without the derivative cache."""
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, ds, fs in os.walk(root) for f in fs + [x + "/" for x in ds] if "pickler" not in os.path.relpath(os.path.join(d, f), root))

def run(s, T):
    import sim.props.c17 as me
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(os.path.join(root, "tmp"))
    s = dict(s, text={k: [cases.text(v)] for k, v in s["specs"].items()})
    for k, op in enumerate(s["ops"]):
        if op["kind"] != "file": continue
        text = cases.text(op["spec"])
        if op["damage"] == "cut": text = text[:int(op["frac"] * len(text))]
        elif op["damage"] == "foreign": text = "<html>\n<body>Not found</body>\n</html>\n"
        if op["damage"] != "missing":
            with open(os.path.join(root, f"case{k}{op['suffix']}"), "w") as f: f.write(text)
        if op.get("series"):
            with open(os.path.join(root, f"loads{k}.csv"), "w") as f:
                f.write("\n".join([",".join(op["columns"] + ["hour"])] + [",".join([str(1000.0 * (h + 1))] * (len(op["columns"]) + 1)) for h in range(op["series"])]) + "\n")
    srv = c08.Server(s, T)
    w = World(T, root, s["seed"], s["faults"], 1, bufsize=s["bufsize"])
    there = []
    p = None
    def begin(w, p, op):
        srv.begin(w, p, op); srv.nreq.clear(); srv.count = 0
        for f in w.faults: f["seen"] = 0
    def cycle(w, p, op): there.append((present(root), p.faulted, w.n))
    w.serve = {"connect": srv.connect, "send": srv.send, "recv": srv.recv, "tls": srv.tls, "load-begin": begin, "cycle": cycle}
    w.faults = [dict(f, path=f.get("path")) for f in w.faults]
    try:
        p = w.spawn(child(root, s), name="user")
        w.run()
    except Unbounded as e:
        w.kill_all()
        return [{"sig": "unbounded", "msg": str(e)}]
    T.sim_time += w.n
    if p.state == "dead": return [] if p.crashed else [{"sig": "process-died", "msg": f"the process ended abnormally ({p.wait})"}]
    if "died" in p.result: raise RuntimeError(p.result["died"])
    d = p.result["done"]
    T.sim_time += d["solves"]
    for k, n in d["faults"].items(): T.faults[k] = T.faults.get(k, 0) + n
    T.ev("program", d["hash"], [c["said"] for c in d["cycles"]])
    T.nontrivial = bool(T.faults or len(s["ops"]) > 1 or any(o["kind"] == "url" or o.get("damage") for o in s["ops"]))
    for o, x in zip(s["ops"], d["cycles"][-1]["said"]): T.probe(f"{o['kind']}-{'done' if x == 'done' else 'raised'}")
    a, b, c = (d["cycles"][k] for k in (-4, -2, -1))
    if a["said"] != c["said"]: T.probe("uneven"); return []
    what = ", ".join(f"{o['kind']} ({x})" for o, x in zip(s["ops"], c["said"]))
    for kind, name in (("objects", "objects of class"), ("stores", "entries in")):
        for k, n in c["inv"][kind].items():
            n0, n1 = a["inv"][kind].get(k, 0), b["inv"][kind].get(k, 0)
            if n0 < n1 < n: return [{"sig": "growing", "msg": f"each time the same work [{what}] is finished, more {name} {k} stay: {n0} after repetition {CYCLES - 3}, {n1} after {CYCLES - 1}, {n} after {CYCLES}"}]
    for kind, name in (("files", "open files"), ("threads", "threads")):
        if a["inv"][kind] < b["inv"][kind] < c["inv"][kind]: return [{"sig": "growing", "msg": f"each time the same work [{what}] is finished, more {name} stay: {a['inv'][kind]}, {b['inv'][kind]}, {c['inv'][kind]}"}]
    fa, fb, fc = (there[k] for k in (-4, -2, -1))
    if fa[1] == fc[1] and len(fa[0]) < len(fb[0]) < len(fc[0]):
        return [{"sig": "files", "msg": f"each time the same work [{what}] is finished, more files stay: {len(fa[0])}, {len(fb[0])}, {len(fc[0])}, last {[x for x in fc[0] if x not in fb[0]][:3]}"}]
    return []

def shrink(s):
    for k in range(len(s["faults"])): c = copy.deepcopy(s); del c["faults"][k]; yield c
    if len(s["ops"]) > 1:
        for k in range(len(s["ops"])): c = copy.deepcopy(s); del c["ops"][k]; yield c
    for key in ("responses", "connect"):
        for k in s[key]: c = copy.deepcopy(s); del c[key][k]; yield c
    for k, o in enumerate(s["ops"]):
        for key in ("plan", "series", "inf", "damage", "show", "out"):
            if o.get(key): c = copy.deepcopy(s); c["ops"][k][key] = [] if key == "plan" else None; yield c
        for key in ("times", "solves"):
            if o[key] > 1: c = copy.deepcopy(s); c["ops"][k][key] = 1; yield c
        if o["solves"]: c = copy.deepcopy(s); c["ops"][k]["solves"] = 0; yield c
        if o["kind"] == "built":
            for sp in netspec.drop_candidates(o["spec"]): c = copy.deepcopy(s); c["ops"][k]["spec"] = sp; yield c
        elif o["kind"] == "file" and not o.get("series"):
            for sp in cases.shrinks(o["spec"]): c = copy.deepcopy(s); c["ops"][k]["spec"] = sp; yield c
