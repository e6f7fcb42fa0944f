"""C16: looking at a result or turning on diagnostics changes nothing, and a result stays what it was."""
import contextlib, copy, io, os, re, tempfile

from .. import netspec, scen
from ..fresh import Fresh, describe, differ
from ..lin import Lin
from ..procs import World, Unbounded, gen_fault
from ..trace import Trace
from . import c03

COUNTS = {"quick": 320, "thorough": 20000}
TIME_UNIT = "file-system calls and linear solves"
RULE = ("a history of solves (with and without linear-solver faults), edits, infeasibility analysis and settings changes over one to three networks, interspersed with displaying, describing and writing any "
        "result so far and any network, and with switching debug output and the matrix dump on and off, while disk errors, short and torn transfers strike below the working directory; the same history without any "
        "of that in a fresh process says what every solve gives; every result is recorded when it is returned and again at the end; non-trivial when something was looked at between two solves, a result outlived another solve, or a dump was made")
REAL = ["PowerFlow.execute and everything below, PowerFlowResults, display, output, matrix dump", "the files themselves"]
STUB = ["the order and outcome of file-system calls below the working directory", "answers of the linear solver where a fault says so"]
ASSUMPTIONS = ["a dump that cannot be written may end the solve with the disk's error", "automatic devices only without disk errors, which would end a solve in the middle of their operations"]
SOLVES = 4000

LOOKS = ["display", "display", "verbose", "verbose", "output", "output", "str", "repr", "report", "network"]

def gen(rng, i, tier):
    s = c03.gen(rng, i, tier)
    s["faults"] = [gen_fault(rng, 1, horizon=rng.choice([10, 30, 80])) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    for f in s["faults"]:
        f.pop("proc", None)
        if f["do"] in ("crash", "crash_after", "tear"): f["do"] = "errno"; f["e"] = 5
        if rng.random() < .6: f["path"] = rng.choice(["dumps", "v_output", "lookup", "Y", "J", "out"])
        if rng.random() < .15: f.update({"op": ["remove", "unlink"], "do": "errno", "e": 13, "path": "dumps"})
    if s["faults"]:
        for n in s["nets"]:
            if "caps" in n["spec"]: n["spec"]["caps"] = [c for c in n["spec"].get("caps", []) if c["mode"] == "MANUAL"]
            for f in n["spec"].get("fuses", []): f["limit"] = 1e15
        s["ops"] = [o for o in s["ops"] if o["op"] != "cap"]
    for n in s["nets"]:
        if n["settings"].get("tx_stepping"): n["settings"]["max_iters"] = min(n["settings"]["max_iters"], 6)
    for o in s["ops"]:
        if o["op"] == "set" and o["settings"].get("tx_stepping"): o["settings"]["max_iters"] = min(o["settings"]["max_iters"], 6)
    ops = []
    for o in s["ops"]:
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if rng.random() < .45: ops.append({"op": "diag", "net": rng.randrange(len(s["nets"])), "debug": rng.random() < .5, "dump": rng.random() < .4})
            else: ops.append({"op": "look", "net": rng.randrange(len(s["nets"])), "r": rng.randrange(1000), "how": rng.choice(LOOKS)})
        ops.append(o)
    s["ops"] = ops + [{"op": "look", "net": 0, "r": rng.randrange(1000), "how": rng.choice(LOOKS)}]
    s["seed"] = rng.randrange(1 << 30); s["bufsize"] = rng.choice([None, None, 64, 512])
    return s

POSITION = re.compile(r" \(Vr:.*? Vi:.*?\)")     # where a bus is in the matrix at the moment

def line(x):
    """Its line of a result file, if it has a say in that."""
    return x.csv_string() if hasattr(x, "csv_string") else ""

def record(r):
    """Everything a result says."""
    v = [float(x) for x in r.v_final]
    out = {"ok": bool(r.is_success), "iterations": int(r.iterations), "tx": float(r.tx_percent), "solution": v, "max residual": repr(float(r.max_residual)),
           "buses": [[b.bus.Bus, repr(float(b.V_r)), repr(float(b.V_i)), repr(float(b.V_mag)), repr(float(b.V_deg)), str(b), line(b)] for b in r.bus_results],
           "generators": [[g.type_str, repr(float(g.P)), repr(float(g.Q)), str(g), line(g)] for g in r.generator_results],
           "loads": [[repr(float(l.P)), repr(float(l.Q)), line(l)] for l in r.load_results],
           "infeasibility": repr(r.infeasibility_totals)}
    t = io.StringIO()                      # last: what is displayed must not have changed any of the above
    with contextlib.redirect_stdout(t): r.display(verbose=True)
    return dict(out, display=POSITION.sub("", t.getvalue()))

def history(s, T, diag):
    """Play the history -> (a list of what each solve gave, problems)"""
    bad = []; said = []; kept = []; written = {}
    probes = {}
    def probe(k): probes[k] = probes.get(k, 0) + 1
    nets = [c03.Net(d) for d in s["nets"]]
    for n in nets: quiet(n)
    for k, op in enumerate(s["ops"]):
        n = nets[op["net"]]
        if op["op"] == "diag":
            if diag: n.so.debug = op["debug"]; n.so.dump_matrix = op["dump"]
        elif op["op"] == "look":
            if diag: look(op, n, kept, written, bad, k, probe)
        elif op["op"] != "solve":
            before = (n.so.debug, n.so.dump_matrix)
            n.apply(op)
            n.so.debug, n.so.dump_matrix = before if diag and op["op"] != "new" else (False, False)
        else:
            o = scen.execute(n.net, n.settings, T, op["plan"], pf=n.pf, extra_budget=SOLVES)
            d = describe(o, n.H)
            d["disk"] = isinstance(o.exc, OSError) and n.so.dump_matrix
            said.append([k, d])
            if n.so.dump_matrix: probe("dumped-" + d["kind"])
            if o.res is not None:
                rec = record(o.res)
                kept.append((k, o.res, rec))
                if n.so.dump_matrix and o.ok:
                    x = dumped(o.res)
                    if x: bad.append(["dump", f"solve {k}: {x}"])
    for k, r, rec in kept:
        now = record(r)
        for name in rec:
            if now[name] != rec[name]:
                bad.append(["changed", f"the result of solve {k} was returned with {name} {short(rec[name], now[name])} and later has {short(now[name], rec[name])}"])
                break
    if len(kept) > 1: probe("result-outlives-solve")
    return said, bad, probes

def quiet(n): n.so.debug = False; n.so.dump_matrix = False

def short(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return f"of {len(a)} entries"
        for x, y in zip(a, b):
            if x != y: return short(x, y)
    if isinstance(a, str) and isinstance(b, str):
        for x, y in zip(a.split("\n"), b.split("\n")):
            if x != y: return repr(x)[:120]
    return repr(a)[:120]

def look(op, n, kept, written, bad, k, probe):
    probe("look-" + op["how"])
    if op["how"] == "network":
        with contextlib.redirect_stdout(io.StringIO()): n.net.display()
        return
    if not kept: return
    k0, r, rec = kept[op["r"] % len(kept)]
    how = op["how"]
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "display": r.display()
        elif how == "verbose": r.display(verbose=True)
        elif how == "report": r.report_infeasible()
        elif how == "str": [str(x) for x in r.bus_results + r.generator_results + r.load_results]
        elif how == "repr": [repr(x) for x in r.bus_results + r.generator_results + r.load_results]
        else:
            p = f"out/{k0}_{k}"
            try: r.output(p)
            except OSError: probe("output-failed"); return
            probe("output")
            with contextlib.suppress(OSError):
                t = [open(f"{p}_{x}.csv").read() for x in ("voltage", "power")]
                if written.setdefault(k0, t) == t and rec["ok"]:
                    for name, x, in (("voltage", rec["buses"]), ("power", rec["generators"]), ("power", rec["loads"])):
                        lines = "".join(e[-1] for e in x)
                        if lines not in t[name == "power"]: bad.append(["changed", f"the {name} file of solve {k0} does not list what the result had when it was returned: {short(t[name == 'power'], lines)} instead of {short(lines, t[name == 'power'])}"])
                elif written[k0] != t: bad.append(["changed", f"the result of solve {k0} is written as {short(t, written[k0])}, was written as {short(written[k0], t)} earlier"])

def dumped(r):
    """The dumped solution against the one returned."""
    try: text = open("dumps/v_output.txt", newline="").read()
    except OSError: return None
    try: got = {int(x.split(":")[0]): float(x.split(":")[1]) for x in text.replace("\n", "\r").split("\r") if x.strip()}
    except (ValueError, IndexError): return f"the dumped solution is damaged: {text[:80]!r}..."
    n = sum(1 for x in text.replace("\n", "\r").split("\r") if x.strip())
    if n != len(got): return f"the dumped solution has {n} lines for {len(got)} entries"
    for i, x in enumerate(r.v_final):
        if abs(got.get(i, 0.0) - x) > 1e-4 * abs(x): return f"entry {i} of the solution is {x}, dumped as {got.get(i, 0.0)}"
    if any(i >= len(r.v_final) for i in got): return "the dumped solution is longer than the one returned"
    return None

def plain(req):
    said, bad, _ = history(req["s"], Trace(), False)
    return {"said": said}

def child(root, s):
    def fn(seam):
        os.chdir(root)
        tempfile.tempdir = os.path.join(root, "tmp"); os.environ["TMPDIR"] = tempfile.tempdir
        T = Trace()
        with contextlib.redirect_stdout(io.StringIO()): said, bad, probes = history(s, T, True)
        return {"said": said, "bad": bad, "probes": probes, "hash": T.h.hexdigest(), "faults": T.faults}
    return fn

def run(s, T):
    import sim.props.c16 as me
    F = Fresh(plain)
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(os.path.join(root, "tmp"))
    want = F.ask({"s": s})["said"]
    w = World(T, root, s["seed"], s["faults"], 1, bufsize=s["bufsize"])
    try:
        p = w.spawn(child(root, s), name="user")
        w.run()
    except Unbounded as e:
        w.kill_all()
        return [{"sig": "unbounded", "msg": str(e)}]
    T.sim_time += w.n
    if p.state == "dead": return [] if p.crashed else [{"sig": "process-died", "msg": f"the process ended abnormally ({p.wait})"}]
    if "died" in p.result: raise RuntimeError(p.result["died"])
    d = p.result["done"]
    T.ev("history", d["hash"], len(d["said"]))
    for k, n in d["faults"].items(): T.faults[k] = T.faults.get(k, 0) + n
    for k, n in d["probes"].items():
        for _ in range(n): T.probe(k)
    T.nontrivial = bool(len(d["said"]) > 1 and d["probes"])
    for (k, g), (k2, a) in zip(d["said"], want):
        T.sim_time += g["solves"]
        if g["disk"]:
            if p.faulted: T.probe("dump-failed"); continue
            return [{"sig": "outcome", "msg": f"solve {k} raises {g['exc']}, though the disk works"}]
        x = differ(g, a, rtol=1e-9)
        if x: return [{"sig": "outcome", "msg": f"solve {k}: {x} (without looking at anything and without diagnostics)"}]
    if d["bad"]: return [{"sig": d["bad"][0][0], "msg": d["bad"][0][1]}]
    return []

def shrink(s):
    for i in range(len(s["faults"])): c = copy.deepcopy(s); del c["faults"][i]; yield c
    for i, o in enumerate(s["ops"]):
        c = copy.deepcopy(s); del c["ops"][i]; yield c
    yield from c03.shrink(s)
    if s["bufsize"]: c = copy.deepcopy(s); c["bufsize"] = None; yield c
