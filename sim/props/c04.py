"""C04: the on-disk derivative cache never changes or fails a solve."""
import copy, os, shutil, tempfile, sys, json
from .. import env
from ..procs import World, Unbounded, gen_fault, ERR
from ..rng import stream

COUNTS = {"quick": 300, "thorough": 12000}
WARM = False
TIME_UNIT = "file-system calls"
RULE = ("one to four simulated processes, each importing the code anew, derive one to four models (built-in ones and look-alikes that share an equation or its text) and partly solve a power "
        "flow over one cache directory that starts missing, warm, torn, zero-filled, foreign or half written; every file-system call is a scheduling point where errors, short "
        "transfers, kills and deletions are injected; afterwards two healthy processes follow; non-trivial when a fault fired, an entry was damaged or processes overlapped")
REAL = ["LagrangePickler, LagrangeSegment, sympy and dill", "MatrixStamper and PowerFlow in the runs with a power flow", "the files themselves"]
STUB = ["the order and outcome of file-system calls below the temporary directory", "os.urandom, tempfile names, pids and the clock (seeded)"]
ASSUMPTIONS = ["damage is what crashes and full disks leave (missing, empty, cut, zero-filled or foreign bytes); silent changes that leave a valid pickle are not modelled",
               "kills keep every write that completed (no power loss)"]

BUILTIN = {"line": ("models.components.line", "line_lh"), "shunt": ("models.components.line", "shunt_lh"), "slack": ("models.components.slack", "lh"),
           "vs": ("models.components.voltagesource", "lh"), "ic": ("models.components.load", "lh_Ic"), "l2": ("models.optimization.L2infeasibility", "lh"),
           "l1": ("models.optimization.L1infeasibility", "lh"), "ct": ("models.components.center_tap_transformer", "center_tap_xfmr_lh")}
# text of the Lagrangian, constants, primals, duals
CUSTOM = {
    "a1": ("lx*(a*x + b*y)", "a b", "x y", "lx ly"),
    "a2": ("lx*(a*x + b*y)", "x b", "a y", "lx ly"),        # same text, other variables
    "a3": ("lx*(a*x + b*y)", "b a", "x y", "lx ly"),        # same text, constants in another order
    "a4": ("lx*(a*x + b*y)", "a b", "y x", "lx ly"),        # same text, variables in another order
    "a5": ("lx*(a*x + b*y)", "a b", "x y", "ly lx"),        # same text, duals in another order
    "a6": ("lx*(a*x + b*y)", "a b lx", "x y", ""),          # same text, no duals
    "b1": ("lx*(a*x**2 + b*y)", "a b", "x y", "lx ly"),
    "b2": ("lx*(a*x**2 - b*y)", "a b", "x y", "lx ly"),
    "b3": ("lx*(a*x**2 + b*y) + 1e-6*x*y", "a b", "x y", "lx ly"),
    "b4": ("lx*(a*x**2 + b*y) + 1e-7*x*y", "a b", "x y", "lx ly"),
    "c1": ("lx*(2*a*x*y + b) + ly*(a*y - b*x)", "a b", "x y", "lx ly"),
    "c2": ("lx*(2*a*x*y + b) + ly*(b*y - a*x)", "a b", "x y", "lx ly"),
}
MANY = 64                   # models m2, m3, ..., alike but for a coefficient, through one cache
LAST = 4002
FAMILY = [["a1", "a2", "a3", "a4", "a5", "a6"], ["b1", "b2", "b3", "b4"], ["c1", "c2"], ["line", "shunt"], ["slack", "vs"]]
PF = {"kind": "tx", "buses": [{"id": i + 1, "vm": 1.0, "va": 0.0} for i in range(4)],
      "slack": [{"bus": 1, "vset": 1.02, "ang": 0.1, "pinit": 1, "qinit": 0}], "gens": [], "xfmrs": [], "switches": [{"f": 3, "t": 4, "status": "CLOSED"}],
      "lines": [{"f": 1, "t": 2, "r": .01, "x": .08, "b": .03}, {"f": 2, "t": 3, "r": .02, "x": .11, "b": 0}],
      "loads": [{"f": 2, "t": None, "P": 0, "Q": 0, "Z": None, "IP": .2, "IQ": -.1}, {"f": 4, "t": None, "P": 0, "Q": 0, "Z": [4, 1], "IP": .1, "IQ": 0}],
      "shunts": [{"bus": 2, "G": 1, "B": 5}]}
CACHED = set()            # models whose second derivation, in a new process, is served from the cache
REF = {}
SNAP = {}

def segment(name):
    import importlib
    if name in BUILTIN:
        m, a = BUILTIN[name]
        return getattr(importlib.import_module(m), a)
    from sympy import sympify, Symbol
    from logic.stamping.lagrangesegment import LagrangeSegment
    text, c, p, d = CUSTOM[name] if name in CUSTOM else (f"lx*(a*x + {int(name[1:])}*y)", "a", "x y", "lx ly")
    sy = lambda t: [Symbol(x) for x in t.split()]
    return LagrangeSegment(sympify(text), sy(c), sy(p), sy(d))

def digest(seg, ders):
    """The derivatives as numbers at fixed points."""
    import numpy as np
    r = stream("c04", "points")
    args = [np.array([r.uniform(.3, 2.0), r.uniform(-2, -.3), r.uniform(.1, 3)]) for _ in seg.parameters]
    val = lambda f: [float("%.10g" % x) for x in np.broadcast_to(np.asarray(f(*args), dtype=float), (3,))]
    out = {}
    for v in seg.variables:
        d = ders[v]
        out[str(v)] = {"e": val(d.expr_eval), "v": str(d.variable), "s": d.variable_str,
                       "evals": sorted([str(e.yth_variable), bool(e.is_constant_expr), bool(e.is_linear), val(e.func)] for e in d.get_evals())}
    if {str(k) for k in ders} != {str(v) for v in seg.variables}: out["?"] = sorted(map(str, ders))
    return out

def body(segs, pf):
    """What a simulated process does; returns its findings."""
    import sympy
    n = [0]
    real = sympy.core.expr.Expr.diff        # what sympy.diff comes down to
    def counted(self, *a, **k):
        n[0] += 1
        return real(self, *a, **k)
    sympy.core.expr.Expr.diff = counted
    import importlib
    for m, _ in BUILTIN.values(): importlib.import_module(m)        # the code under test, imported anew (always in this order: it numbers multipliers as it goes)
    out = []
    for s in segs:
        k = n[0]
        seg = segment(s)
        d = digest(seg, seg.get_derivatives())
        again = digest(seg, seg.get_derivatives())
        out.append([s, d, n[0] - k, same(again, d)])
    res = None
    if pf:
        from .. import netspec, scen
        from ..trace import Trace
        from logic.powerflow import PowerFlow
        net, H = netspec.build(PF)
        r = PowerFlow(net, netspec.settings({"tolerance": 1e-6, "max_iters": 20})).execute()
        res = [bool(r.is_success)] + [float("%.9g" % x) for b in H["buses"].values() for x in (r.v_final[b.node_Vr], r.v_final[b.node_Vi])]
    return {"out": out, "pf": res}

def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-12
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def child(root, segs, pf):
    def fn(seam):
        tempfile.tempdir = root
        os.environ["TMPDIR"] = root
        return body(segs, pf)
    return fn

def plain(root, segs, pf):
    """Run body in a fresh, undisturbed process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.makedirs(root, exist_ok=True)
            tempfile.tempdir = root; os.environ["TMPDIR"] = root
            sys.stdout = open(os.devnull, "w")
            try: ans = body(segs, pf)
            except BaseException as e: ans = {"died": repr(e)}
            b = json.dumps(ans).encode()
            while b: b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c: break
        data += c
    os.close(r); os.waitpid(pid, 0)
    return json.loads(data)

def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out

def setup(log):
    import sympy, dill, numpy, scipy.sparse.linalg, pandas, networkx, uuid     # noqa: third parties only
    base = os.path.join(env.scratch(), "ref")
    for s in list(BUILTIN) + list(CUSTOM) + ["m2", f"m{LAST}"]:
        d = os.path.join(base, s)
        a = plain(d, [s], False)
        if "died" in a: raise RuntimeError(f"deriving {s} without a cache fails: {a['died']}")
        b = plain(d, [s], False)
        REF[s] = a["out"][0][1]
        if a["out"][0][2] > 0 and b["out"][0][2] == 0: CACHED.add(s)
        SNAP[s] = files(d)
    REF["pf"] = plain(os.path.join(base, "pf"), [], True)["pf"]
    shutil.rmtree(base)
    log(f"{len(REF)} references, {len(CACHED)} models cached")

def gen(rng, i, tier):
    if rng.random() < .6:
        fam = rng.choice(FAMILY)
        pool = list(fam) + rng.sample(list(REF and BUILTIN), 1)
    else:
        pool = rng.sample(list(BUILTIN) + list(CUSTOM), 4)
    if rng.random() < .04:      # many models through one cache
        segs = [f"m{k}" for k in rng.sample(range(2, LAST + 1), MANY)]
        return {"segs": segs, "procs": [{"segs": segs[k::2], "pf": False, "after": rng.random() < .25, "samepid": False} for k in range(2)], "init": {}, "frac": 0, "faults": [], "env": [],
                "seed": rng.randrange(1 << 30), "stick": .97, "bufsize": None}
    segs = rng.sample(pool, min(len(pool), rng.choice([1, 2, 2, 3, 4])))
    np_ = rng.choice([1, 2, 2, 3, 4])
    procs = []
    for _ in range(np_):
        k = list(segs); rng.shuffle(k)
        procs.append({"segs": k[:rng.randint(1, len(k))], "pf": rng.random() < .12, "after": rng.random() < .25, "samepid": rng.random() < .15})
    init = {}
    for s in segs:
        init[s] = rng.choice([None, None, "ok", "ok", "cut", "cut", "empty", "zeros", "text", "bytes"])
    faults = [gen_fault(rng, np_) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    envs = [[rng.randrange(60), rng.choice(["delete-one", "delete-one", "delete-dir"]), rng.randrange(1000)] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    return {"segs": segs, "procs": procs, "init": init, "frac": round(rng.random(), 3), "faults": faults, "env": envs, "seed": rng.randrange(1 << 30),
            "stick": rng.choice([0, .3, .6, .9, .97]), "bufsize": rng.choice([None, 64, 512, 4096])}

def damage(data, kind, frac):
    k = int(frac * max(1, len(data) - 1))
    if kind == "cut": return data[:k]
    if kind == "empty": return b""
    if kind == "zeros": return data[:k] + b"\0" * (len(data) - k)
    if kind == "text": return b"<html><body>503 Service Unavailable</body></html>\n"
    if kind == "bytes": return b"\xff\xfe" + bytes((i * 37 + 11) % 256 for i in range(200))
    return data

def expected(name):
    """The digest without a cache; those of the many models are affine in their coefficient."""
    if name in REF: return REF[name]
    f = (int(name[1:]) - 2) / (LAST - 2)
    def mix(a, b):
        if isinstance(a, dict): return {k: mix(a[k], b[k]) for k in a}
        if isinstance(a, list): return [mix(x, y) for x, y in zip(a, b)]
        return a + f * (b - a) if isinstance(a, float) else a
    return mix(REF["m2"], REF[f"m{LAST}"])

def judge(who, p, need_cached=()):
    if p.state == "dead" and p.crashed: return None
    if p.state == "dead": return {"sig": "process-died", "msg": f"{who}: the process ended abnormally ({p.wait})"}
    if "died" in p.result: return {"sig": "failed", "msg": f"{who}: a cache problem made it fail: {p.result['died'][-700:]}"}
    for s, d, n, stable in p.result["done"]["out"]:
        if not same(d, expected(s)): return {"sig": "wrong-derivatives", "msg": f"{who}: model {s} got other derivatives than without a cache"}
        if not stable: return {"sig": "wrong-derivatives", "msg": f"{who}: model {s} gives other derivatives when asked again"}
        if s in need_cached and n: return {"sig": "in-the-way", "msg": f"{who}: the disk works again and another process has derived model {s} since, but it is still derived anew"}
    pf = p.result["done"]["pf"]
    if pf is not None and any(abs(a - b) > 1e-7 for a, b in zip(pf, REF["pf"])):
        return {"sig": "wrong-powerflow", "msg": f"{who}: power flow {pf}, without a cache {REF['pf']}"}
    return None

def run(s, T):
    import sim.props.c04 as me
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(root)
    T.nontrivial = False
    for seg, kind in s["init"].items():
        if kind is None: continue
        for rel, data in SNAP[seg].items():
            p = os.path.join(root, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(damage(data, kind, s["frac"]))
        if kind != "ok": T.fault("damaged-" + kind, seg); T.nontrivial = True
    def cleaner(kind, r):
        def act(w):
            rng = stream(r)
            fs = sorted(files(root))
            if kind == "delete-one" and fs: os.remove(os.path.join(root, rng.choice(fs)))
            elif kind == "delete-dir":
                for d in os.listdir(root): shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            T.fault(kind); T.nontrivial = True
        return act
    w = World(T, root, s["seed"], s["faults"], s["stick"], [(k, cleaner(kind, r)) for k, kind, r in s["env"]], s["bufsize"])
    try:
        first = [p for p in s["procs"] if not p["after"]]; later = [p for p in s["procs"] if p["after"]]
        for p in first:
            w.spawn(child(root, p["segs"], p["pf"]), pid=1000 if p["samepid"] and not w.procs else None)
        if len(w.alive()) > 1: T.nontrivial = True; T.probe("overlapping")
        w.run()
        for p in later:                      # later processes may get the pid of a dead one
            w.spawn(child(root, p["segs"], p["pf"]), pid=1000 if p["samepid"] else None)
        w.run()
    except Unbounded as e:
        w.kill_all()
        return [{"sig": "unbounded", "msg": str(e)}]
    if T.faults: T.nontrivial = True
    for p in w.procs:
        v = judge(p.name, p)
        if v: return [v]
    T.sim_time += w.n
    T.probe("healthy-phase")
    for k, need in (("first healthy process", ()), ("second healthy process", CACHED)):
        h = World(T, root, s["seed"] + 1, [], 1, bufsize=None)
        p = h.spawn(child(root, s["segs"], True), name=k)
        h.run()
        T.sim_time += h.n
        v = judge(k, p, need)
        if v: return [v]
    return []

def shrink(s):
    yield from ({**copy.deepcopy(s), "faults": [f for j, f in enumerate(s["faults"]) if j != i]} for i in range(len(s["faults"])))
    for i in range(len(s["env"])):
        c = copy.deepcopy(s); del c["env"][i]; yield c
    if len(s["procs"]) > 1:
        for i in range(len(s["procs"])):
            c = copy.deepcopy(s); del c["procs"][i]; yield c
    n = len(s["segs"])
    for half in ([s["segs"][:n // 2], s["segs"][n // 2:], s["segs"][:n * 3 // 4], s["segs"][n // 4:]] if n > 8 else []):
        c = copy.deepcopy(s); c["segs"] = half
        for p in c["procs"]: p["segs"] = [x for x in p["segs"] if x in half] or half[:1]
        yield c
    for seg in s["segs"]:
        if len(s["segs"]) > 1:
            c = copy.deepcopy(s); c["segs"].remove(seg); c["init"].pop(seg, None)
            for p in c["procs"]: p["segs"] = [x for x in p["segs"] if x != seg] or c["segs"][:1]
            yield c
    for seg, k in s["init"].items():
        if k is not None: c = copy.deepcopy(s); c["init"][seg] = None; yield c
    for i, p in enumerate(s["procs"]):
        if p["pf"]: c = copy.deepcopy(s); c["procs"][i]["pf"] = False; yield c
        if len(p["segs"]) > 1:
            c = copy.deepcopy(s); c["procs"][i]["segs"] = p["segs"][:1]; yield c
    for st in (.97, 0):
        if s["stick"] != st: c = copy.deepcopy(s); c["stick"] = st; yield c; break
