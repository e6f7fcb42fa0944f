"""C15: only a connected network is solved, and selecting an island leaves exactly that island."""
import copy, math
from .. import netspec, scen
from ..fresh import Fresh, solve_request, describe, differ
from ..trace import SimAbort

COUNTS = {"quick": 3500, "thorough": 60000}
TIME_UNIT = "operations on the network"
RULE = ("gate: a network with added tie and sectionalising switches goes through 3-12 seeded operations (open or close a switch or one phase of it, blow or replace a fuse, solves, solves under "
        "linear-solver faults) and every solve is compared with the connectivity of the statuses then in force; select: two or three networks that share one model, joined by open "
        "switches or blown fuses, from which the island of a swing bus is selected after such operations and compared with that island built alone in a fresh process; "
        "non-trivial when an island error was due, a fault fired or an island was selected")
REAL = ["GraphAnalyzer, PowerFlow and everything below", "TimeSeriesProcessor island selection"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["nodes of one name are one node whatever their phases, as the tool defines islands"]

# ------------------------------------------------------------------ what the spec says about connectivity

def name_of(spec):
    tx = spec["kind"] == "tx"
    return {b["id"]: (b["id"] if tx else b["name"]) for b in spec["buses"] if not b.get("virtual")}

def edges(spec, closed=True):
    """(kind, index, [bus ids of its terminals]) of every branch; closed: only conducting ones."""
    tx = spec["kind"] == "tx"
    byname = {}
    for b in spec["buses"]:
        if not tx: byname[(b["name"], b["phase"])] = b["id"]
    for i, l in enumerate(spec["lines"]):
        yield "lines", i, [l["f"], l["t"]] if tx else [byname[(l["f"], l["phases"][0])], byname[(l["t"], l["phases"][0])]]
    for i, x in enumerate(spec["xfmrs"]): yield "xfmrs", i, [x["fp"], x["tp"]]
    for i, c in enumerate(spec.get("cts", [])): yield "cts", i, [c["f"], c["t1"], c["t2"]]
    for i, r in enumerate(spec.get("regs", [])): yield "regs", i, [r["f"], r["t"]]
    for i, s in enumerate(spec["switches"]):
        if not closed or s["status"] == "CLOSED": yield "switches", i, [s["f"], s["t"]]
    for i, f in enumerate(spec.get("fuses", [])):
        if not closed or f.get("status", "GOOD") == "GOOD": yield "fuses", i, [f["f"], f["t"]]

def islands(spec):
    nm = name_of(spec)
    par = {n: n for n in nm.values()}
    def find(a):
        while par[a] != a: a = par[a]
        return a
    for _, _, ids in edges(spec):
        a = find(nm[ids[0]])
        for j in ids[1:]: par[find(nm[j])] = find(a)
    out = {}
    for n in par: out.setdefault(find(n), set()).add(n)
    return list(out.values())

def sub_spec(spec, names):
    """The part of the spec whose nodes are in names, and which elements of every kind that keeps."""
    nm = name_of(spec)
    s = copy.deepcopy(spec)
    keep = {}
    inside = lambda ids: all(nm[i] in names for i in ids if i is not None)
    for k in ("lines", "xfmrs", "cts", "regs", "switches", "fuses"): keep[k] = []
    for k, i, ids in edges(spec, closed=False):
        if inside(ids): keep[k].append(i)
    keep["loads"] = [i for i, l in enumerate(spec["loads"]) if inside([l["f"], l["t"]])]
    keep["caps"] = [i for i, c in enumerate(spec.get("caps", [])) if inside([c["f"], c["t"]])]
    keep["slack"] = [i for i, c in enumerate(spec["slack"]) if inside([c["bus"]])]
    for k, idx in keep.items():
        if k in s: s[k] = [s[k][i] for i in idx]
    virt = set()
    for c in s.get("cts", []): virt |= {c["pri"], c["s1"], c["s2"]}
    for f in s.get("fuses", []): virt.add(f["mid"])
    for r in s.get("regs", []): virt.add(r["cur"])
    s["buses"] = [b for b in s["buses"] if (b["id"] in virt if b.get("virtual") else nm[b["id"]] in names)]
    return s, keep

def merge(parts):
    """Networks side by side in one model, ids and names made distinct."""
    out = None
    off = 0
    for n, p in enumerate(parts):
        p = copy.deepcopy(p)
        o = off
        I = lambda i: None if i is None else i + o
        tag = f"_{n}" if n else ""
        for b in p["buses"]: b["id"] += o; b["name"] += tag
        for s in p["slack"]: s["bus"] += o
        for k in ("loads", "caps", "switches", "fuses", "regs"):
            for e in p[k]:
                for f in ("f", "t", "mid", "cur"):
                    if f in e: e[f] = I(e[f])
        for l in p["loads"]: l["num"] = str(l["num"]) + tag
        for l in p["lines"]: l["f"] += tag; l["t"] += tag
        for x in p["xfmrs"]:
            for f in ("fp", "fn", "tp", "tn"): x[f] = I(x[f])
        for c in p["cts"]:
            for f in ("f", "pri", "s1", "t1", "s2", "t2"): c[f] = I(c[f])
        off = max(b["id"] for b in p["buses"])
        if out is None: out = p
        else:
            for k, v in p.items():
                if isinstance(v, list): out[k] = out[k] + v
    return out

class Ideal:
    """Zero-impedance connections (switches in any position, regulators, sources). A loop of them has no solution,
    and the sparse solver may crash the process on its singular matrix, so none is generated."""
    def __init__(self, spec):
        self.par = {}
        for s in spec["slack"]: self.join(s["bus"], "ground")
        for r in spec.get("regs", []): self.join(r["f"], r["t"])
        for s in spec["switches"]: self.join(s["f"], s["t"])
    def find(self, a):
        while self.par.get(a, a) != a: a = self.par[a]
        return a
    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b: return False
        self.par[a] = b
        return True
    def loop(self, pairs):
        return any(self.find(a) == self.find(b) for a, b in pairs)

def add_ties(rng, spec, n, status):
    """Switches between nodes with common phases and (about) the same nominal voltage, all phases of a pair together."""
    I = Ideal(spec)
    tx = spec["kind"] == "tx"
    if tx:
        ids = [b["id"] for b in spec["buses"]]
        for _ in range(n):
            f, t = rng.sample(ids, 2)
            if I.join(f, t): spec["switches"].append({"f": f, "t": t, "status": status(), "phase": "A"})
        return
    nodes = {}
    for b in spec["buses"]:
        if not b.get("virtual"): nodes.setdefault(b["name"], {})[b["phase"]] = b
    pairs = []
    for f in nodes:
        for t in nodes:
            common = [p for p in nodes[f] if p in nodes[t]]
            if f != t and common and all(abs(nodes[f][p]["vm"] - nodes[t][p]["vm"]) < 1 for p in common): pairs.append((f, t, common))
    for _ in range(n):
        if not pairs: break
        f, t, ph = rng.choice(pairs)
        st = status()
        if I.loop([(nodes[f][p]["id"], nodes[t][p]["id"]) for p in ph]): continue
        for p in ph:
            I.join(nodes[f][p]["id"], nodes[t][p]["id"])
            spec["switches"].append({"f": nodes[f][p]["id"], "t": nodes[t][p]["id"], "status": st, "phase": p})

def lines_to_switches(rng, spec, p):
    tx = spec["kind"] == "tx"
    byname = {}
    for b in spec["buses"]:
        if not tx: byname[(b["name"], b["phase"])] = b["id"]
    keep = []
    I = Ideal(spec)
    for l in spec["lines"]:
        ends = [(l["f"], l["t"])] if tx else [(byname[(l["f"], ph)], byname[(l["t"], ph)]) for ph in l["phases"]]
        if rng.random() >= p or I.loop(ends) or any(g["bus"] in e for e in ends for g in spec.get("gens", [])): keep.append(l); continue
        for e in ends: I.join(*e)
        if tx: spec["switches"].append({"f": l["f"], "t": l["t"], "status": "CLOSED", "phase": "A"})
        else:
            for ph in l["phases"]:
                spec["switches"].append({"f": byname[(l["f"], ph)], "t": byname[(l["t"], ph)], "status": "CLOSED", "phase": ph})
    spec["lines"] = keep

def groups(spec):
    """Switches (fuses) grouped by the nodes they join."""
    nm = name_of(spec)
    g = {}
    for i, s in enumerate(spec["switches"]): g.setdefault((nm[s["f"]], nm[s["t"]]), []).append(i)
    return list(g.values())

def gen_ops(rng, spec, n, whole, solves=.45):
    ops = []
    g = groups(spec)
    for _ in range(n):
        u = rng.random()
        if u < solves:
            ops.append({"op": "solve", "plan": scen.gen_plan(rng, horizon=5) if rng.random() < .3 else []})
        elif u < solves + .4 and g:
            sw = rng.choice(g)
            if not whole and rng.random() < .3: sw = [rng.choice(sw)]
            ops.append({"op": "switch", "i": sw, "to": rng.choice(["OPEN", "CLOSED", "OPEN"])})
        elif spec.get("fuses"):
            ops.append({"op": "fuse", "i": rng.randrange(len(spec["fuses"])), "to": rng.choice(["BLOWN", "GOOD"])})
    return ops

def gen(rng, i, tier):
    st = {"tolerance": 1e-5, "max_iters": rng.choice([12, 20, 30])}
    if rng.random() < .15: st["device_control"] = False
    if rng.random() < .62:
        spec = netspec.gen_tx(rng, nmax=6) if rng.random() < .4 else netspec.gen_dx(rng, nmax=5)
        if spec["kind"] == "tx": spec.setdefault("fuses", [])
        lines_to_switches(rng, spec, rng.choice([0, .2, .5]))
        add_ties(rng, spec, rng.choice([0, 1, 2]), lambda: rng.choice(["OPEN", "OPEN", "CLOSED"]))
        for f in spec.get("fuses", []):
            if rng.random() < .4: f["limit"] = round(10 ** rng.uniform(-1, 2), 2)
        if rng.random() < .3 and spec["switches"]:
            for j in rng.choice(groups(spec)): spec["switches"][j]["status"] = "OPEN"
        ops = gen_ops(rng, spec, rng.randint(3, 12), False) + [{"op": "solve", "plan": []}]
        return {"mode": "gate", "spec": spec, "settings": st, "ops": ops}
    parts = [netspec.gen_dx(rng, nmax=rng.choice([1, 2, 3, 4])) for _ in range(rng.choice([2, 2, 3]))]
    spec = merge(parts)
    for p in (0, .3)[rng.random() < .5:][:1]: lines_to_switches(rng, spec, p)
    add_ties(rng, spec, rng.choice([1, 2, 3]), lambda: "OPEN")
    rng.shuffle(spec["loads"])
    if rng.random() < .5:
        for k in ("buses", "lines", "xfmrs", "switches", "fuses", "regs", "caps", "slack"): rng.shuffle(spec[k])
    ops = [o for o in gen_ops(rng, spec, rng.randint(0, 4), True, solves=.3)]
    swing = rng.randrange(len(parts))
    return {"mode": "select", "spec": spec, "settings": st, "ops": ops, "swing": "src" + (f"_{swing}" if swing else ""),
            "plan": scen.gen_plan(rng, horizon=4) if rng.random() < .2 else []}

# ------------------------------------------------------------------ run

def snapshot(net, H):
    s = {k: [id(e) for e in v] for k, v in vars(net).items() if isinstance(v, list)}
    s["st"] = [[getattr(e, "status").value for e in H["switches"]], [e.status.value for e in H["fuses"]],
               [(e.P, e.Q) for e in H["loads"]], [e.switch.value for e in H["caps"]], [e.tap_position for e in H["regs"]]]
    s["opt"] = id(net.optimization)
    return s

def apply(op, H):
    from models.components.switch import SwitchStatus
    from models.components.fuse import FuseStatus
    if op["op"] == "switch":
        for j in op["i"]: H["switches"][j].status = SwitchStatus[op["to"]]
    elif op["op"] == "fuse":
        H["fuses"][op["i"]].status = FuseStatus[op["to"]]

def gate(s, T, net, H, pf, k, plan):
    """One solve, judged against the connectivity now in force. -> (violations, outcome, spec now)"""
    now = scen.sync_devices(s["spec"], H)
    isl = islands(now)
    before = snapshot(net, H)
    o = scen.execute(net, s["settings"], T, plan, pf=pf)
    T.ev("gate", k, len(isl))
    is_island = o.exc is not None and "island" in str(o.exc).lower()
    if len(isl) != 1:
        T.probe("islands"); T.nontrivial = True
        if not is_island:
            return [{"sig": "island-missed", "msg": f"operation {k}: {len(isl)} islands {sorted(map(sorted, isl))[:4]}, but the solve ended in {o.kind()} ({o.exc!r}) after {o.solves} linear solves"}], o, now
        if o.solves:
            return [{"sig": "island-late", "msg": f"operation {k}: the island error came after {o.solves} linear solves"}], o, now
        if snapshot(net, H) != before:
            return [{"sig": "island-changed", "msg": f"operation {k}: the network was changed although it has islands"}], o, now
    else:
        T.probe("connected")
        if is_island:
            return [{"sig": "island-false", "msg": f"operation {k}: the network is connected, but: {o.exc}"}], o, now
        blown = any(f.get("status") == "BLOWN" for f in now.get("fuses", []))
        if o.solves == 0 and not blown:
            return [{"sig": "not-solved", "msg": f"operation {k}: the network is connected, but nothing was solved: {o.exc!r}"}], o, now
    if o.lin.fired: T.nontrivial = True
    return [], o, now

def run(s, T):
    from logic.powerflow import PowerFlow
    F = Fresh(solve_request) if s["mode"] == "select" else None
    net, H = netspec.build(s["spec"])
    pf = PowerFlow(net, netspec.settings(s["settings"]))
    T.nontrivial = False
    for k, op in enumerate(s["ops"]):
        T.sim_time += 1
        if op["op"] == "solve":
            v, o, _ = gate(s, T, net, H, pf, k, op["plan"])
            if v: return v
            if o.budget: return [{"sig": "unbounded", "msg": "a solve did not end"}]
        else:
            T.ev("op", op); apply(op, H)
    if s["mode"] != "select": return []
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from ..lin import Lin
    now = scen.sync_devices(s["spec"], H)
    names = next(x for x in islands(now) if s["swing"] in x)
    want, keep = sub_spec(now, names)
    T.nontrivial = True
    T.probe("selected")
    if len(names) < len(set(name_of(now).values())): T.probe("selected-a-part")
    exc = res = None
    with Lin(T, s["plan"], budget=scen.budget_of(s["settings"], net)) as lin:
        try:
            proc = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=s["swing"], select_island=True), pf)
        except Exception as e:
            return [{"sig": "select-raised", "msg": f"selecting the island of {s['swing']} raised {e!r}"}]
        # exactly this island is left
        def ids(objs): return sorted(id(o) for o in objs)
        pick = lambda k: [H[k][i] for i in keep.get(k, [])]
        left = {"buses": (net.buses, [H["buses"][b["id"]] for b in want["buses"]]), "slack": (net.slack, pick("slack")),
                "loads": (net.loads, pick("loads")), "lines": (net.lines, pick("lines")), "transformers": (net.transformers, pick("xfmrs") + pick("cts")),
                "switches": (net.switches, pick("switches")), "fuses": (net.fuses, pick("fuses")), "regulators": (net.regulators, pick("regs")),
                "capacitors": (net.capacitors, pick("caps"))}
        for k, (have, should) in left.items():
            if ids(have) != ids(should):
                return [{"sig": "select-" + k, "msg": f"{len(have)} {k} left, the island of {s['swing']} has {len(should)}"}]
        try: res = proc.execute()
        except SimAbort: raise
        except (Exception, KeyboardInterrupt) as e: exc = e
    T.ev("select", type(exc).__name__ if exc else bool(res.is_success))
    if lin.fired: return []
    w = F.ask({"spec": want, "settings": s["settings"]})
    T.probe("alone-" + w["kind"])
    o = scen.Outcome(); o.exc = exc; o.res = res
    df = differ(describe(o, {"buses": {b["id"]: H["buses"][b["id"]] for b in want["buses"]}}), w, rtol=1e-6)
    if df: return [{"sig": "select-result", "msg": f"island of {s['swing']}: {df} when built alone"}]
    return []

def shrink(s):
    yield from scen.shrink_list(s, "ops")
    for i, op in enumerate(s["ops"]):
        if op.get("plan"):
            c = copy.deepcopy(s); c["ops"][i]["plan"] = []; yield c
    if s.get("plan"): c = copy.deepcopy(s); c["plan"] = []; yield c
    yield from scen.shrink_spec(s)
    for k in ("switches", "caps"):
        for j in range(len(s["spec"].get(k, []))):
            if any(op["op"] == "switch" for op in s["ops"]) and k == "switches": break
            c = copy.deepcopy(s); del c["spec"][k][j]; yield c
