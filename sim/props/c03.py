"""C03: a solve depends on the network as it now is, not on what was solved before."""
import copy
from .. import netspec, scen
from ..fresh import Fresh, solve_request, describe, differ

COUNTS = {"quick": 420, "thorough": 14000}
RULE = ("a history of up to 14 operations (solves with and without linear-solver faults, load, generator, switch, capacitor, tap, transformer, slack and settings changes, "
        "attaching and removing infeasibility analysis, new PowerFlow objects) over one to three networks in one process; every fault-free solve, and every solve whose faults do not depend on the numbering of the matrix, is repeated on a "
        "newly built copy in a fresh process, under the same faults; non-trivial when at least one compared solve follows another solve or edit in the history")
REAL = ["all of logic/ and models/ used by PowerFlow.execute"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["the present state of a network is its public attributes; 'fresh process' is a fork of a process that has solved nothing"]

def tame(st, l1):
    if l1:
        st.pop("tx_stepping", None)
        st["max_iters"] = min(st["max_iters"], 30)
    elif st.get("tx_stepping"):
        st["max_iters"] = min(st["max_iters"], 15)

SAME = {"scale", "zero", "allnan", "stale", "raise", "raise_mem", "raise_linalg", "raise_intr"}

def gen_same(rng):
    """Faults that strike alike however the matrix is numbered."""
    plan = []
    for _ in range(rng.choice([1, 1, 2])):
        f = {"kind": rng.choice(["scale", "scale", "scale", "scale", "zero", "stale", "allnan", "raise", "raise_intr"]), "mag": rng.choice([-.9, -.5, -2, .2, 1, 4, 20]), "at": rng.choice([0, 0, 1, 1, 2, 3, 5, 9])}
        if rng.random() < .2: f["from"] = f.pop("at"); f["to"] = f["from"] + rng.randint(2, 5)
        plan.append(f)
    return plan

def gen(rng, i, tier):
    nets = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        spec = netspec.gen_net(rng, stress_p=.1, auto=rng.random() < .2)
        st = netspec.gen_settings(rng, spec["kind"] == "tx")
        l1 = rng.random() < .2           # homotopy and L1 analysis together would be slow
        tame(st, l1)
        nets.append({"spec": spec, "settings": st, "inf": None, "l1": l1})
    if len(nets) > 1 and rng.random() < .35:
        # the same case twice in one process
        nets[1] = copy.deepcopy(nets[0])
    ops = []
    n = rng.randint(4, 14)
    for k in range(n):
        a = rng.randrange(len(nets))
        spec = nets[a]["spec"]
        u = rng.random()
        if u < .42 or k == n - 1:
            v = rng.random()
            ops.append({"op": "solve", "net": a, "plan": gen_same(rng) if v < .35 else scen.gen_plan(rng) if v < .55 and k < n - 1 else []})
            continue
        c = ["load", "load", "set", "inf", "new"]
        if spec.get("gens"): c += ["gen"]
        if spec.get("switches"): c += ["switch", "switch"]
        if any(x["mode"] == "MANUAL" for x in spec.get("caps", [])): c += ["cap", "cap"]
        if spec.get("regs"): c += ["tap", "tap"]
        if spec.get("xfmrs"): c += ["tr"]
        op = rng.choice(c)
        if op == "load":
            if not spec["loads"]: continue
            j = rng.randrange(len(spec["loads"])); l = spec["loads"][j]
            f = rng.choice([0, .2, .5, .9, 1.1, 1.5, -.3, 30.0])
            what = rng.choice(["PQ", "PQ", "I"])
            base = max(abs(l["P"]), abs(l["Q"]), 1e-2 if spec["kind"] == "tx" else 100)
            if what == "PQ":
                ops.append({"op": "load", "net": a, "i": j, "P": round(base * f, 5), "Q": round(base * f * rng.uniform(-.3, .5), 5)})
            else:
                ops.append({"op": "loadI", "net": a, "i": j, "IP": round(l["IP"] * f, 5), "IQ": round(l["IQ"] * f, 5)})
        elif op == "gen":
            j = rng.randrange(len(spec["gens"])); g = spec["gens"][j]
            ops.append({"op": "gen", "net": a, "i": j, "P": round(g["P"] * rng.uniform(.2, 1.6), 4), "vset": round(g["vset"] * rng.uniform(.98, 1.02), 4)})
        elif op == "switch":
            ops.append({"op": "switch", "net": a, "i": rng.randrange(len(spec["switches"])), "status": rng.choice(["OPEN", "CLOSED"])})
        elif op == "cap":
            j = rng.choice([j for j, x in enumerate(spec["caps"]) if x["mode"] == "MANUAL"])
            ops.append({"op": "cap", "net": a, "i": j, "switch": rng.choice(["OPEN", "CLOSED"])})
        elif op == "tap":
            ops.append({"op": "tap", "net": a, "i": rng.randrange(len(spec["regs"])), "inc": rng.choice([-40, -5, -1, 1, 2, 7, 40])})
        elif op == "tr":
            j = rng.randrange(len(spec["xfmrs"]))
            ops.append({"op": "tr", "net": a, "i": j, "tr": round(spec["xfmrs"][j]["tr"] * rng.uniform(.96, 1.04), 5)})
        elif op == "set":
            st = netspec.gen_settings(rng, spec["kind"] == "tx")
            tame(st, nets[a]["l1"])
            ops.append({"op": "set", "net": a, "settings": st})
        elif op == "inf":
            ops.append({"op": "inf", "net": a, "mode": rng.choice([None, "L2", "L1" if nets[a]["l1"] else "L2"])})
        else:
            ops.append({"op": "new", "net": a})
    return {"nets": nets, "ops": ops}

class Net:
    def __init__(self, d):
        self.spec = copy.deepcopy(d["spec"])
        self.settings = dict(d["settings"])
        self.inf = d["inf"]
        self.net, self.H = netspec.build(self.spec)
        self.renew()

    def renew(self):
        from logic.powerflow import PowerFlow
        self.so = netspec.settings(self.settings)
        self.pf = PowerFlow(self.net, self.so)

    def apply(self, op):
        from models.components.switch import SwitchStatus
        from models.components.capacitor import CapSwitchState
        k = op["op"]; s = self.spec; H = self.H
        if k == "load":
            l = s["loads"][op["i"]]; o = H["loads"][op["i"]]
            l["P"] = o.P = op["P"]; l["Q"] = o.Q = op["Q"]
        elif k == "loadI":
            l = s["loads"][op["i"]]; o = H["loads"][op["i"]]
            l["IP"] = o.IP = op["IP"]; l["IQ"] = o.IQ = op["IQ"]
        elif k == "gen":
            g = s["gens"][op["i"]]; o = H["gens"][op["i"]]
            g["P"] = op["P"]; o.P = -op["P"]; g["vset"] = o.Vset = op["vset"]
        elif k == "switch":
            s["switches"][op["i"]]["status"] = op["status"]; H["switches"][op["i"]].status = SwitchStatus[op["status"]]
        elif k == "cap":
            s["caps"][op["i"]]["switch"] = op["switch"]; H["caps"][op["i"]].switch = CapSwitchState[op["switch"]]
        elif k == "tap":
            r = s["regs"][op["i"]]
            r["tap"] = max(-r.get("lower", 16), min(r.get("raise", 16), r["tap"] + op["inc"]))
            H["regs"][op["i"]].try_increment_tap_position(op["inc"])
        elif k == "tr":
            s["xfmrs"][op["i"]]["tr"] = H["xfmrs"][op["i"]].tr = op["tr"]
        elif k == "set":
            for a in list(self.settings):
                if a not in op["settings"]:
                    setattr(self.so, a, getattr(netspec.settings({}), a))
            for a, v in op["settings"].items(): setattr(self.so, a, v)
            self.settings = dict(op["settings"])
        elif k == "inf":
            self.inf = op["mode"]; netspec.attach_infeasibility(self.net, op["mode"])
        elif k == "new":
            self.renew()

    def present(self):
        """The network as it now is: what was set, and the automatic devices where they now stand."""
        s = copy.deepcopy(self.spec)
        for c, o in zip(s.get("caps", []), self.H["caps"]):
            if c["mode"] != "MANUAL": c["switch"] = o.switch.value
        for f, o in zip(s.get("fuses", []), self.H["fuses"]):
            f["status"] = o.status.value
        return s

def run(s, T):
    F = Fresh(solve_request)
    nets = [Net(d) for d in s["nets"]]
    done = 0
    T.nontrivial = False
    for k, op in enumerate(s["ops"]):
        n = nets[op["net"]]
        if op["op"] != "solve":
            n.apply(op); T.ev("op", k, op["op"]); done += 1
            continue
        before = n.present()
        o = scen.execute(n.net, n.settings, T, op["plan"], pf=n.pf)
        if o.lin.fired:
            T.probe("disturbed-" + o.kind())
            if not all(f["kind"] in SAME for f in op["plan"]) or o.solves > 40: done += 1; continue
        got = describe(o, n.H)
        want = F.ask({"spec": before, "settings": n.settings, "inf": n.inf, "plan": op["plan"]})
        T.ev("fresh", k, want["kind"], want["solves"])
        T.probe(("compared-" if not o.lin.fired else "compared-disturbed-") + got["kind"])
        if done: T.nontrivial = True; T.fault("history") if not T.faults else None
        done += 1
        d = differ(got, want)
        if d:
            return [{"sig": "history", "msg": f"operation {k}: {d} (fresh copy)"}]
    return []

def shrink(s):
    for i in range(len(s["ops"]) - 1):
        c = copy.deepcopy(s); del c["ops"][i]; yield c
    for i in range(len(s["nets"])):
        if not any(o["net"] == i for o in s["ops"]):
            c = copy.deepcopy(s); del c["nets"][i]
            for o in c["ops"]:
                if o["net"] > i: o["net"] -= 1
            yield c
    for i, o in enumerate(s["ops"]):
        if len(o.get("plan", [])) > 1:
            for j in range(len(o["plan"])):
                c = copy.deepcopy(s); del c["ops"][i]["plan"][j]; yield c
    for i, n in enumerate(s["nets"]):
        for key in list(n["settings"]):
            if key not in ("tolerance", "max_iters"):
                c = copy.deepcopy(s); del c["nets"][i]["settings"][key]; yield c
        used = [o for o in s["ops"] if o["net"] == i]
        if not any(o["op"] in ("load", "loadI", "gen", "cap") for o in used):
            for sp in netspec.drop_candidates(n["spec"]):
                c = copy.deepcopy(s); c["nets"][i]["spec"] = sp; yield c
