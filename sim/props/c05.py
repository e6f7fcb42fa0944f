"""C05: device control ends at rest and acts on converged solutions only."""
import copy
import math
from .. import netspec, scen, physics
from ..fresh import Fresh, describe
from ..trace import Trace

COUNTS = {"quick": 2000, "thorough": 25000}
RULE = ("a three-phase network with voltage-controlled capacitors, limiting fuses and manual devices; a history of solves (some with linear-solver faults) and load changes; "
        "device states are watched at every linear solve; non-trivial when an automatic device operated or a fault fired")
REAL = ["all of logic/ and models/ used by PowerFlow.execute, including the device controller"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["capacitor rule as the repository defines it: closed above the high voltage, open below the low one (GridLAB-D's rule is the opposite; existing tests pin this one)"]
ROUNDS = 10

def gen(rng, i, tier):
    spec = netspec.gen_dx(rng, nmax=4, auto=True, stress=rng.random() < .15)
    if not any(c["mode"] == "VOLT" for c in spec["caps"]) and not spec["fuses"] and rng.random() < .9:
        return gen(rng, i, tier)
    # thresholds near the voltages that occur
    for c in spec["caps"]:
        if c["mode"] == "VOLT" and rng.random() < .6:
            lo = c["vn"] * rng.uniform(.985, 1.025); c["low"] = round(lo, 3); c["high"] = round(lo + c["vn"] * rng.choice([0, .001, .003, .01, .03]), 3)
            if rng.random() < .25: c["var"] = round(c["var"] * rng.uniform(2, 8), 2)
            if rng.random() < .12: c["var"] = -c["var"]          # a reactor: closing lowers the voltage, control may never settle
    st = netspec.gen_settings(rng, False)
    if rng.random() < .8: st.pop("tx_stepping", None)
    if st.get("tx_stepping"): st["max_iters"] = min(st["max_iters"], 12)
    if rng.random() < .85: st.pop("device_control", None)
    ops = []
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        plan = []
        if rng.random() < .5:
            plan = scen.gen_plan(rng, horizon=10)
            if rng.random() < .5:        # end a run early: persistently bad answers
                a = rng.randrange(9)
                plan = [{"kind": rng.choice(["noise", "one", "abs", "stale", "scale"]), "from": a, "mag": 10 ** rng.uniform(-4, 0), "seed": rng.randrange(1 << 30)}]
        if k:
            for _ in range(rng.choice([1, 1, 2])):
                j = rng.randrange(len(spec["loads"])); l = spec["loads"][j]
                base = max(abs(l["P"]), abs(l["Q"]), 100)
                ops.append({"op": "load", "i": j, "P": round(base * rng.choice([0, .1, .5, 1.5, 3, 8, -1]), 3), "Q": round(base * rng.choice([0, .5, 2, -2]), 3)})
            if rng.random() < .2:
                m = [x for x, c in enumerate(spec["caps"]) if c["mode"] == "VOLT"]
                if m: ops.append({"op": "cap", "i": rng.choice(m), "switch": rng.choice(["OPEN", "CLOSED"])})
        ops.append({"op": "solve", "plan": plan})
    return {"spec": spec, "settings": st, "ops": ops}

def states(H):
    return ([c.switch.value for c in H["caps"]], [f.status.value for f in H["fuses"]])

def with_states(spec, S):
    s = copy.deepcopy(spec)
    for c, x in zip(s["caps"], S[0]): c["switch"] = x
    for f, x in zip(s["fuses"], S[1]): f["status"] = x
    return s

def rule(spec, S, V, fuse_i):
    """One pass of the device rules. -> (new states, margin to the nearest threshold)"""
    caps, fuses = list(S[0]), list(S[1])
    margin = 1.0
    for k, c in enumerate(spec["caps"]):
        if c["mode"] != "VOLT": continue
        m = abs(V[c["f"]])
        margin = min(margin, abs(m - c["high"]) / c["vn"], abs(m - c["low"]) / c["vn"])
        if m > c["high"]: caps[k] = "CLOSED"
        if m < c["low"]: caps[k] = "OPEN"
    for k, f in enumerate(spec["fuses"]):
        if fuses[k] == "BLOWN" or fuse_i is None or fuse_i[k] is None: continue
        margin = min(margin, abs(fuse_i[k] - f["limit"]) / (f["limit"] + 1))
        if fuse_i[k] > f["limit"]: fuses[k] = "BLOWN"
    return (caps, fuses), margin

def v_init(spec):
    import cmath
    return {b["id"]: cmath.rect(b["vm"], b["va"]) for b in spec["buses"]}

def reference(req):
    """The control loop on its own: every round is a solve of a newly built network without device control."""
    spec, st = req["spec"], dict(req["settings"])
    S = ([c["switch"] for c in spec["caps"]], [f["status"] for f in spec["fuses"]])
    margin = 1.0
    control = st.get("device_control", True)
    if control:
        S, margin = rule(spec, S, v_init(spec), None)
    st["device_control"] = False
    for r in range(ROUNDS):
        sp = with_states(spec, S)
        if "BLOWN" in S[1]:
            return {"kind": "raise", "S": S, "margin": margin, "rounds": r}
        net, H = netspec.build(sp)
        o = scen.execute(net, st, Trace())
        if o.kind() != "success":
            return {"kind": o.kind(), "S": S, "margin": margin, "rounds": r}
        V = physics.voltages(o.res, H)
        if not control:
            return {"kind": "success", "S": S, "margin": margin, "rounds": r}
        S2, m = rule(spec, S, V, physics.evaluate(sp, V)["fuse"])
        margin = min(margin, m)
        if S2 == S:
            return {"kind": "success", "S": S, "margin": margin, "rounds": r}
        S = S2
    return {"kind": "raise", "S": S, "margin": margin, "rounds": ROUNDS}

class Watch:
    """Follows device states through a solve."""
    def __init__(self, spec, H, st, T):
        self.spec, self.H, self.st, self.T = spec, H, st, T
        self.S = states(H)
        self.bad = []
        self.lin = None
        self.operated = 0

    def answer_voltages(self):
        x = self.lin.prev
        return {i: complex(float(x[b.node_Vr]), float(x[b.node_Vi])) for i, b in self.H["buses"].items()}

    def look(self, k):
        S = states(self.H)
        if S == self.S: return
        self.operated += 1
        self.T.probe("device-operated")
        self.T.ev("operated", k, S)
        if k == 0:
            want, margin = rule(self.spec, self.S, v_init(self.spec), None)
            if S != want and margin > 1e-9:
                self.bad.append(("operated-wrong", f"before the first solve devices went from {self.S} to {S}, the initial voltages call for {want}"))
        elif self.lin.prev is None:
            self.bad.append(("operated-unconverged", f"devices operated before solve {k} without a solution"))
        else:
            V = self.answer_voltages()
            old = with_states(self.spec, self.S)
            if not all(math.isfinite(abs(z)) for z in V.values()):
                self.bad.append(("operated-unconverged", f"before solve {k} devices operated on a solution that is not finite"))
            else:
                e = physics.evaluate(old, V)
                lim = self.st.get("tolerance", 1e-5) * math.sqrt(e["rows"]) * 1.01 + 2e-12 * e["scale"] * e["rows"]
                if e["res"] > lim:
                    self.bad.append(("operated-unconverged", f"before solve {k} devices operated on voltages that miss the network equations by {e['res']:.3e}"))
                else:
                    want, margin = rule(self.spec, self.S, V, e["fuse"])
                    if S != want and margin > 1e-4:
                        self.bad.append(("operated-wrong", f"before solve {k} devices went from {self.S} to {S}, the solution calls for {want}"))
        if not self.st.get("device_control", True):
            self.bad.append(("operated-off", f"devices operated although device control is off: {self.S} to {S}"))
        self.S = S

def run(s, T):
    F = Fresh(reference)
    spec = copy.deepcopy(s["spec"])
    st = s["settings"]
    net, H = netspec.build(spec)
    from logic.powerflow import PowerFlow
    from models.components.capacitor import CapSwitchState
    pf = PowerFlow(net, netspec.settings(st))
    T.nontrivial = False
    for k, op in enumerate(s["ops"]):
        if op["op"] == "load":
            l = spec["loads"][op["i"]]; o = H["loads"][op["i"]]
            l["P"] = o.P = op["P"]; l["Q"] = o.Q = op["Q"]
            continue
        if op["op"] == "cap":
            H["caps"][op["i"]].switch = CapSwitchState[op["switch"]]
            continue
        S0 = states(H)
        before = with_states(spec, S0)
        taps = [r.tap_position for r in H["regs"]]
        sw = [x.status.value for x in H["switches"]]
        W = Watch(spec, H, st, T)
        # the watcher needs the interceptor to see the last answer
        from ..lin import Lin
        holder = {}
        def on_solve(n, A, b):
            W.lin = holder["lin"]; W.look(n)
        from ..trace import BudgetExceeded, SimAbort
        o = scen.Outcome()
        lin = holder["lin"] = Lin(T, op["plan"], budget=scen.budget_of(st, net), on_solve=on_solve)
        with lin:
            try: o.res = pf.execute()
            except BudgetExceeded: o.budget = True
            except SimAbort: raise
            except (Exception, KeyboardInterrupt) as e: o.exc = e
        o.solves = lin.count; o.lin = lin
        T.ev("outcome", o.kind(), o.solves)
        W.lin = lin; W.look(lin.count)
        if W.operated or lin.fired: T.nontrivial = True
        if W.operated and not T.faults: T.fault("device-operation")
        T.probe("solve-" + o.kind())
        if o.budget: return [{"sig": "unbounded", "msg": "device control did not end"}]
        if W.bad: return [{"sig": a, "msg": f"operation {k}: {b}"} for a, b in W.bad[:3]]
        S1 = states(H)
        for j, c in enumerate(spec["caps"]):
            if c["mode"] != "VOLT" and S1[0][j] != S0[0][j]:
                return [{"sig": "manual-changed", "msg": f"operation {k}: manual capacitor {j} went from {S0[0][j]} to {S1[0][j]}"}]
        for j in range(len(S0[1])):
            if S0[1][j] == "BLOWN" and S1[1][j] != "BLOWN":
                return [{"sig": "unblown", "msg": f"operation {k}: blown fuse {j} is intact again"}]
        if taps != [r.tap_position for r in H["regs"]] or sw != [x.status.value for x in H["switches"]]:
            return [{"sig": "manual-changed", "msg": f"operation {k}: regulator taps or switches changed"}]
        now = with_states(spec, S1)
        if o.ok:
            v = scen.check_operating_point(now, net, H, o.res, st, f"operation {k}:")
            if v: return v
            if st.get("device_control", True):
                V = physics.voltages(o.res, H)
                fi = physics.evaluate(now, V)["fuse"]
                for j, c in enumerate(spec["caps"]):
                    if c["mode"] != "VOLT": continue
                    m = abs(V[c["f"]])
                    if (m > c["high"] * (1 + 1e-9) and S1[0][j] == "OPEN") or (m < c["low"] * (1 - 1e-9) and S1[0][j] == "CLOSED"):
                        return [{"sig": "not-at-rest", "msg": f"operation {k}: success with capacitor {j} {S1[0][j]} at {m:.3f} V, thresholds {c['low']} and {c['high']}"}]
                for j, f in enumerate(spec["fuses"]):
                    if S1[1][j] == "GOOD" and fi[j] is not None and fi[j] > f["limit"] * 1.001 + .01 + 100 * st.get("tolerance", 1e-5):
                        return [{"sig": "not-at-rest", "msg": f"operation {k}: success with intact fuse {j} carrying {fi[j]:.3f} A, limit {f['limit']}"}]
        if not lin.fired:
            want = F.ask({"spec": before, "settings": st})
            T.ev("ref", k, want["kind"], want["S"], want["rounds"])
            if want["margin"] < 1e-4:
                T.probe("too-close-to-call"); return []
            T.probe(f"rounds-{want['rounds']}")
            if want["kind"] != o.kind():
                return [{"sig": "control-outcome", "msg": f"operation {k}: ends as {o.kind()} with {S1}, step by step control ends as {want['kind']} with {want['S']}"}]
            if want["kind"] == "success" and [list(x) for x in S1] != [list(x) for x in want["S"]]:
                return [{"sig": "control-state", "msg": f"operation {k}: devices end as {S1}, step by step control ends with {want['S']}"}]
    return []

def shrink(s):
    for i in range(len(s["ops"])):
        if len(s["ops"]) > 1:
            c = copy.deepcopy(s); del c["ops"][i]; yield c
    for i, o in enumerate(s["ops"]):
        for j in range(len(o.get("plan", []))):
            c = copy.deepcopy(s); del c["ops"][i]["plan"][j]; yield c
    yield from scen.shrink_settings(s)
    if all(o["op"] == "solve" for o in s["ops"]):
        yield from scen.shrink_spec(s)
