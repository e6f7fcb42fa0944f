"""Shared pieces of scenarios: solve a spec under a linear-solver plan, and the operating-point oracle."""
import math
import copy
import numpy as np
from . import netspec, physics
from .lin import Lin
from .trace import SimAbort, BudgetExceeded

def budget_of(st, net=None):
    """Linear solves a solve may take. Without automatic devices in the network there is one device-control round."""
    runs = 1 + (101 if st.get("tx_stepping") else 0)
    auto = net is None or any(c.mode.value != "MANUAL" for c in getattr(net, "capacitors", []))
    return st.get("max_iters", 50) * runs * (10 if auto and st.get("device_control", True) else 1)

class Outcome:
    """success: True/False, or exc: the exception of the solve."""
    def __init__(self):
        self.exc = None; self.res = None; self.solves = 0; self.budget = False

    @property
    def ok(self):
        return self.res is not None and bool(self.res.is_success)

    def kind(self):
        if self.budget: return "budget"
        if self.exc is not None: return "raise"
        return "success" if self.ok else "failure"

def execute(net, st, T, plan=(), on_solve=None, pf=None, extra_budget=0):
    """PowerFlow(net, settings).execute() with the linear solver under the plan."""
    from logic.powerflow import PowerFlow
    o = Outcome()
    lin = Lin(T, plan, budget=budget_of(st, net) + extra_budget, on_solve=on_solve)
    with lin:
        try:
            if pf is None:
                pf = PowerFlow(net, netspec.settings(st))
            o.res = pf.execute()
        except BudgetExceeded:
            o.budget = True
        except SimAbort:
            raise
        except (Exception, KeyboardInterrupt) as e:
            o.exc = e
    o.solves = lin.count
    o.lin = lin
    T.ev("outcome", o.kind(), o.solves, type(o.exc).__name__ if o.exc else None)
    return o

def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))

def check_operating_point(spec, net, H, res, st, tag=""):
    """-> list of violations of: a successful result is an operating point, and reports that point."""
    V = []
    tol = st.get("tolerance", 1e-5)
    def bad(sig, msg):
        V.append({"sig": sig, "msg": (tag + " " + msg).strip()})
    if not finite(res.v_final):
        bad("not-finite", "a successful result contains non-finite values")
        return V
    volt = physics.voltages(res, H)
    inf = physics.infeasibility(res, net)
    e = physics.evaluate(spec, volt, inf)
    lim = tol * math.sqrt(e["rows"]) * 1.01 + 2e-12 * e["scale"] * e["rows"]
    if not e["res"] <= lim:
        bad("imbalance", f"success reported, but the network equations are violated by {e['res']:.3e} (allowed {lim:.3e})")
    if not e["cons"] <= tol * 1.01 + 1e-9 * max(1.0, max(abs(x) for x in volt.values())):
        bad("setpoint", f"success reported, but a voltage setpoint is missed by {e['cons']:.3e}")
    mr = float(res.max_residual)
    if not (mr < tol or abs(mr) <= tol * (1 + 1e-9)):
        bad("residual-reported", f"success reported with a maximum residual of {mr:.3e}, tolerance {tol:.1e}")
    # the reported results restate the solution
    byid = {b["id"]: b for b in spec["buses"]}
    seen = set()
    for br in res.bus_results:
        i = br.bus.Bus
        seen.add(i)
        z = volt[i]
        if abs(complex(br.V_r, br.V_i) - z) > 1e-9 * max(1, abs(z)) or abs(br.V_mag - abs(z)) > 1e-9 * max(1, abs(z)):
            bad("bus-result", f"bus {i} reported as {br.V_r}+{br.V_i}j ({br.V_mag}), solution is {z}")
        elif abs(z) > 1e-6 and abs(((br.V_deg - math.degrees(math.atan2(z.imag, z.real))) + 180) % 360 - 180) > 1e-6:
            bad("bus-result", f"bus {i} angle reported as {br.V_deg}, solution is {z}")
    want = {i for i, b in byid.items() if not b.get("virtual")}
    if seen != want:
        bad("bus-result", f"buses reported {sorted(seen)[:9]}, expected {sorted(want)[:9]}")
    if e["res"] <= lim and not V:
        vmax = max(abs(z) for z in volt.values())
        if inf is None:
            slack = [g for g in res.generator_results if g.type_str == "Slack"]
            if len(slack) != len(spec["slack"]):
                bad("slack-result", f"{len(slack)} slack results for {len(spec['slack'])} slacks")
            for g, S, s in zip(slack, e["slack"], spec["slack"]):
                got = complex(g.P, g.Q)
                allow = (lim * 4) * abs(volt[s["bus"]]) + 1e-5 * abs(S)
                if min(abs(got - S), 1e300) > allow:
                    bad("slack-result", f"slack at bus {s['bus']} reported as {got}, solution gives {S}")
            pv = [g for g in res.generator_results if g.type_str == "PV"]
            for g, q, s in zip(pv, e["genq"], spec.get("gens", [])):
                if abs(g.P + s["P"]) > 1e-9 or abs(g.Q - q) > 4 * lim * 2 + 1e-5 * abs(q):
                    bad("gen-result", f"generator at bus {s['bus']} reported as P={g.P}, Q={g.Q}; solution gives P={-s['P']}, Q={q}")
        for lr, l in zip(res.load_results, spec["loads"]):
            if abs(lr.P - l["P"]) > 1e-9 or abs(lr.Q - l["Q"]) > 1e-9:
                bad("load-result", f"load reported as {lr.P},{lr.Q}, is {l['P']},{l['Q']}")
    return V

def sync_devices(spec, H):
    """A copy of the spec with the device states the network now has."""
    s = copy.deepcopy(spec)
    for c, o in zip(s.get("caps", []), H["caps"]):
        c["switch"] = o.switch.value
    for f, o in zip(s.get("fuses", []), H["fuses"]):
        f["status"] = o.status.value
    for x, o in zip(s.get("switches", []), H["switches"]):
        x["status"] = o.status.value
    for r, o in zip(s.get("regs", []), H["regs"]):
        r["tap"] = o.tap_position
    return s

def gen_plan(rng, horizon=12, kinds=None, n=None):
    """A random set of linear-solver faults, biased to the first iterations."""
    kinds = kinds or ["noise", "noise", "abs", "one", "one", "scale", "zero", "stale", "swap", "nan", "allnan", "inf", "rand",
                      "raise", "raise_mem", "raise_linalg", "raise_intr"]
    plan = []
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2, 3])):
        f = {"kind": rng.choice(kinds), "mag": 10 ** rng.uniform(-9, 3), "seed": rng.randrange(1 << 30)}
        if f["kind"] in ("noise", "one", "scale", "abs") and rng.random() < .6:
            f["mag"] = 10 ** rng.uniform(-7, -1)
        if rng.random() < .7:
            f["at"] = rng.randrange(horizon)
        else:
            f["from"] = rng.randrange(horizon)
            if rng.random() < .6: f["to"] = f["from"] + rng.randint(1, 10)
        plan.append(f)
    return plan

def shrink_list(scn, key):
    for i in range(len(scn.get(key, []))):
        c = copy.deepcopy(scn); del c[key][i]; yield c

def shrink_spec(scn, key="spec"):
    # big steps first: drop all optional elements of a kind
    for k in ("loads", "gens", "shunts", "caps"):
        if len(scn[key].get(k, [])) > 1:
            c = copy.deepcopy(scn); c[key][k] = c[key][k][:1]; yield c
            c = copy.deepcopy(scn); c[key][k] = []; yield c
    for s in netspec.drop_candidates(scn[key]):
        c = copy.deepcopy(scn); c[key] = s; yield c

def shrink_settings(scn):
    for k in list(scn["settings"]):
        if k not in ("tolerance", "max_iters"):
            c = copy.deepcopy(scn); del c["settings"][k]; yield c

def shrink_plan(scn, key="plan"):
    yield from shrink_list(scn, key)
    for i, f in enumerate(scn.get(key, [])):
        if "from" in f:
            c = copy.deepcopy(scn); g = c[key][i]; g["at"] = g.pop("from"); [g.pop(k, None) for k in ("to", "every", "on")]; yield c
        if f["kind"] not in ("zero", "nan", "raise"):
            for k in ("zero",):
                c = copy.deepcopy(scn); c[key][i]["kind"] = k; yield c
