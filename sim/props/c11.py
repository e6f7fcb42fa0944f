"""C11: homotopy ends at the original network or says that it did not."""
import copy
import numpy as np
from .. import netspec, scen
from ..fresh import describe, differ

COUNTS = {"quick": 420, "thorough": 12000}
RULE = ("a random network with homotopy on (and the same run with it off), with linear-solver faults that fail, stall or disturb the direct attempt and individual continuation "
        "steps; the relaxation in force is read off every linear system; non-trivial when continuation started or a fault fired")
REAL = ["HomotopyController, NRSolver and everything PowerFlow.execute uses"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["a matrix coefficient between two buses joined by one line differs from the direct attempt's exactly when the network is relaxed"]

def gen(rng, i, tier):
    if rng.random() < .5:
        spec = netspec.gen_tx(rng, nmax=5, stress=rng.random() < .25)
    else:
        spec = netspec.gen_dx(rng, nmax=3, stress=rng.random() < .25)
    st = netspec.gen_settings(rng, spec["kind"] == "tx")
    st["max_iters"] = rng.choice([3, 4, 5, 6, 8, 10])
    st["tolerance"] = rng.choice([1e-5, 1e-5, 1e-4, 1e-6])
    st["tx_stepping"] = True
    m = st["max_iters"]
    plan = []
    R = lambda: rng.randrange(1 << 30)
    if rng.random() < .85:          # fail the direct attempt
        plan.append({"kind": rng.choice(["abs", "abs", "one", "scale"]), "mag": 10 ** rng.uniform(-.5, 2), "seed": R(), "from": 0, "to": m})
    u = rng.random()
    if u < .3:                      # fail a whole step somewhere
        a = m + rng.randrange(1, 260)
        plan.append({"kind": rng.choice(["abs", "abs", "rand"]), "mag": 10 ** rng.uniform(1, 3), "seed": R(), "from": a, "to": a + rng.choice([m, 2 * m, 2 * m, 3 * m])})
    elif u < .45:                   # disturb some solves
        for _ in range(rng.randint(1, 4)):
            plan.append({"kind": rng.choice(["noise", "one", "scale", "stale", "abs"]), "mag": 10 ** rng.uniform(-6, 0), "seed": R(), "at": m + rng.randrange(300)})
    elif u < .6:                    # from some point on for good
        plan.append({"kind": rng.choice(["abs", "noise", "stale", "one"]), "mag": 10 ** rng.uniform(-2, 2), "seed": R(), "from": m + rng.randrange(300)})
    elif u < .66:
        plan.append({"kind": rng.choice(["nan", "raise", "inf", "zero"]), "seed": R(), "mag": 1, "at": m + rng.randrange(300)})
    return {"spec": spec, "settings": st, "plan": plan, "inf": rng.choice([None] * 9 + ["L2"])}

class Relax:
    """Reads off each linear system whether the network is relaxed."""
    def __init__(self, spec, H):
        self.spec, self.H = spec, H
        self.base = None
        self.at = None
        self.f = []

    def pairs(self):
        byname = {(b.get("name"), b.get("phase")): b["id"] for b in self.spec["buses"]}
        count = {}
        def add(a, b):
            if a is None or b is None: return
            k = (min(a, b), max(a, b)); count[k] = count.get(k, 0) + 1
        cand = []
        for l in self.spec["lines"]:
            if self.spec["kind"] == "tx":
                add(l["f"], l["t"]); cand.append((l["f"], l["t"]))
            else:
                for p in l["phases"]:
                    a, b = byname[(l["f"], p)], byname[(l["t"], p)]
                    add(a, b); cand.append((a, b))
        for l in self.spec["loads"] + self.spec.get("caps", []): add(l["f"], l["t"])
        for x in self.spec["xfmrs"]: add(x["fp"], x["tp"]); add(x["fp"], x["fn"])
        return [c for c in cand if count[(min(c), max(c))] == 1 and c[0] != c[1]]

    def __call__(self, k, A, b):
        r = None
        try:
            if self.base is None:
                for f, t in self.pairs():
                    i, j = self.H["buses"][f].node_Vr, self.H["buses"][t].node_Vr
                    if A[i, j] != 0:
                        self.at = (i, j); self.base = A[i, j]; break
                else:
                    self.base = 0
            if self.at: r = float(A[self.at] / self.base)
        except Exception:
            r = None
        self.f.append(r)

def run(s, T):
    st = s["settings"]
    off = dict(st); off["tx_stepping"] = False
    net0, H0 = netspec.build(s["spec"]); netspec.attach_infeasibility(net0, s["inf"])
    W0 = Relax(s["spec"], H0)
    o0 = scen.execute(net0, off, T, s["plan"], on_solve=W0)
    if o0.budget: return [{"sig": "unbounded", "msg": "without homotopy the solve exceeds its iteration limit"}]
    if any(r is not None and abs(r - 1) > 1e-6 for r in W0.f):
        return [{"sig": "relaxed-when-off", "msg": "a relaxed network was solved although homotopy is off"}]
    net, H = netspec.build(s["spec"]); netspec.attach_infeasibility(net, s["inf"])
    W = Relax(s["spec"], H)
    answers = []
    o = None
    def hook(k, A, b):
        W(k, A, b)
        answers.append((lin_prev(), lin_fired()))
    lin_prev = lambda: hookstate["lin"].prev if hookstate.get("lin") else None
    lin_fired = lambda: hookstate["lin"].last_fault_at if hookstate.get("lin") else -1
    hookstate = {}
    from ..lin import Lin
    from ..trace import BudgetExceeded, SimAbort
    from logic.powerflow import PowerFlow
    o = scen.Outcome()
    lin = hookstate["lin"] = Lin(T, s["plan"], budget=scen.budget_of(st, net), on_solve=hook)
    with lin:
        try: o.res = PowerFlow(net, netspec.settings(st)).execute()
        except BudgetExceeded: o.budget = True
        except SimAbort: raise
        except (Exception, KeyboardInterrupt) as e: o.exc = e
    o.solves = lin.count; o.lin = lin
    relaxed = [r is not None and abs(r - 1) > 1e-6 for r in W.f]
    known = [r is not None for r in W.f]
    T.ev("outcome", o.kind(), o.solves, [round(r, 4) if r is not None else None for r in W.f[-3:]])
    started = any(relaxed)
    T.nontrivial = started or lin.fired > 0
    T.probe(("continued-" if started else "direct-") + o.kind())
    if o.budget: return [{"sig": "unbounded", "msg": "homotopy did not end within its budget"}]
    if o0.ok:
        d = differ(describe(o, H), describe(o0, H0), rtol=1e-12)
        if d: return [{"sig": "differs-from-off", "msg": f"the direct attempt succeeds, but with homotopy on: {d}"}]
    if o0.kind() == "raise" and o.exc is None:
        return [{"sig": "differs-from-off", "msg": f"the direct attempt raises {type(o0.exc).__name__}, with homotopy on it ends as {o.kind()}"}]
    # a continuation step that surely failed must be the last
    m = st["max_iters"]
    start = 0
    for k in range(1, len(W.f) + 1):
        if k == len(W.f) or W.f[k] != W.f[start]:
            if k < len(W.f) and all(known) and start > 0 and k - start >= m:
                x, fired_at = answers[k]
                f = lin.find(k - 1)
                if fired_at == k - 1 and f and f["kind"] in ("abs", "rand") and f["mag"] >= 10:
                    return [{"sig": "went-on-after-failure", "msg": f"the step of solves {start}..{k-1} did not converge, but another step follows"}]
            start = k
    if o.res is not None:
        tx = float(o.res.tx_percent)
        if not (0 <= tx <= 1 + 1e-9):
            return [{"sig": "remainder", "msg": f"reports a homotopy remainder of {tx}"}]
        if o.ok:
            if tx != 0: return [{"sig": "remainder", "msg": f"success with a homotopy remainder of {tx}"}]
            if relaxed[-1]: return [{"sig": "relaxed-success", "msg": "success, but the last network solved was a relaxed one"}]
            return scen.check_operating_point(scen.sync_devices(s["spec"], H), net, H, o.res, st)
        if known[-1] and relaxed[-1] and tx < 1e-6:
            return [{"sig": "remainder", "msg": "failed on a relaxed network, but reports nothing remaining"}]
        if known[-1] and not relaxed[-1] and started and tx > 1e-6:
            return [{"sig": "remainder", "msg": f"failed on the original network, but reports a remainder of {tx}"}]
        if o.res.is_success is None or bool(o.res.is_success):
            return [{"sig": "flag", "msg": "no clear success flag"}]
    return []

def shrink(s):
    yield from scen.shrink_plan(s)
    if s["inf"]:
        c = copy.deepcopy(s); c["inf"] = None; yield c
    for k in list(s["settings"]):
        if k not in ("tolerance", "max_iters", "tx_stepping"):
            c = copy.deepcopy(s); del c["settings"][k]; yield c
    yield from scen.shrink_spec(s)
