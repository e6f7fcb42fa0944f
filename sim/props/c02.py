"""C02: small or discarded early solver errors are ridden out; every solve ends within its budget."""
import copy
import numpy as np
from .. import netspec, scen, physics

COUNTS = {"quick": 1100, "thorough": 40000}
RULE = ("recovery runs: a random network and settings solved without faults and, if that succeeds, again with small solver errors in the first iterations "
        "(or arbitrary finite errors confined to a discarded direct attempt before homotopy); budget runs: arbitrary, also persistent, solver errors; "
        "non-trivial when at least one fault fired")
REAL = ["all of logic/ and models/ used by PowerFlow.execute", "numpy, scipy (answers corrupted after the real solve)"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["'small' means at most 0.3% relative error per answer, or a repeated earlier answer; networks with an unstressed loading",
               "sampling: absence of violations is evidence, not proof"]

def small_plan(rng):
    plan = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["noise", "noise", "one", "scale", "stale"])
        f = {"kind": k, "mag": 10 ** rng.uniform(-7, -2.6), "seed": rng.randrange(1 << 30)}
        if k == "stale":
            f["at"] = rng.choice([1, 1, 2, 2, 3, 4])
        elif rng.random() < .6:
            f["at"] = rng.choice([0, 0, 1, 1, 2, 2, 3, 4])
        else:
            f["from"] = rng.randrange(4); f["to"] = f["from"] + rng.randint(1, 4)
        plan.append(f)
    return plan

def gen(rng, i, tier):
    u = rng.random()
    if u < .6:
        mode = "recover"
    elif u < .68:
        mode = "discard"
    else:
        mode = "budget"
    spec = netspec.gen_net(rng, stress_p=0 if mode != "budget" else .3, auto=mode == "budget" and rng.random() < .4)
    st = netspec.gen_settings(rng, spec["kind"] == "tx")
    if mode == "recover":
        st["max_iters"] = rng.choice([25, 30, 50, 80])
        st["tolerance"] = rng.choice([1e-5, 1e-6])
        if rng.random() < .7: st.pop("tx_stepping", None)
        return {"mode": mode, "spec": spec, "settings": st, "plan": small_plan(rng)}
    if mode == "discard":
        st["max_iters"] = rng.choice([4, 6, 8, 12]); st["tx_stepping"] = True; st["tolerance"] = 1e-5
        return {"mode": mode, "spec": spec, "settings": st,
                "plan": [{"kind": rng.choice(["abs", "one", "scale", "noise"]), "mag": 10 ** rng.uniform(-1, 1.5), "seed": rng.randrange(1 << 30), "from": 0, "to": st["max_iters"]}]}
    if rng.random() < .3:
        # errors that come and go all through a continuation: runs that fail keep alternating with runs that succeed
        spec = netspec.gen_net(rng, stress_p=0, auto=False)
        m = rng.choice([2, 3, 3, 4, 5]); st["max_iters"] = m; st["tx_stepping"] = True; st["tolerance"] = rng.choice([1e-3, 1e-4, 1e-5])
        on = rng.choice([m, m, 2 * m, rng.randint(1, 2 * m)])
        return {"mode": mode, "spec": spec, "settings": st, "inf": None,
                "plan": [{"kind": "abs", "mag": 30.0, "seed": 77, "from": 0, "to": m},
                         {"kind": rng.choice(["scale", "abs", "one", "noise"]), "mag": 10 ** rng.uniform(-1, 1.5), "seed": rng.randrange(1 << 30),
                          "from": m + rng.randint(0, 6), "on": on, "every": on + rng.randint(1, 2 * m)}]}
    st["max_iters"] = rng.choice([3, 5, 10, 15, 30, 51, 60, 100])
    if st.get("tx_stepping") and st["max_iters"] > 15: st["max_iters"] = 8
    plan = scen.gen_plan(rng, kinds=["noise", "abs", "one", "scale", "stale", "swap", "rand", "inf", "zero", "raise"])
    if rng.random() < .5:
        plan = [{"kind": rng.choice(["noise", "abs", "one", "stale", "rand"]), "from": rng.randrange(5), "mag": 10 ** rng.uniform(-4, 1), "seed": rng.randrange(1 << 30)}]
        if rng.random() < .5: plan[0]["to"] = plan[0]["from"] + rng.randint(1, 200)
    return {"mode": mode, "spec": spec, "settings": st, "inf": rng.choice([None, None, "L2", "L1"]), "plan": plan}

def run(s, T):
    st = s["settings"]
    net, H = netspec.build(s["spec"])
    if s["mode"] == "budget":
        netspec.attach_infeasibility(net, s.get("inf"))
        o = scen.execute(net, st, T, s["plan"])
        T.probe("budget:" + o.kind())
        if o.budget:
            return [{"sig": "unbounded", "msg": f"no end after {scen.budget_of(st, net)} linear solves"}]
        return []
    o0 = scen.execute(net, st, T)
    if not o0.ok:
        T.probe("fault-free-fails"); T.nontrivial = False
        if o0.budget: return [{"sig": "unbounded", "msg": f"no end after {scen.budget_of(st, net)} linear solves, without any fault"}]
        return []
    net2, H2 = netspec.build(s["spec"])
    plan = [dict(f) for f in s["plan"]]
    if s["mode"] == "discard":
        base = o0.solves
        if base > st["max_iters"]:
            T.probe("already-homotopy"); T.nontrivial = False
            return []
        # homotopy itself must be able to solve this network from its initial voltages
        net3, H3 = netspec.build(s["spec"])
        probe = scen.execute(net3, st, T, [{"kind": "abs", "mag": 30.0, "seed": 77, "from": 0, "to": st["max_iters"]}])
        if not probe.ok:
            T.probe("homotopy-fails"); T.nontrivial = False
            return []
    o = scen.execute(net2, st, T, plan)
    if not o.lin.fired:
        T.probe("no-fault-fired")
    if s["mode"] == "discard" and o.exc is not None:
        T.probe("discard-raised")
        return []
    if s["mode"] == "discard" and not (o.solves > st["max_iters"]):
        T.probe("discard-not-failed")
    if o.budget:
        return [{"sig": "unbounded", "msg": f"no end after {scen.budget_of(st, net)} linear solves"}]
    if not o.ok:
        return [{"sig": "not-recovered", "msg": f"succeeds in {o0.solves} solves without faults, ends as {o.kind()} after {o.solves} solves with {o.lin.fired} small faults that stopped at solve {o.lin.last_fault_at}" + (f" ({type(o.exc).__name__}: {o.exc})" if o.exc else "")}]
    T.probe("recovered" if o.lin.fired else "same")
    a = physics.voltages(o0.res, H); b = physics.voltages(o.res, H2)
    vm = max(abs(z) for z in a.values())
    d = max(abs(a[k] - b[k]) for k in a)
    if not d <= 2e-3 * vm:
        return [{"sig": "other-voltages", "msg": f"recovered to voltages that differ by {d:.3e} (of {vm:.3e})"}]
    return []

def shrink(s):
    yield from scen.shrink_plan(s)
    if s.get("inf"):
        c = copy.deepcopy(s); c["inf"] = None; yield c
    yield from scen.shrink_settings(s)
    yield from scen.shrink_spec(s)
