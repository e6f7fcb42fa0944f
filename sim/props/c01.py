"""C01: a success is an operating point, whatever the linear solver does."""
import copy
from .. import netspec, scen

COUNTS = {"quick": 1500, "thorough": 60000}
RULE = ("a random transmission or three-phase network (bus count, element kinds, loading, angles), random solver settings, optional L1/L2 "
        "infeasibility analysis, and a random plan of linear-solver faults; non-trivial when at least one fault fired during the solve")
REAL = ["all of logic/ and models/ used by PowerFlow.execute (stamping, Newton-Raphson, homotopy, device control, results)", "numpy, scipy (answers corrupted after the real solve)"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["the reference equations in sim/physics.py state what each element means", "sampling: absence of violations is evidence, not proof"]

def gen(rng, i, tier):
    spec = netspec.gen_net(rng, stress_p=.15, auto=rng.random() < .15)
    st = netspec.gen_settings(rng, spec["kind"] == "tx")
    inf = rng.choice([None, None, None, None, "L2", "L1"])
    mode = rng.random()
    if mode < .15:
        plan = []
    elif mode < .35:
        # place a fault on what is likely the last solve
        plan = [{"kind": rng.choice(["noise", "one", "zero", "stale", "scale", "inf", "abs"]), "at": rng.randrange(1, 7), "mag": 10 ** rng.uniform(-7, 1), "seed": rng.randrange(1 << 30)}]
    elif mode < .5:
        plan = [{"kind": rng.choice(["noise", "one", "scale", "abs", "stale"]), "from": rng.randrange(8), "mag": 10 ** rng.uniform(-10, 0), "seed": rng.randrange(1 << 30)}]
    else:
        plan = scen.gen_plan(rng)
    return {"spec": spec, "settings": st, "inf": inf, "plan": plan}

def run(s, T):
    net, H = netspec.build(s["spec"])
    netspec.attach_infeasibility(net, s["inf"])
    o = scen.execute(net, s["settings"], T, s["plan"])
    T.probe("success" if o.ok else o.kind())
    if o.ok and o.lin.fired: T.probe("success-after-fault")
    if o.budget:
        return [{"sig": "unbounded", "msg": "the solve exceeded its iteration budget"}]
    if not o.ok:
        return []
    spec = scen.sync_devices(s["spec"], H)
    T.ev("v", "%.12e" % float(abs(o.res.v_final).sum()))
    return scen.check_operating_point(spec, net, H, o.res, s["settings"])

def shrink(s):
    yield from scen.shrink_plan(s)
    if s["inf"]:
        c = copy.deepcopy(s); c["inf"] = None; yield c
    yield from scen.shrink_settings(s)
    yield from scen.shrink_spec(s)
