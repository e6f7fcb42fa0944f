"""C10: generator balancing ends with a truly idle swing bus, or an error."""
import copy, math, os
from .. import netspec, scen, physics
from ..lin import Lin
from ..trace import BudgetExceeded, SimAbort
from .c06 import load_name

COUNTS = {"quick": 1800, "thorough": 30000}
RULE = ("a microgrid with an artificial swing bus of one to three phases at any angle and a negative load per phase, balanced on its own or per hour of a load file, once or "
        "repeatedly, with linear-solver faults at any solve; loads are watched at every snapshot; non-trivial when at least one adjustment was made or a fault fired")
REAL = ["TimeSeriesProcessor, PowerFlow and everything below", "pandas reading the load file"]
STUB = ["none; the linear solver is intercepted"]
TIME_UNIT = "snapshots"
ASSUMPTIONS = ["power is recomputed from the network equations at the returned voltages, to within the solver tolerance times the voltage"]
MAX_SNAPSHOTS = 101
NEG = "99"

def gen(rng, i, tier):
    spec = netspec.gen_dx(rng, nmax=4, fuses=False, caps=rng.random() < .3, auto=False)
    src = [b for b in spec["buses"] if b["name"] == "src"]
    phases = [b["phase"] for b in src]
    byname = {}
    for b in spec["buses"]:
        if not b["virtual"]: byname.setdefault(b["name"], {})[b["phase"]] = b
    full = [n for n, m in byname.items() if all(p in m for p in phases)]
    at = rng.choice(full)
    for p in phases:
        b = byname[at][p]
        s = b["vm"] ** 2 * .002 * rng.uniform(0, 2)
        spec["loads"].append({"f": b["id"], "t": None, "P": -round(s, 2), "Q": round(-s * rng.uniform(-.3, .6), 2), "Z": None, "IP": 0, "IQ": 0, "num": NEG, "phase": p})
    rng.shuffle(spec["loads"])
    # sources with an initial angle that is consistent with their bus
    st = netspec.gen_settings(rng, False)
    st["max_iters"] = min(st["max_iters"], 15)
    if rng.random() < .93: st.pop("tx_stepping", None)
    else: st["max_iters"] = 8
    s = {"spec": spec, "settings": st, "hours": None, "runs": []}
    if rng.random() < .3:
        names = [load_name(l) for l in spec["loads"] if l["num"] != NEG]
        if len(set(names)) == len(names) and names:
            H = rng.randint(1, 3)
            s["hours"] = {}
            for l in spec["loads"]:
                if l["num"] == NEG or rng.random() < .4: continue
                base = abs(complex(l["P"], l["Q"])) or 1000.0
                s["hours"][load_name(l)] = [round(base * rng.choice([0, .3, .7, 1.0, 1.2, 300]), 3) for _ in range(H)]
            if not s["hours"]: s["hours"] = None
    for r in range(rng.choice([1, 1, 2])):
        plan = []
        if rng.random() < .55:
            plan = scen.gen_plan(rng, horizon=rng.choice([6, 15, 40]))
            if rng.random() < .35:
                plan.append({"kind": rng.choice(["noise", "abs", "one", "scale", "stale"]), "from": rng.randrange(12), "mag": 10 ** rng.uniform(-8, 0), "seed": rng.randrange(1 << 30)})
        s["runs"].append({"plan": plan})
    return s

def run(s, T):
    import sim.props.c10 as me
    import logic.powerflow as pm
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    st = s["settings"]
    net, H = netspec.build(s["spec"])
    pf = PowerFlow(net, netspec.settings(st))
    csv = None; end = 0
    if s["hours"]:
        csv = os.path.join(me.RUNDIR, "loads.csv")
        end = len(next(iter(s["hours"].values())))
        with open(csv, "w") as f:
            f.write(",".join(s["hours"]) + "\n")
            for h in range(end): f.write(",".join(str(s["hours"][c][h]) for c in s["hours"]) + "\n")
    proc = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=csv, loadfile_start=0, loadfile_end=end, artificialswingbus="src", negativeloads=[f"load_{NEG}"]), pf)
    neg = [k for k, l in enumerate(s["spec"]["loads"]) if l["num"] == NEG]
    def loads(): return [(o.P, o.Q, o.Z, o.IP, o.IQ) for o in H["loads"]]
    orig = pm.PowerFlow.execute
    T.nontrivial = False
    for r, rd in enumerate(s["runs"]):
        snaps = []; bad = []
        before_run = loads()
        last = {"res": None, "loads": before_run, "ended": None}
        def check_change(when):
            now = loads()
            ch = [k for k in neg if now[k] != last["loads"][k]]
            if ch and snaps and last["ended"] != "success":
                bad.append({"sig": "failed-snapshot-used", "msg": f"run {r}: negative load changed {when} after a snapshot that ended as {last['ended']}"})
            if ch: T.probe("adjusted"); T.nontrivial = True
            last["loads"] = now
        def execute(me_):
            check_change(f"before snapshot {len(snaps)}")
            T.sim_time += 1
            last["ended"] = "raise"
            snaps.append(None)
            res = orig(me_)
            last["ended"] = "success" if res.is_success else "failure"
            snaps[-1] = (res, {k: loads()[k] for k in range(len(H["loads"]))})
            T.ev("snapshot", len(snaps), last["ended"])
            return res
        pm.PowerFlow.execute = execute
        lin = Lin(T, rd["plan"], budget=scen.budget_of(st, net) * (MAX_SNAPSHOTS + 1) * max(1, end))
        exc = res = None
        try:
            with lin:
                res = proc.execute()
        except BudgetExceeded:
            return [{"sig": "unbounded", "msg": f"run {r}: balancing did not end"}]
        except SimAbort: raise
        except (Exception, KeyboardInterrupt) as e: exc = e
        finally: pm.PowerFlow.execute = orig
        check_change("at the end")
        T.ev("balanced", r, len(snaps), type(exc).__name__ if exc else None)
        T.probe("raised" if exc else "returned"); T.probe(f"snapshots-{min(9, len(snaps))}" + ("+" if len(snaps) > 9 else ""))
        if lin.fired: T.nontrivial = True
        elif T.nontrivial and not T.faults: T.fault("adjustment")
        if bad: return bad[:2]
        if len(snaps) > MAX_SNAPSHOTS * max(1, end):
            return [{"sig": "unbounded", "msg": f"run {r}: {len(snaps)} snapshots"}]
        now = loads()
        if not s["hours"]:
            for k, (a, b) in enumerate(zip(before_run, now)):
                if k not in neg and a != b:
                    return [{"sig": "other-load-changed", "msg": f"run {r}: load {k}, which is no designated negative load, went from {a} to {b}"}]
        if exc is not None: continue
        finals = [(None, res)] if not s["hours"] else list(res.powerflow_snapshot_results.items())
        for hour, fr in finals:
            mine = next((x[1] for x in snaps if x and x[0] is fr), None)
            if not fr.is_success:
                T.probe("result-failure"); continue
            if mine is None: continue
            spec = copy.deepcopy(s["spec"])
            for k, l in enumerate(spec["loads"]): l["P"], l["Q"] = mine[k][0], mine[k][1]
            if s["hours"]:
                # every load but the negative ones holds exactly this hour's value
                for k, l in enumerate(s["spec"]["loads"]):
                    if k in neg: continue
                    n = load_name(l)
                    if n in s["hours"]:
                        a = math.atan2(l["Q"], l["P"]); m = s["hours"][n][hour]; w = (m * math.cos(a), m * math.sin(a))
                    else: w = (l["P"], l["Q"])
                    if abs(mine[k][0] - w[0]) + abs(mine[k][1] - w[1]) > 1e-6 * (1 + abs(w[0]) + abs(w[1])):
                        return [{"sig": "other-load-changed", "msg": f"run {r}, hour {hour}: load {k} solved with {mine[k][:2]}, is {w}"}]
            volt = {i: complex(float(fr.v_final[b.node_Vr]), float(fr.v_final[b.node_Vi])) for i, b in H["buses"].items()}
            spec = scen.sync_devices(spec, H)
            e = physics.evaluate(spec, volt)
            lim = st.get("tolerance", 1e-5) * math.sqrt(e["rows"]) + 2e-12 * e["scale"] * e["rows"]
            if e["res"] > 1.01 * lim:
                return [{"sig": "not-operating-point", "msg": f"run {r}, hour {hour}: result misses the network equations by {e['res']:.3e}"}]
            tot = sum(abs(x) for x in e["slack"])
            vmax = max(abs(volt[x["bus"]]) for x in spec["slack"])
            T.probe("idle")
            if tot > .1 + 4 * lim * vmax * len(spec["slack"]):
                return [{"sig": "swing-not-idle", "msg": f"run {r}, hour {hour}: success, but the swing bus exchanges {tot:.4f} VA in total"}]
    return []

def shrink(s):
    for i in range(len(s["runs"])):
        if len(s["runs"]) > 1:
            c = copy.deepcopy(s); del c["runs"][i]; yield c
        for j in range(len(s["runs"][i]["plan"])):
            c = copy.deepcopy(s); del c["runs"][i]["plan"][j]; yield c
    if s["hours"]:
        c = copy.deepcopy(s); c["hours"] = None; yield c
    yield from scen.shrink_settings(s)
    for k, l in enumerate(s["spec"]["loads"]):
        if l["num"] != NEG and not s["hours"]:
            c = copy.deepcopy(s); del c["spec"]["loads"][k]; yield c
