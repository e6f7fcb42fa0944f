"""C06: every hour of a time series equals a solve of that hour on its own."""
import copy, math, os
from .. import netspec, scen
from ..fresh import Fresh, solve_request, describe, differ, match_result_files
from ..lin import Lin
from ..trace import BudgetExceeded, SimAbort

COUNTS = {"quick": 450, "thorough": 20000}
TIME_UNIT = "simulated hours of load data"
RULE = ("a three-phase network and a load file over 2-8 hours with ordinary, zero, negative and infeasible hours; the series is executed one to three times, with linear-solver "
        "faults confined to chosen hours or disk-free aborts; every undisturbed hour is compared with a newly built network in a fresh process, in memory and in the written files; "
        "non-trivial when a fault fired or an hour was zero or failed before another one")
REAL = ["TimeSeriesProcessor, PowerFlow and everything below", "pandas reading the load file", "result files on a private directory"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["networks without automatic devices, which by design remember their position", "hours past the end of the load file are not compared"]

def load_name(l):
    if l["phase"].isalpha(): return f"cl_{l['num']}{l['phase']}"
    if l["phase"].isnumeric(): return f"rl_{l['num']}_{l['phase'][0]}"
    return f"{l['num']}_{l['phase']}"

def gen(rng, i, tier):
    spec = netspec.gen_dx(rng, nmax=4)
    for l in spec["lines"]:
        if rng.random() < .5: l["amp"] = [rng.choice([None, round(10 ** rng.uniform(-1, 3), 2)]) for _ in l["phases"]]
    names = {}
    for l in spec["loads"]: names.setdefault(load_name(l), l)
    # names must be unique for the file to define a load's hour
    for l in spec["loads"]:
        if names[load_name(l)] is not l: return gen(rng, i, tier)
    pq = [n for n, l in names.items() if l["P"] or l["Q"]]
    cols = [n for n in names if rng.random() < .75] or list(names)[:1]
    H = rng.randint(2, 8)
    data = {}
    hour_kind = [rng.choice(["n", "n", "n", "n", "zero", "big", "neg", "const"]) for _ in range(H)]
    for c in cols:
        l = names[c]
        base = abs(complex(l["P"], l["Q"])) or 1000.0
        col = []
        for h in range(H):
            k = hour_kind[h]
            if k == "zero" and rng.random() < .8: x = 0.0
            elif k == "big" and rng.random() < .6: x = base * rng.choice([200, 2000])
            elif k == "neg": x = -base * rng.uniform(.1, .8)
            elif k == "const" and col: x = col[-1]
            else: x = base * rng.uniform(.1, 1.3)
            col.append(round(x, 3))
        data[c] = col
    if rng.random() < .3: data["unknown_load"] = [1.0] * H
    start = rng.choice([0, 0, 0, rng.randrange(H)])
    end = rng.choice([H, H, rng.randint(start, H), H + 1])
    st = netspec.gen_settings(rng, False)
    if rng.random() < .85: st.pop("tx_stepping", None)
    st["max_iters"] = min(st["max_iters"], 20)
    if st.get("tx_stepping"):
        st["max_iters"] = min(st["max_iters"], 8); end = min(end, start + 3)
    runs = []
    for r in range(rng.choice([1, 1, 2, 3])):
        faults = {}
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                h = rng.randrange(H)
                plan = scen.gen_plan(rng, horizon=4)
                if rng.random() < .6:
                    plan = [{"kind": rng.choice(["noise", "abs", "one", "stale", "scale"]), "from": rng.randrange(3), "mag": 10 ** rng.uniform(-3, 1), "seed": rng.randrange(1 << 30)}]
                faults[str(h)] = plan
        runs.append({"faults": faults})
    return {"spec": spec, "settings": st, "data": data, "start": start, "end": end, "runs": runs, "inf": rng.choice([None, None, None, "L2"]), "out": rng.random() < .7}

def hour_spec(spec, data, hour):
    s = copy.deepcopy(spec)
    for l in s["loads"]:
        n = load_name(l)
        if n in data and hour < len(data[n]):
            a = math.atan2(l["Q"], l["P"]); m = data[n][hour]
            l["P"] = m * math.cos(a); l["Q"] = m * math.sin(a)
    return s

MARK = "VIOLATED EQUIPMENT RATINGS"

def hour_request(req):
    """The outcome of the hour on its own, and whether its files bear the mark for violated ratings."""
    ans = solve_request(req)
    if not req["dir"] or ans["kind"] != "success": return ans
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    os.makedirs(req["dir"])
    csv = os.path.join(req["dir"], "one.csv")
    with open(csv, "w") as f: f.write("hour\n0\n")
    net, H = netspec.build(req["spec"])
    netspec.attach_infeasibility(net, req["inf"])
    out = os.path.join(req["dir"], "one")
    TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=csv, loadfile_start=0, loadfile_end=1, outputfile=out), PowerFlow(net, netspec.settings(req["settings"]))).execute()
    ans["marks"] = [open(f"{out}_0_{k}.csv").read().endswith(MARK) for k in ("voltage", "power")]
    return ans

class Aborted(Exception): pass

class HourFaults:
    """The linear solver with a fault plan per hour; solves are counted within each powerflow execution."""
    def __init__(self, T, faults, hours, budget):
        self.T, self.faults, self.hours, self.budget = T, faults, hours, budget
        self.k = -1
        self.fired = {}
        self.lin = None
        self.outcome = []

    def __enter__(self):
        import logic.powerflow as m
        self.m = m; self.orig = m.PowerFlow.execute
        me = self
        def execute(pf):
            me.k += 1
            hour = me.hours[me.k] if me.k < len(me.hours) else None
            me.T.ev("hour", hour); me.T.sim_time += 1
            with Lin(me.T, me.faults.get(str(hour), []), budget=me.budget) as lin:
                try:
                    return me.orig(pf)
                finally:
                    if lin.fired: me.fired[hour] = lin.fired
        m.PowerFlow.execute = execute
        return self

    def __exit__(self, *a):
        self.m.PowerFlow.execute = self.orig
        return False

def run(s, T):
    import sim.props.c06 as me
    F = Fresh(hour_request)
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    d = me.RUNDIR
    csv = os.path.join(d, "loads.csv")
    H = len(next(iter(s["data"].values())))
    with open(csv, "w") as f:
        f.write(",".join(s["data"]) + "\n")
        for h in range(H): f.write(",".join(str(s["data"][c][h]) for c in s["data"]) + "\n")
    net, handles = netspec.build(s["spec"])
    netspec.attach_infeasibility(net, s["inf"])
    pf = PowerFlow(net, netspec.settings(s["settings"]))
    hours = list(range(s["start"], s["end"]))
    out = os.path.join(d, "res") if s["out"] else None
    proc = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=csv, loadfile_start=s["start"], loadfile_end=s["end"], outputfile=out), pf)
    want = {}
    T.nontrivial = any(s["data"][c][h] == 0 for c in s["data"] for h in hours[:-1] if h < H)
    for r, rd in enumerate(s["runs"]):
        HF = HourFaults(T, rd["faults"], hours, scen.budget_of(s["settings"], net))
        exc = None; res = None
        with HF:
            try: res = proc.execute()
            except BudgetExceeded: return [{"sig": "unbounded", "msg": "a solve did not end"}]
            except SimAbort: raise
            except (Exception, KeyboardInterrupt) as e: exc = e
        T.ev("series", r, type(exc).__name__ if exc else None, sorted(map(str, HF.fired)))
        if HF.fired: T.nontrivial = True
        def expect(h):
            if h not in want: want[h] = F.ask({"spec": hour_spec(s["spec"], s["data"], h), "settings": s["settings"], "inf": s["inf"], "dir": out and os.path.join(d, f"alone{h}")})
            return want[h]
        if exc is not None:
            # fine if this hour's faults, or this hour itself, make it raise
            h = hours[HF.k] if 0 <= HF.k < len(hours) else None
            T.probe("series-raised")
            if h is None or (h not in HF.fired and h < H and expect(h)["kind"] != "raise"):
                return [{"sig": "hour-raised", "msg": f"run {r}: hour {h} raised {type(exc).__name__}: {exc}, though it solves on its own"}]
            continue
        got = res.powerflow_snapshot_results
        if list(got) != hours:
            return [{"sig": "hours", "msg": f"run {r}: results for hours {list(got)}, requested {hours}"}]
        for h in hours:
            if h >= H: T.probe("past-the-file"); continue
            if h in HF.fired: T.probe("disturbed"); continue
            o = scen.Outcome(); o.res = got[h]
            g = describe(o, handles); w = expect(h)
            T.probe("hour-" + w["kind"])
            if w["kind"] == "failure": T.nontrivial = True
            df = differ(g, w, rtol=1e-6)
            if df: return [{"sig": "hour", "msg": f"run {r}, hour {h}: {df} (on its own)"}]
            if out:
                df = match_result_files(f"{out}_{h}", w)
                if df: return [{"sig": "hour-file", "msg": f"run {r}, hour {h}: {df}"}]
                if "marks" in w:
                    marks = [open(f"{out}_{h}_{k}.csv").read().endswith(MARK) for k in ("voltage", "power")]
                    T.probe("rated-" + str(w["marks"][0]))
                    if marks != w["marks"]: return [{"sig": "hour-mark", "msg": f"run {r}, hour {h}: marks for violated ratings in the two files {marks}, {w['marks']} on its own"}]
    return []

def shrink(s):
    for i in range(len(s["runs"])):
        if len(s["runs"]) > 1:
            c = copy.deepcopy(s); del c["runs"][i]; yield c
    for i, r in enumerate(s["runs"]):
        for h in r["faults"]:
            c = copy.deepcopy(s); del c["runs"][i]["faults"][h]; yield c
    if s["end"] - s["start"] > 1:
        c = copy.deepcopy(s); c["end"] -= 1; yield c
        c = copy.deepcopy(s); c["start"] += 1; yield c
    if s["inf"]: c = copy.deepcopy(s); c["inf"] = None; yield c
    if s["out"]: c = copy.deepcopy(s); c["out"] = False; yield c
    if len(s["data"]) > 1:
        for n in list(s["data"]):
            c = copy.deepcopy(s); del c["data"][n]; yield c
    yield from scen.shrink_settings(s)
