"""Networks as JSON: random generation, and construction through the repository's public classes.

A spec is independent of the repository; physics.py computes what the network means from the spec alone.
Bus references are integers (ids); None is ground.
"""
import math
import copy

A120 = -2 * math.pi / 3

# ------------------------------------------------------------------ construction

ORDER = ["slack", "loads", "gens", "lines", "xfmrs", "cts", "switches", "shunts", "regs", "fuses", "caps"]

def build(spec):
    """-> (network, handles). Imports at call time: the repository's modules may have been replaced."""
    from models.components.bus import Bus
    from logic.network.networkmodel import TxNetworkModel, DxNetworkModel

    tx = spec["kind"] == "tx"
    net = TxNetworkModel() if tx else DxNetworkModel()
    H = {"buses": {}}
    for b in spec["buses"]:
        if tx:
            bus = Bus(b["id"], 1, b["vm"], b["va"], 1)
        else:
            bus = Bus(b["id"], 1, b["vm"], b["va"], None, b["name"], b["phase"], b.get("virtual", False))
            net.bus_name_map[b["name"] + "_" + b["phase"]] = bus
        H["buses"][b["id"]] = bus
        net.buses.append(bus)
    for key in ORDER:
        if key == "shunts" and not tx or key in ("regs", "fuses", "caps") and tx: H[key] = []; continue
        H[key] = [None] * len(spec.get(key, []))
        for k, e in enumerate(spec.get(key, [])): add(net, H, spec["kind"], key, e, k)
    return net, H

def add(net, H, kind, key, e, k):
    """Construct one element of a spec and put it into the network; its buses are there already."""
    from models.components.bus import GROUND
    from models.components.slack import Slack
    from models.components.load import Load
    from models.components.generator import Generator
    from models.components.line import Line
    from models.components.shunt import Shunt
    from models.components.transformer import Transformer
    from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
    from models.components.regulator import Regulator, RegType, RegControl
    from models.components.switch import Switch, SwitchStatus
    from models.components.fuse import Fuse, FuseStatus
    from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState
    from models.components.unbalanced_line import UnbalancedLine

    tx = kind == "tx"
    def B(i):
        return GROUND if i is None else H["buses"][i]

    if key == "slack":
        s = e
        o = Slack(B(s["bus"]), s["vset"], s["ang"], s.get("pinit", 0), s.get("qinit", 0)); net.slack.append(o)
    elif key == "loads":
        l = e
        z = complex(*l["Z"]) if l.get("Z") else 0
        o = Load(B(l["f"]), B(l["t"]), l["P"], l["Q"], z, l.get("IP", 0), l.get("IQ", 0), l.get("num"), l.get("phase"), l.get("tphase")); net.loads.append(o)
    elif key == "gens":
        g = e
        o = Generator(B(g["bus"]), g["P"], g["vset"], g.get("qmax", 1.0), g.get("qmin", -1.0), g.get("pmax", 2), g.get("pmin", 0), g.get("qinit", 0.0), None, 100, "PV"); net.generators.append(o)
    elif key == "lines":
        l = e
        if tx:
            o = Line(B(l["f"]), B(l["t"]), l["r"], l["x"], l["b"], True, None, None, None)
        else:
            z = [[complex(*c) for c in row] for row in l["Z"]]
            sh = [[complex(*c) for c in row] for row in l["Y"]] if l.get("Y") else None
            o = UnbalancedLine(net, z, sh, l["f"], l["t"], l["length"], l["phases"], list(l.get("amp") or [None] * len(l["phases"])))
        net.lines.append(o)
    elif key == "xfmrs":
        x = e
        o = Transformer(B(x["fp"]), B(x["fn"]), B(x["tp"]), B(x["tn"]), x["r"], x["x"], True, x["tr"], x["ang"], 0, 0, None); net.transformers.append(o)
    elif key == "cts":
        c = e
        coils = []
        for j in range(3):
            coils.append(CenterTapTransformerCoil(c["vn"][j], c["rating"], None, None, c["r"][j], c["x"][j]))
        coils[0].from_node = B(c["f"]); coils[0].primary_node = B(c["pri"])
        coils[1].sending_node = B(c["s1"]); coils[1].to_node = B(c["t1"])
        coils[2].sending_node = B(c["s2"]); coils[2].to_node = B(c["t2"])
        o = CenterTapTransformer(coils[0], coils[1], coils[2], c.get("phase", "A"), c["tr"], c["rating"], 0, 0); net.transformers.append(o)
    elif key == "switches":
        s = e
        o = Switch(B(s["f"]), B(s["t"]), SwitchStatus[s["status"]], s.get("phase", "A")); net.switches.append(o)
    elif key == "shunts":
        s = e
        o = Shunt(B(s["bus"]), s["G"], s["B"], 0, 0, 0, 0, 0, 0, None); net.shunts.append(o)
    elif key == "regs":
        r = e
        o = Regulator(B(r["f"]), B(r["t"]), B(r["cur"]), r["tap"], r["step"], RegType[r["type"]], RegControl[r.get("control", "MANUAL")],
                      r.get("vlow", 0), r.get("vhigh", 1e9), r.get("raise", 16), r.get("lower", 16)); net.regulators.append(o)
    elif key == "fuses":
        f = e
        o = Fuse(B(f["f"]), B(f["t"]), B(f["mid"]), f["limit"], FuseStatus[f.get("status", "GOOD")], f.get("phase", "A")); net.fuses.append(o)
    elif key == "caps":
        c = e
        o = Capacitor(B(c["f"]), B(c["t"]), c["var"], c["vn"], CapacitorMode[c["mode"]], c.get("high"), c.get("low"))
        if c.get("switch"):
            o.switch = CapSwitchState[c["switch"]]
        net.capacitors.append(o)
    H[key][k] = o

def attach_infeasibility(net, mode):
    if mode == "L2":
        from models.optimization.L2infeasibility import load_infeasibility_analysis
    elif mode == "L1":
        from models.optimization.L1infeasibility import load_infeasibility_analysis
    else:
        net.optimization = None
        return
    net.optimization = load_infeasibility_analysis(net)

def settings(s):
    from logic.powerflowsettings import PowerFlowSettings
    return PowerFlowSettings(**s)

# ------------------------------------------------------------------ generation

def gen_settings(rng, tx, small=False):
    s = {"tolerance": rng.choice([1e-5, 1e-5, 1e-6, 1e-4, 1e-3]), "max_iters": rng.choice([50, 50, 30, 15, 10, 60, 120])}
    if rng.random() < .3:
        s["debug"] = True
    if tx and rng.random() < .4:
        s["voltage_limiting"] = True
    if tx and rng.random() < .4:
        s["flat_start"] = True
    if rng.random() < .3:
        s["tx_stepping"] = True
    if rng.random() < .2:
        s["device_control"] = False
    return s

def gen_tx(rng, nmax=7, stress=False, switches=True):
    n = rng.randint(2, nmax)
    buses = [{"id": i + 1, "vm": round(rng.uniform(.97, 1.05), 4), "va": round(rng.uniform(-.1, .1), 4)} for i in range(n)]
    buses[0]["va"] = 0.0
    spec = {"kind": "tx", "buses": buses, "slack": [], "loads": [], "gens": [], "lines": [], "xfmrs": [], "shunts": [], "switches": []}
    ids = [b["id"] for b in buses]
    spec["slack"].append({"bus": 1, "vset": round(rng.uniform(.98, 1.06), 4), "ang": rng.choice([0, 0, round(rng.uniform(-1, 1), 3)]),
                          "pinit": round(rng.uniform(0, 50), 2), "qinit": round(rng.uniform(-20, 20), 2)})
    buses[0]["va"] = spec["slack"][0]["ang"]
    for b in buses[1:]:
        b["va"] = round(buses[0]["va"] + rng.uniform(-.1, .1), 4)

    def branch(f, t, p_x=.25, p_sw=.08):
        u = rng.random()
        if u < p_x:
            spec["xfmrs"].append({"fp": f, "fn": None, "tp": t, "tn": None, "r": round(rng.uniform(.001, .02), 5), "x": round(rng.uniform(.03, .2), 5),
                                  "tr": round(rng.uniform(.93, 1.07), 4), "ang": rng.choice([0, 0, round(rng.uniform(-10, 10), 2)])})
        elif switches and u < p_x + p_sw:
            spec["switches"].append({"f": f, "t": t, "status": "CLOSED"})
        else:
            spec["lines"].append({"f": f, "t": t, "r": round(rng.uniform(.002, .06), 5), "x": round(rng.uniform(.02, .25), 5), "b": rng.choice([0, round(rng.uniform(0, .1), 4)])})
    for i in range(1, n):
        branch(ids[rng.randrange(i)], ids[i])
    for _ in range(rng.randint(0, n // 2)):
        f, t = rng.sample(ids, 2)
        branch(f, t, .15, 0)
    heavy = 4.0 if stress else 1.0
    genb = set()
    for b in ids[1:]:
        if rng.random() < .2 and b not in genb and not any(s["f"] == b or s["t"] == b for s in spec["switches"]):
            genb.add(b)
            spec["gens"].append({"bus": b, "P": round(rng.uniform(.05, .4), 4), "vset": round(rng.uniform(.98, 1.04), 4), "qinit": round(rng.uniform(-.1, .1), 3)})
    for b in ids[1:]:
        for _ in range(rng.choice([0, 1, 1, 2])):
            u = rng.random()
            l = {"f": b, "t": None, "P": 0, "Q": 0, "Z": None, "IP": 0, "IQ": 0}
            if u < .75:
                l["P"] = round(rng.uniform(-.05, .35) * heavy, 4); l["Q"] = round(rng.uniform(-.08, .15) * heavy, 4)
            if u > .65 and u < .85:
                l["Z"] = [round(rng.uniform(3, 15), 3), round(rng.uniform(-3, 5), 3)]
            if u > .8:
                l["IP"] = round(rng.uniform(-.05, .2), 4); l["IQ"] = round(rng.uniform(-.1, .1), 4)
            spec["loads"].append(l)
        if rng.random() < .2:
            spec["shunts"].append({"bus": b, "G": round(rng.uniform(0, 3), 3), "B": round(rng.uniform(-10, 15), 3)})
    return spec

PH = {"A": 0.0, "B": A120, "C": -A120, "1": 0.0, "2": math.pi}

class DxGen:
    def __init__(self, rng):
        self.rng = rng
        self.spec = {"kind": "dx", "buses": [], "slack": [], "loads": [], "lines": [], "xfmrs": [], "cts": [], "regs": [],
                     "switches": [], "fuses": [], "caps": []}
        self.next = 1
        self.nodes = {}     # name -> {"vn":, "ph": {phase: id}, "rot":}
        self.lnum = 1

    def bus(self, name, phase, vm, va, virtual=False):
        i = self.next; self.next += 1
        self.spec["buses"].append({"id": i, "name": name, "phase": phase, "vm": vm, "va": va, "virtual": virtual})
        return i

    def node(self, name, phases, vn, rot=0.0):
        self.nodes[name] = {"vn": vn, "rot": rot, "ph": {p: self.bus(name, p, vn, PH[p] + rot) for p in phases}}
        return name

    def line(self, f, t, phases):
        r = self.rng
        n = len(phases)
        base = r.uniform(.15, .6)
        Z = [[[0, 0] for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    z = [round(base * r.uniform(.9, 1.1), 5), round(base * r.uniform(1.5, 2.5), 5)]
                else:
                    z = [round(base * r.uniform(.2, .35), 5), round(base * r.uniform(.5, .8), 5)]
                Z[i][j] = z; Z[j][i] = list(z)
        Y = None
        if r.random() < .3:
            Y = [[[0, (round(r.uniform(2e-6, 6e-6), 9) if i == j else round(-r.uniform(2e-7, 1e-6), 9))] for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(i):
                    Y[i][j] = list(Y[j][i])
        self.spec["lines"].append({"f": f, "t": t, "phases": phases, "Z": Z, "Y": Y, "length": round(r.uniform(.1, 1.2), 4)})

    def load(self, f, t, vn, kva, num=None, phase="A", heavy=1.0):
        r = self.rng
        kinds = r.choice(["pq", "pq", "pq", "z", "i", "pqz", "pqi", "zi"])
        s = kva * r.uniform(.3, 1.0) * heavy
        pf = r.uniform(.75, 1.0) * (1 if r.random() < .9 else -1)
        q = s * math.sqrt(max(0, 1 - pf * pf)) * (1 if r.random() < .85 else -1)
        l = {"f": f, "t": t, "P": 0, "Q": 0, "Z": None, "IP": 0, "IQ": 0, "num": str(num if num is not None else self.lnum), "phase": phase}
        self.lnum += 1
        vb = self.vdiff(f, t)
        if "pq" in kinds:
            l["P"] = round(s * pf, 3); l["Q"] = round(q, 3)
        if "z" in kinds:
            zm = abs(vb) ** 2 / (s + 1)
            l["Z"] = [round(zm * .9, 4), round(zm * .35, 4)]
        if kinds in ("i", "pqi", "zi"):
            cur = complex(s * .5, q * .3) / vb
            cur = complex(cur.real, -cur.imag)
            l["IP"] = round(cur.real, 5); l["IQ"] = round(cur.imag, 5)
        self.spec["loads"].append(l)

    def vdiff(self, f, t):
        b = {x["id"]: x for x in self.spec["buses"]}
        import cmath
        v = cmath.rect(b[f]["vm"], b[f]["va"])
        if t is not None:
            v -= cmath.rect(b[t]["vm"], b[t]["va"])
        return v if abs(v) > 1e-6 else complex(1, 0)

def gen_dx(rng, nmax=5, stress=False, auto=False, fuses=True, triplex=True, phases=None, pq_named=False, swing_angle=None, caps=True):
    """auto: voltage-controlled capacitors and limiting fuses; otherwise devices are manual / far from their limits."""
    g = DxGen(rng)
    vn = rng.choice([2401.7, 7199.6, 277.0])
    phases = phases or rng.choice(["ABC", "ABC", "ABC", "A", "AB", "C", "AC"])
    rot = swing_angle if swing_angle is not None else rng.choice([0, 0, 0, round(rng.uniform(-1.5, 1.5), 3)])
    src = g.node("src", phases, vn, rot)
    for p in phases:
        g.spec["slack"].append({"bus": g.nodes[src]["ph"][p], "vset": round(vn * rng.uniform(.99, 1.03), 2), "ang": PH[p] + rot})
    names = [src]
    kva_line = vn * vn * .004
    n = rng.randint(1, nmax)
    for k in range(n):
        f = rng.choice(names)
        fn = g.nodes[f]
        php = "".join(fn["ph"])
        if any(p in "12" for p in php):
            f = src; fn = g.nodes[f]; php = "".join(fn["ph"])
        u = rng.random()
        name = f"n{k}"
        if u < .45:
            sub = php if rng.random() < .7 else "".join(sorted(rng.sample(php, rng.randint(1, len(php)))))
            g.node(name, sub, fn["vn"], fn["rot"]); g.line(f, name, sub)
        elif u < .57:
            tr = rng.choice([.5, 1.0, 2.0, 8.66, 15.0])
            v2 = fn["vn"] / tr
            if v2 < 100: tr = 1.0; v2 = fn["vn"]
            if v2 > 20000: tr = 1.0; v2 = fn["vn"]
            ang = rng.choice([0, 0, 30, -30, round(rng.uniform(-20, 20), 1)])
            g.node(name, php, v2, fn["rot"] - math.radians(ang))
            zb = v2 * v2 / (v2 * v2 * .02)
            for p in php:
                g.spec["xfmrs"].append({"fp": fn["ph"][p], "fn": None, "tp": g.nodes[name]["ph"][p], "tn": None,
                                        "r": round(zb * rng.uniform(.004, .02), 5), "x": round(zb * rng.uniform(.01, .06), 5), "tr": tr, "ang": ang})
        elif u < .63 and len(php) == 3:
            # delta (phase to phase) primary, grounded wye secondary
            tr = rng.choice([1.7320508, 3.4641016])
            v2 = fn["vn"] * math.sqrt(3) / tr
            g.node(name, php, v2, fn["rot"] + math.radians(30))
            order = "ABC"
            for i, p in enumerate(order):
                q = order[(i + 1) % 3]
                g.spec["xfmrs"].append({"fp": fn["ph"][p], "fn": fn["ph"][q], "tp": g.nodes[name]["ph"][p], "tn": None,
                                        "r": round(rng.uniform(.2, .9), 4), "x": round(rng.uniform(.5, 2), 4), "tr": tr, "ang": 0})
        elif u < .75:
            g.node(name, php, fn["vn"], fn["rot"])
            for p in php:
                g.spec["switches"].append({"f": fn["ph"][p], "t": g.nodes[name]["ph"][p], "status": "CLOSED", "phase": p})
        elif u < .83 and fuses:
            g.node(name, php, fn["vn"], fn["rot"])
            for p in php:
                mid = g.bus(f"{f}-{name}-Fuse", p, .1, .1, True)
                g.spec["fuses"].append({"f": fn["ph"][p], "t": g.nodes[name]["ph"][p], "mid": mid, "limit": 1e6, "status": "GOOD", "phase": p})
        elif u < .92:
            g.node(name, php, fn["vn"], fn["rot"])
            step = .00625
            for p in php:
                cur = g.bus(f"{f}-{name}-Reg", p, .1, .1, True)
                g.spec["regs"].append({"f": fn["ph"][p], "t": g.nodes[name]["ph"][p], "cur": cur, "tap": rng.randint(-8, 8), "step": step,
                                       "type": rng.choice("AB"), "control": rng.choice(["MANUAL", "OUTPUT_VOLTAGE"]),
                                       "vlow": fn["vn"] * .98, "vhigh": fn["vn"] * 1.02})
        elif triplex:
            p = rng.choice(php)
            v2 = 120.0
            tr = fn["vn"] / v2
            name = f"t{k}"
            g.node(name, "12", v2)
            b1, b2 = g.nodes[name]["ph"]["1"], g.nodes[name]["ph"]["2"]
            a = PH[p] + fn["rot"]
            for b in g.spec["buses"]:
                if b["id"] == b1: b["va"] = a
                if b["id"] == b2: b["va"] = a + math.pi
            pri = g.bus(f"{f}-{name}-pri", p, fn["vn"], a, True)
            s1 = g.bus(f"{name}-s1", "1", v2, a, True)
            s2 = g.bus(f"{name}-s2", "2", v2, a + math.pi, True)
            g.spec["cts"].append({"f": fn["ph"][p], "pri": pri, "s1": s1, "t1": b1, "s2": s2, "t2": b2, "tr": tr, "rating": 25000.0,
                                  "vn": [fn["vn"], v2, v2], "r": [.006, .012, .012], "x": [.0136, .0204, .0204], "phase": p})
            heavy = 6 if stress else 1
            g.load(b1, None, v2, 4000, phase="1", heavy=heavy)
            if rng.random() < .6: g.load(b2, None, v2, 4000, phase="2", heavy=heavy)
            if rng.random() < .4: g.load(b1, b2, 2 * v2, 4000, phase="12", heavy=heavy)
            continue
        else:
            g.node(name, php, fn["vn"], fn["rot"]); g.line(f, name, php)
        names.append(name)
        nd = g.nodes[name]
        heavy = 12 if stress and rng.random() < .5 else 1
        if rng.random() < .75:
            if len(nd["ph"]) >= 2 and rng.random() < .25:
                pl = list(nd["ph"])
                for i in range(len(pl) if len(pl) == 3 else 1):
                    p, q = pl[i], pl[(i + 1) % len(pl)]
                    g.load(nd["ph"][p], nd["ph"][q], nd["vn"], nd["vn"] ** 2 * .002, phase=p + q, heavy=heavy)
            else:
                num = g.lnum
                for p in nd["ph"]:
                    if rng.random() < .85:
                        g.load(nd["ph"][p], None, nd["vn"], nd["vn"] ** 2 * .003, num=num, phase=p, heavy=heavy)
        if caps and rng.random() < .25:
            for p in nd["ph"]:
                c = {"f": nd["ph"][p], "t": None, "var": round(nd["vn"] ** 2 * rng.uniform(.0005, .003), 2), "vn": nd["vn"], "mode": "MANUAL",
                     "switch": rng.choice(["OPEN", "CLOSED"]), "high": None, "low": None}
                g.spec["caps"].append(c)
    if auto:
        for nd in g.nodes.values():
            for p in nd["ph"]:
                if p in "ABC" and rng.random() < .35:
                    lo = nd["vn"] * rng.uniform(.93, 1.02)
                    hi = lo + nd["vn"] * rng.uniform(.0, .05)
                    g.spec["caps"].append({"f": nd["ph"][p], "t": None, "var": round(nd["vn"] ** 2 * rng.uniform(.001, .02), 2), "vn": nd["vn"],
                                           "mode": "VOLT", "switch": rng.choice(["OPEN", "CLOSED"]), "high": round(hi, 3), "low": round(lo, 3)})
        for f in g.spec["fuses"]:
            if rng.random() < .6:
                f["limit"] = round(10 ** rng.uniform(-1, 3), 3)
    if not g.spec["loads"]:
        nd = g.nodes[names[-1]]
        for p in nd["ph"]:
            g.load(nd["ph"][p], None, nd["vn"], nd["vn"] ** 2 * .003, phase=p)
    return g.spec

def gen_net(rng, stress_p=.1, **kw):
    stress = rng.random() < stress_p
    if rng.random() < .45:
        return gen_tx(rng, stress=stress)
    return gen_dx(rng, stress=stress, **kw)

# ------------------------------------------------------------------ shrinking a spec

def connected_ids(spec):
    adj = {}
    def e(a, b):
        if a is None or b is None: return
        adj.setdefault(a, set()).add(b); adj.setdefault(b, set()).add(a)
    return adj

def drop_candidates(spec):
    """Specs with one optional element removed (keeps connectivity of loads, shunts, caps, gens only)."""
    for key in ("loads", "gens", "shunts", "caps"):
        for i in range(len(spec.get(key, []))):
            s = copy.deepcopy(spec)
            del s[key][i]
            yield s
