"""C18: the order in which a grid is put together, and the names and numbers in it, make no difference."""
import copy, io, os, random, re
from .. import cases, corpus, env, netspec, scen
from ..fresh import Fresh, describe
from .c03 import SAME, gen_same, tame

COUNTS = {"quick": 420, "thorough": 16000}
RULE = ("one or two grids, each described once plainly and one to three times otherwise (elements and records in another order, buses, nodes and devices renumbered or renamed, ends of lines, switches, fuses and phase-to-phase loads "
        "exchanged, phases of a line listed in another order, columns of load files exchanged), built step by step in one process with the steps of all of them interleaved, or read from files, and solved in an arbitrary order under the same "
        "linear-solver faults; each is compared, element by element, with the plain description alone in a fresh process; non-trivial when at least two descriptions are solved and compared")
REAL = ["model classes and their matrix numbering, readers, solver, device control, time series"]
STUB = ["none; the linear solver is intercepted"]
ASSUMPTIONS = ["exchanging the ends of a line, switch or fuse, or of a phase-to-phase load (with the sign of its constant current), describes the same element", "sums in another order differ by rounding: solves that end at a threshold to within rounding are not compared"]

# ------------------------------------------------------------------ the same grid described otherwise

def relabel(spec, v):
    """-> (spec with the variant's labels and ends, {old id: new id})"""
    s = copy.deepcopy(spec)
    r = random.Random(v["seed"])
    ids = {b["id"]: b["id"] for b in s["buses"]}
    if v.get("numbers"):
        new = r.sample(range(1, 3 * len(ids) + 900), len(ids))
        ids = dict(zip(ids, new))
    names = {}
    if v.get("names") and s["kind"] == "dx":
        pool = NAMES[:]; r.shuffle(pool)
        for b in s["buses"]:
            if b["name"] not in names: names[b["name"]] = pool[len(names) % len(pool)] + str(len(names) if r.random() < .5 or len(names) >= len(pool) else "")
        if len(set(names.values())) < len(names): names = {}
    I = lambda x: None if x is None else ids[x]
    for b in s["buses"]:
        b["id"] = I(b["id"])
        if "name" in b: b["name"] = names.get(b["name"], b["name"])
    for key, fields in (("slack", ["bus"]), ("gens", ["bus"]), ("shunts", ["bus"]), ("loads", ["f", "t"]), ("xfmrs", ["fp", "fn", "tp", "tn"]), ("cts", ["f", "pri", "s1", "t1", "s2", "t2"]),
                        ("regs", ["f", "t", "cur"]), ("switches", ["f", "t"]), ("fuses", ["f", "t", "mid"]), ("caps", ["f", "t"])):
        for e in s.get(key, []):
            for k in fields: e[k] = I(e[k])
    for l in s.get("lines", []):
        if s["kind"] == "tx": l["f"], l["t"] = I(l["f"]), I(l["t"])
        else: l["f"], l["t"] = names.get(l["f"], l["f"]), names.get(l["t"], l["t"])
    if v.get("ends"):
        for key in ("lines", "switches", "fuses"):
            for e in s.get(key, []):
                if r.random() < .5: e["f"], e["t"] = e["t"], e["f"]
        for e in s["loads"]:
            if e["t"] is not None and r.random() < .5: e["f"], e["t"] = e["t"], e["f"]; e["IP"], e["IQ"] = -e["IP"], -e["IQ"]
    if v.get("phases") and s["kind"] == "dx":
        for l in s["lines"]:
            p = list(range(len(l["phases"]))); r.shuffle(p)
            l["phases"] = "".join(l["phases"][k] for k in p)
            for m in ("Z", "Y"):
                if l.get(m): l[m] = [[l[m][a][b] for b in p] for a in p]
            if l.get("amp"): l["amp"] = [l["amp"][k] for k in p]
    return s, ids

NAMES = ["load", "node", "meter_7", "a", "Z", "bus1_bus2", "R1-12-47-1_node_", "fuse", "swing", "source", "ground", "n", "N1", "x_A", "y_B", "triplex", "tr_1_2", "gnd_C", "q-1", "from", "to", "Bus10", "Bus1", "Bus100"]

def build_steps(spec):
    """-> (network, handles, steps): the construction of the network taken apart into one step per element. Steps before the mark are the buses."""
    kinds = netspec.ORDER
    bare = {"kind": spec["kind"], "buses": []}
    net, H = netspec.build(bare)
    steps = []
    def bus(k, b):
        def go():
            one, h = netspec.build({"kind": spec["kind"], "buses": [b]})
            H["buses"][b["id"]] = h["buses"][b["id"]]
            net.buses += one.buses
            if spec["kind"] == "dx": net.bus_name_map.update(one.bus_name_map)
        return go
    def element(key, k, e):
        def go():
            netspec.add(net, H, spec["kind"], key, e, k)
        return go
    first = [bus(k, b) for k, b in enumerate(spec["buses"])]
    for key in kinds:
        H[key] = [None] * len(spec.get(key, []))
        for k, e in enumerate(spec.get(key, [])): steps.append(element(key, k, e))
    return net, H, first, steps

def ordered(spec, v):
    net, H, first, steps = build_steps(spec)
    r = random.Random(v["seed"] + 1)
    if v.get("order"): r.shuffle(first); r.shuffle(steps)
    return net, H, first + steps

# ------------------------------------------------------------------ files

REF = r"^(\s*(?:name|from|to|parent|configuration|conductor_\w+|spacing|line_\w+|sense_node|remote_sense\w*|regulator|capacitor)\s+)\"?([^\s;\"]+)\"?\s*;"

def pieces(text):
    """-> (head lines, objects as lists of lines)"""
    head = []; blocks = []; cur = []; depth = 0; obj = False
    for line in text.split("\n"):
        code = line.split("//")[0]
        if depth == 0: obj = re.match(r"\s*object\b", code) is not None
        d = code.count("{") - code.count("}")
        if depth == 0 and d == 0 and not obj: head.append(line); continue
        cur.append(line); depth += d
        if depth == 0 and "}" in code: blocks.append(cur) if obj else head.extend(cur); cur = []
    return head + cur, blocks

def glm_variant(text, v):
    """-> (text, {old name: new name})"""
    r = random.Random(v["seed"])
    head, blocks = pieces(text.replace("\r\n", "\n"))
    names = {}
    if v.get("names"):
        pool = [n for n in NAMES if "_" not in n[-1:]]; r.shuffle(pool)
        old = [m.group(2) for b in blocks for line in b for m in [re.match(REF, line)] if m and m.group(1).strip() == "name"]
        for k, n in enumerate(old): names.setdefault(n, pool[k % len(pool)] + "x" + str(k))
        blocks = [[re.sub(REF, lambda m: m.group(1) + names.get(m.group(2), m.group(2)) + ";", line) for line in b] for b in blocks]
    flat = [b for b in blocks if sum(line.split("//")[0].count("{") for line in b) == 1 and "}" not in b[0] and b[-1].split("//")[0].strip(" ;") == "}"]
    if v.get("order"):
        for b in flat:
            body = b[1:-1]; r.shuffle(body); b[1:-1] = body
        r.shuffle(blocks)
    if v.get("layout"):
        for b in flat:
            b[:] = [re.sub(r"^[ \t]+", r.choice(["", "\t", "      "]), line) for line in b]
            if r.random() < .4: b.insert(r.randint(1, len(b) - 1), "// another line")
            if r.random() < .3: b[-1] += "\n" * r.randint(1, 3)
    return "\n".join(head + ["\n".join(b) for b in blocks]) + "\n", names

def raw_variant(spec, v):
    """-> (spec, {old number: new number})"""
    s = copy.deepcopy(spec)
    r = random.Random(v["seed"])
    ids = {b["i"]: b["i"] for b in s["buses"]}
    if v.get("numbers"): ids = dict(zip(ids, r.sample(range(1, 90000), len(ids))))
    for key in ("buses", "loads", "shunts", "gens", "lines", "xfmrs", "sshunts"):
        for e in s.get(key, ()):
            for k in ("i", "j"):
                if k in e: e[k] = ids[e[k]]
        if v.get("order") and s.get(key): s[key] = r.sample(s[key], len(s[key]))
    if v.get("ends"):
        for e in s["lines"]:
            if r.random() < .5: e["i"], e["j"] = e["j"], e["i"]
    return s, ids

def series_csv(cols, hours, scale, extra, seed):
    r = random.Random(seed)
    cols = list(cols)
    names = cols + (["spare", "hour"] if extra else [])
    if seed: r.shuffle(names)
    val = {c: [round(1000.0 * scale * (1 + .3 * k + .17 * ((h * 7 + k) % 5)), 3) for h in range(hours)] for k, c in enumerate(cols)}
    return "\n".join([",".join(names)] + [",".join(str(val[n][h]) if n in val else str(h) for n in names) for h in range(hours)]) + "\n"

def read_and_solve(req):
    """Write the case, read it, solve it; results by element."""
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    from ..lin import Lin
    from ..trace import Trace
    T = req.get("T") or Trace()
    path = os.path.join(req["dir"], req["name"])
    with open(path, "w") as f: f.write(req["text"])
    if req.get("csv"):
        with open(path + ".csv", "w") as f: f.write(req["csv"])
    st = netspec.settings(req["settings"])
    lin = Lin(T, req["plan"])
    glm = req["name"].endswith(".glm")
    def row(net, r):
        out = {"ok": bool(r.is_success), "iters": int(r.iterations)}
        if out["ok"]:
            key = (lambda b: f"{b.NodeName}:{b.NodePhase}") if glm else (lambda b: str(b.Bus))
            out["v"] = {key(b.bus): [float(b.V_r), float(b.V_i)] for b in r.bus_results}
            out["gen"] = sorted([str(g.type_str), key(g.generator.bus), float(g.P), float(g.Q)] for g in r.generator_results)
            out["load"] = sorted([key(l.load.from_bus), float(l.P), float(l.Q)] for l in r.load_results)
            out["rated"] = bool(getattr(r, "violates_equipment_ratings", False))
        return out
    try:
        net = NetworkLoader(st).from_file(path)
        with lin:
            pf = PowerFlow(net, st)
            if req.get("csv"):
                from logic.network.timeseriesprocessor import TimeSeriesProcessor
                from logic.network.timeseriessettings import TimeSeriesSettings
                q = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=path + ".csv", loadfile_start=0, loadfile_end=req["hours"]), pf).execute()
                res = [row(net, q.powerflow_snapshot_results[h]) for h in sorted(q.powerflow_snapshot_results)]
            else: res = [row(net, pf.execute())]
        return {"rows": res, "solves": lin.count}
    except (Exception, KeyboardInterrupt) as e:
        return {"exc": type(e).__name__, "solves": lin.count}

# ------------------------------------------------------------------ scenarios

def gen_variant(rng):
    v = {"seed": rng.randrange(1 << 30)}
    for k, p in (("order", .7), ("numbers", .4), ("names", .4), ("ends", .4), ("phases", .4), ("layout", .4)):
        if rng.random() < p: v[k] = True
    if len(v) == 1: v["order"] = True
    return v

def gen(rng, i, tier):
    grids = []
    for _ in range(rng.choice([1, 1, 2])):
        vs = [gen_variant(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < .62:
            spec = netspec.gen_net(rng, stress_p=.08, auto=rng.random() < .3)
            st = netspec.gen_settings(rng, spec["kind"] == "tx")
            inf = rng.choice([None, None, None, "L2", "L1"])
            tame(st, inf == "L1")
            g = {"kind": "built", "spec": spec, "settings": st, "inf": inf}
        else:
            spec = cases.gen(rng, n=rng.randint(2, 6))
            if rng.random() < .25: cases.gen_offsets(rng, spec)
            own = [n for n in corpus.listing(20000 if tier == "quick" else 60000) if n.endswith(".glm")]
            if own and rng.random() < .35: spec = {"fmt": "glm", "own": rng.choice(own)}
            g = {"kind": "file", "spec": spec, "settings": {"tolerance": 1e-6}}
            if spec["fmt"] == "glm" and not spec.get("own") and rng.random() < .5:
                g["hours"] = rng.randint(1, 3); g["extra"] = rng.random() < .5; g["scale"] = round(rng.uniform(.5, 20), 2)
        g["variants"] = vs; g["plan"] = gen_same(rng) if rng.random() < .25 else []
        grids.append(g)
    return {"grids": grids, "seed": rng.randrange(1 << 30)}

def plain(req):
    from ..trace import Trace
    if req["kind"] == "file": return read_and_solve(req["req"])
    net, H = netspec.build(req["spec"])
    netspec.attach_infeasibility(net, req["inf"])
    return told(scen.execute(net, req["settings"], Trace(), req["plan"]), net, H, {b["id"]: b["id"] for b in req["spec"]["buses"]})

def told(o, net, H, ids):
    """An outcome in the terms of the plain description."""
    d = {"kind": o.kind(), "exc": type(o.exc).__name__ if o.exc else None, "solves": o.solves}
    if o.res is None: return d
    v = o.res.v_final
    d["iters"] = int(o.res.iterations); d["tx"] = float(o.res.tx_percent); d["res"] = float(o.res.max_residual)
    d["v"] = {str(old): [float(v[H["buses"][new].node_Vr]), float(v[H["buses"][new].node_Vi])] for old, new in ids.items()}
    back = {new: old for old, new in ids.items()}
    d["bus"] = sorted(back[b.bus.Bus] for b in o.res.bus_results)
    for name, key, rows, what in (("gen", "gens", o.res.generator_results, "generator"), ("slack", "slack", o.res.generator_results, "generator"), ("load", "loads", o.res.load_results, "load")):
        at = {id(x): k for k, x in enumerate(H[key])}
        d[name] = sorted([at[id(getattr(g, what))], float(g.P), float(g.Q)] for g in rows if id(getattr(g, what)) in at)
    d["state"] = [[x.status.value for x in H["fuses"]], [x.switch.value for x in H["caps"]], [x.tap_position for x in H["regs"]]]
    return d

def differ(a, b, tol, coarse=False):
    """First difference between two outcomes, or None. coarse: the iterates differ, only what they converge to is the same."""
    if a["kind"] != b["kind"]: return f"outcome {a['kind']} ({a['exc']}) instead of {b['kind']} ({b['exc']})"
    if a["kind"] == "raise": return None if a["exc"] == b["exc"] else f"raises {a['exc']} instead of {b['exc']}"
    if a["kind"] != "success": return None
    if a["state"] != b["state"]: return f"devices end at {a['state']} instead of {b['state']}"
    if a["bus"] != b["bus"]: return "results for other buses"
    if abs(a["tx"] - b["tx"]) > 1e-9: return f"homotopy remainder {a['tx']} instead of {b['tx']}"
    scale = max([1e-9] + [max(map(abs, z)) for z in b["v"].values()])
    rt = 1e-6 if a["iters"] == b["iters"] and not coarse else max(1e-4, 100 * tol)
    for k, z in b["v"].items():
        y = a["v"][k]
        if max(abs(y[0] - z[0]), abs(y[1] - z[1])) > rt * scale: return f"bus {k} at {y} instead of {z}"
    if abs(a["iters"] - b["iters"]) > 1: return f"{a['iters']} iterations instead of {b['iters']}"
    for name in ("gen", "slack", "load"):
        if len(a[name]) != len(b[name]): return f"{len(a[name])} {name} results instead of {len(b[name])}"
        if (a["iters"] != b["iters"] or coarse) and name != "load": continue
        s = max([1e-6] + [max(abs(x[1]), abs(x[2])) for x in b[name]])
        for x, y in zip(a[name], b[name]):
            if x[0] != y[0] or max(abs(x[1] - y[1]), abs(x[2] - y[2])) > 1e-4 * s + 1e-5: return f"{name} {y[0]} reported as {x[1:]} instead of {y[1:]}"
    return None

def differ_file(a, b, names, glm):
    if ("exc" in a) != ("exc" in b) or a.get("exc") != b.get("exc"): return f"{a.get('exc', 'an answer')} instead of {b.get('exc', 'an answer')}"
    if "exc" in a: return None
    def back(k):
        if not glm: return names.get(k, k)
        n, p = k.rsplit(":", 1)
        return names.get(n, n) + ":" + p
    for h, (x, y) in enumerate(zip(a["rows"], b["rows"])):
        if x["ok"] != y["ok"]: return f"snapshot {h}: success {x['ok']} instead of {y['ok']}"
        if not x["ok"]: return None
        v = {back(k): z for k, z in x["v"].items()}
        if set(v) != set(y["v"]): return f"snapshot {h}: buses {sorted(set(v) ^ set(y['v']))[:4]} only in one of them"
        if abs(x["iters"] - y["iters"]) > 1: return f"snapshot {h}: {x['iters']} iterations instead of {y['iters']}"
        rt = 1e-6 if x["iters"] == y["iters"] else 1e-3
        scale = {True: {}, False: {}}
        for k, z in y["v"].items():
            if abs(complex(*v[k]) - complex(*z)) > rt * max(abs(complex(*z)), 1e-3): return f"snapshot {h}: {k} at {v[k]} instead of {z}"
        for name, f in (("gen", lambda r: r[1]), ("load", lambda r: r[0])):
            p = sorted([[back(f(r))] + r[-2:] for r in x[name]]); q = sorted([[f(r)] + r[-2:] for r in y[name]])
            if len(p) != len(q): return f"snapshot {h}: {len(p)} {name} results instead of {len(q)}"
            s = max([1e-6] + [max(abs(r[1]), abs(r[2])) for r in q])
            if name == "gen" and x["iters"] != y["iters"]: continue
            for r, w in zip(p, q):
                if r[0] != w[0] or max(abs(r[1] - w[1]), abs(r[2] - w[2])) > 1e-4 * s + 1e-5: return f"snapshot {h}: {name} at {w[0]} reported as {r[1:]} instead of {w[1:]}"
    return None

def run(s, T):
    import sim.props.c18 as me
    F = Fresh(plain)
    r = random.Random(s["seed"])
    works = []        # (grid, variant index, steps, solve)
    T.nontrivial = False
    for gi, g in enumerate(s["grids"]):
        for vi, v in enumerate(g["variants"]):
            if g["kind"] == "built":
                spec, ids = relabel(g["spec"], v)
                net, H, steps = ordered(spec, v)
                works.append({"g": gi, "v": vi, "net": net, "H": H, "ids": ids, "steps": steps, "at": 0})
            else: works.append({"g": gi, "v": vi, "steps": [], "at": 0})
    answers = {}
    left = list(range(len(works)))
    order = []
    while left:
        k = r.choice(left)
        w = works[k]; g = s["grids"][w["g"]]; v = g["variants"][w["v"]]
        if w["at"] < len(w["steps"]):
            n = r.choice([1, 1, 2, 5, 50])
            for step in w["steps"][w["at"]:w["at"] + n]: step()
            w["at"] += n; order.append(k)
            continue
        left.remove(k); order.append(-k - 1)
        if g["kind"] == "built":
            netspec.attach_infeasibility(w["net"], g["inf"])
            o = scen.execute(w["net"], g["settings"], T, g["plan"])
            got = told(o, w["net"], w["H"], w["ids"])
            want = answers.get(w["g"]) or F.ask({"kind": "built", "spec": g["spec"], "settings": g["settings"], "inf": g["inf"], "plan": g["plan"]})
            answers[w["g"]] = want
            T.probe(f"built-{got['kind']}" + ("-disturbed" if o.lin.fired else ""))
            d = differ(got, want, g["settings"]["tolerance"], bool(v.get("ends") and g["spec"].get("fuses")))
        else:
            glm = g["spec"]["fmt"] == "glm"
            own = g["spec"].get("own")
            text = corpus.text(own) if own else cases.text(g["spec"]); names = {}; cols = []
            if glm:
                text2, names = glm_variant(text, v)
                cols = [f"cl_{{n{l['n']}}}{ph}" for l in g["spec"].get("loads", ()) for ph, p, q in l["pq"]]
            else:
                sp, names = raw_variant(g["spec"], v); text2 = cases.text(sp); names = {str(b): str(a) for a, b in names.items()}
            num = lambda n: n.split("_")[-1]
            def csv(m, seed):
                return series_csv([re.sub(r"\{(\w+)\}", lambda x: num(m.get(x.group(1), x.group(1))), c) for c in cols], g["hours"], g["scale"], g["extra"], seed) if g.get("hours") and cols else None
            base = {"settings": g["settings"], "plan": g["plan"], "hours": g.get("hours"), "dir": me.RUNDIR}
            got = read_and_solve(dict(base, T=T, name=f"v{k}{cases.suffix(g['spec'])}", text=text2, csv=csv(names, v["seed"] or 1)))
            want = answers.get(w["g"]) or F.ask({"kind": "file", "req": dict(base, name=f"p{w['g']}{cases.suffix(g['spec'])}", text=text, csv=csv({}, 0))})
            answers[w["g"]] = want
            T.ev("read", k, got.get("exc"), got["solves"])
            T.probe(f"{'own-' if own else ''}{'glm' if glm else 'raw'}-{got.get('exc', 'read')}" + ("-series" if base["hours"] else ""))
            d = differ_file(got, want, {b: a for a, b in names.items()} if glm else names, glm)
        T.ev("compared", w["g"], w["v"], d)
        if len(answers) or len(order) > 1: T.nontrivial = len([x for x in order if x < 0]) > 1 or len(s["grids"][0]["variants"]) >= 1
        if d: return [{"sig": "described-otherwise", "msg": f"grid {w['g']}, description {w['v']} ({', '.join(sorted(k for k in v if k != 'seed'))}): {d}"}]
    T.ev("order", order)
    return []

def shrink(s):
    if len(s["grids"]) > 1:
        for k in range(len(s["grids"])): c = copy.deepcopy(s); del c["grids"][k]; yield c
    for k, g in enumerate(s["grids"]):
        if len(g["variants"]) > 1:
            for j in range(len(g["variants"])): c = copy.deepcopy(s); del c["grids"][k]["variants"][j]; yield c
        for j, v in enumerate(g["variants"]):
            for key in ("order", "numbers", "names", "ends", "phases", "layout"):
                if v.get(key) and len(v) > 2: c = copy.deepcopy(s); del c["grids"][k]["variants"][j][key]; yield c
        for j in range(len(g["plan"])): c = copy.deepcopy(s); del c["grids"][k]["plan"][j]; yield c
        if g.get("inf"): c = copy.deepcopy(s); c["grids"][k]["inf"] = None; yield c
        if g.get("hours"): c = copy.deepcopy(s); c["grids"][k]["hours"] = None; yield c
        for key in list(g["settings"]):
            if key not in ("tolerance", "max_iters"): c = copy.deepcopy(s); del c["grids"][k]["settings"][key]; yield c
        for sp in (netspec.drop_candidates(g["spec"]) if g["kind"] == "built" else [] if g["spec"].get("own") else cases.shrinks(g["spec"])): c = copy.deepcopy(s); c["grids"][k]["spec"] = sp; yield c
