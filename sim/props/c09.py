"""C09: the same case and settings always give the same results."""
import copy, json, os, random, shutil, subprocess, time

from .. import cases, corpus, env, netspec, zygote

COUNTS = {"quick": 320, "thorough": 20000}
TIME_UNIT = "seconds of the simulated clocks"
RULE = ("a generated or repository GLM or RAW case with random settings is loaded and solved in a plain process and in several others that differ in hash seed, derivative cache (in memory, on disk, "
        "missing, derived by another process under another hash seed), clock and its jumps, directory listing order, file location, working and temporary directory, environment variables, random state, "
        "memory layout, garbage collection and preceding work of the process; network, results, order and result files are compared; non-trivial always (every run compares different environments)")
REAL = ["the readers, the network model, the solver, time series and result files", "separately started interpreters with their own hash seeds"]
STUB = ["time and datetime (seeded clock)", "os.listdir and os.scandir (seeded order)"]
ASSUMPTIONS = ["a case file names the files it includes by absolute path", "numbers of a solve that fails or needs more than 15 iterations are not compared: there rounding may decide"]
LIMIT = 120
PROCS = [("0", "shared"), ("1", "shared"), ("4242", "cold"), ("77", "shared"), ("123456", "shared")]

def setup(log):
    import sim.props.c09 as me
    import tempfile
    me.SOCKS = []
    t = time.monotonic()
    sc = env.scratch()
    mine = os.path.join(sc, "tmp", "combined-txds-lagrange-pickler")
    for k, (hs, mode) in enumerate(PROCS):
        d = os.path.join(sc, f"z{k}"); os.makedirs(os.path.join(d, "tmp"))
        if mode == "shared" and os.path.isdir(mine): shutil.copytree(mine, os.path.join(d, "tmp", "combined-txds-lagrange-pickler"))
        e = dict(os.environ, PYTHONHASHSEED=hs, TMPDIR=os.path.join(d, "tmp"))
        e.pop("VERIF_DEV_CACHE", None)
        p = subprocess.Popen([env.PYTHON, "-W", "ignore", "-m", "sim.zygote", os.path.join(d, "s"), mode], stdin=subprocess.PIPE, env=e, cwd=env.VERIF,
                             stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL)
        me.SOCKS.append((os.path.join(d, "s"), p))
    for s, p in me.SOCKS:
        while not os.path.exists(s):
            if p.poll() is not None or time.monotonic() - t > 400: raise RuntimeError("a process under test did not start")
            time.sleep(.05)
    log(f"{len(PROCS)} interpreters with hash seeds {[p[0] for p in PROCS]} ready after {time.monotonic() - t:.1f}s")

# ------------------------------------------------------------------ scenarios

def gen_settings(rng, spec):
    s = {"max_iters": rng.choice([50, 50, 20])}
    if rng.random() < .2: s["tx_stepping"] = True
    if rng.random() < .15: s["flat_start"] = True
    if rng.random() < .15: s["voltage_limiting"] = spec == "raw"
    if rng.random() < .2: s["tolerance"] = rng.choice([1e-6, 1e-3])
    if rng.random() < .1: s["device_control"] = False
    if rng.random() < .1: s["enable_line_capacitance"] = False
    return s

def gen_case(rng, limit):
    u = rng.random()
    names = corpus.listing(limit)
    if u < .45 and names:
        n = rng.choice(names)
        return {"file": n, "fmt": "raw" if n.endswith("RAW") else "glm"}
    spec = cases.gen_raw(rng, stress=rng.choice([1, 1, 1, 4])) if rng.random() < .4 else cases.gen_glm(rng)
    if rng.random() < .4: cases.gen_offsets(rng, spec)
    return {"spec": spec, "fmt": spec["fmt"]}

def gen_env(rng, k):
    z = rng.randrange(len(PROCS))
    e = {"z": z, "random": rng.randrange(1 << 30)}
    if rng.random() < .6: e["clock"] = {"start": rng.choice([0.0, 1.0, 9.4e8, 1.7e9, 2.2e9, 4e9]) + rng.random(), "jumps": rng.random() < .6, "seed": rng.randrange(1 << 30)}
    if rng.random() < .6: e["listing"] = rng.randrange(1 << 30)
    if rng.random() < .5: e["cache"] = rng.choice(["disk", "disk", "gone"])
    if rng.random() < .4: e["gc"] = rng.choice(["off", "often"])
    if rng.random() < .5: e["junk"] = rng.randrange(1, 1 << 30)
    e["where"] = rng.choice(["same", "same", "relative", "deep", "dots", "other-name", "glm.d", "RAW.d"])
    e["tmp"] = rng.choice(["tmp", "t m p", "x.glm.d", "y.RAW.d", "q/r"])
    if rng.random() < .5: e["vars"] = rng.choice([{"TZ": "Asia/Tokyo"}, {"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"HOME": None, "USER": "x"}, {"COLUMNS": "20"}, {"TMP": "/nowhere", "TEMP": "/nowhere"}])
    e["again"] = rng.random() < .2
    e["prior"] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        c = gen_case(rng, 12000); c["settings"] = gen_settings(rng, c["fmt"])
        c["solve"] = rng.random() < .8
        if rng.random() < .3: c["inf"] = rng.choice(["L1", "L2"]) if "spec" in c else None
        if rng.random() < .2: c["cut"] = round(rng.random(), 3)
        if rng.random() < .3: c["scale"] = rng.choice([0, 2, 50])
        e["prior"].append(c)
    if rng.random() < .25: e["prior"].append("itself")
    return e

def gen(rng, i, tier):
    c = gen_case(rng, 25000 if rng.random() < .8 or tier == "quick" and rng.random() < .5 else 80000 if tier == "quick" else 260000)
    c["settings"] = gen_settings(rng, c["fmt"])
    if rng.random() < .2 and "spec" in c: c["inf"] = rng.choice(["L1", "L2"])
    if c["fmt"] == "glm" and "spec" in c and rng.random() < .2:
        names = [f"cl_n{l['n']}{ph}" for l in c["spec"]["loads"] for ph, p, q in l["pq"]]
        rows = rng.randint(1, 3)
        cols = rng.sample(names, rng.randint(1, len(names)))
        c["series"] = {"cols": cols, "rows": [[round(rng.uniform(1e3, 8e4), 2) for _ in cols] for _ in range(rows)], "start": 0, "end": rows}
    return {"case": c, "envs": [gen_env(rng, k) for k in range(3)]}

# ------------------------------------------------------------------ running

def put(case, path):
    t = cases.text(case["spec"]) if "spec" in case else corpus.text(case["file"])
    if case.get("cut") is not None: t = t[:int(case["cut"] * len(t))]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(t)

def place(case, root, where):
    suf = ".RAW" if case["fmt"] == "raw" else ".glm"
    rel = {"same": "case", "relative": "case", "deep": "a/b c/d/case", "dots": "v1.2/case.old", "other-name": "x" * 60, "glm.d": "models.glm.d/case", "RAW.d": "old.RAW/case"}[where] + suf
    p = os.path.join(root, rel)
    put(case, p)
    return rel if where == "relative" else p

def fragile(a):
    rs = [a["solve"]] if "solve" in a else [r for h, r in a.get("hours") or []]
    return "raise" in a and not a["raise"] == "FileNotFoundError" or not rs or any(not r["ok"] or r["iters"] > 15 for r in rs) if "load" not in a else False

def differs(a, b):
    """a: in the other environment, b: in the plain one"""
    if ("load" in a) != ("load" in b): return f"loading {'raises ' + a['load'] if 'load' in a else 'succeeds'} instead of {'raising ' + b['load'] if 'load' in b else 'succeeding'}"
    if "load" in b: return None if a["load"] == b["load"] else f"loading raises {a['load']} instead of {b['load']}"
    if a["elements"] != b["elements"]: return "other elements or another order of elements"
    d = cases.close(a["digest"], b["digest"])
    if d: return "loaded network: " + d
    if a.get("refused") != b.get("refused"): return f"the network is {'refused with ' + a['refused'] if 'refused' in a else 'accepted'} instead of {'refused with ' + b['refused'] if 'refused' in b else 'accepted'}"
    if "refused" in b or fragile(b): return None
    if ("raise" in a): return f"raises {a['raise']}"
    d = cases.close({k: a[k] for k in ("solve", "hours") if k in a}, {k: b[k] for k in ("solve", "hours") if k in b})
    if d: return "results: " + d
    if set(a["files"]) != set(b["files"]): return f"result files {sorted(a['files'])} instead of {sorted(b['files'])}"
    for n in sorted(b["files"]):
        x, y = a["files"][n], b["files"][n]
        if len(x) != len(y): return f"{n} has {len(x)} lines instead of {len(y)}"
        for p, q in zip(x, y):
            if len(p) != len(q) or any((u != v) if isinstance(u, str) or isinstance(v, str) else abs(u - v) > .011 + 1e-5 * abs(v) and abs(abs(u - v) - 360) > .011 for u, v in zip(p, q)):
                return f"{n}: line {p} instead of {q}"
    return None

def run(s, T):
    import sim.props.c09 as me
    T.nontrivial = True
    c = s["case"]
    what = {k: c.get(k) for k in ("settings", "inf", "series")}
    root = os.path.join(me.RUNDIR, "plain")
    base = zygote.ask(me.SOCKS[0][0], {"path": place(c, root, "same"), "case": what, "env": {"dir": root}})[0]
    T.ev("plain", json.dumps(base, sort_keys=True))
    T.probe("load-error" if "load" in base else "refused" if "refused" in base else "raise" if "raise" in base else "fragile" if fragile(base) else "success")
    for k, e in enumerate(s["envs"]):
        root = os.path.join(me.RUNDIR, f"e{k}")
        hs, mode = PROCS[e["z"]]
        T.probe(f"hash-seed-{hs}-{mode}")
        for x in ("clock", "listing", "cache", "gc", "junk", "vars"):
            if e.get(x): T.fault(x if x not in ("cache", "gc") else f"{x}-{e[x]}", k)
        if e["prior"]: T.fault("prior-work", k)
        if e["where"] != "same": T.fault("file-location", k)
        path = place(c, root, e["where"])
        prior = []
        for j, p in enumerate(e["prior"]):
            if p == "itself": prior.append(dict(what, path=path, solve=True))
            else:
                q = os.path.join(root, f"prior{j}", "case" + (".RAW" if p["fmt"] == "raw" else ".glm"))
                put(p, q)
                prior.append({"path": q, **{x: p.get(x) for x in ("settings", "inf", "solve", "scale")}})
        ans = zygote.ask(me.SOCKS[e["z"]][0], {"path": path, "case": what, "prior": prior, "again": e["again"],
                                              "env": dict({x: e[x] for x in ("random", "clock", "listing", "cache", "gc", "junk", "tmp", "vars") if x in e}, dir=root)})
        T.sim_time += abs(e["clock"]["start"] - 1.7e9) if e.get("clock") else 1
        for n, a in enumerate(ans):
            T.ev("run", k, n, json.dumps(a, sort_keys=True))
            d = differs(a, base)
            if d:
                return [{"sig": "differs", "msg": f"{c.get('file', 'a ' + c['fmt'] + ' case')} in a process with hash seed {hs}{', second time' if n else ''} ({', '.join(x for x in e if e[x] and x not in ('z', 'random'))}): {d}"}]
    return []

def shrink(s):
    for k in range(len(s["envs"])):
        if len(s["envs"]) > 1: c = copy.deepcopy(s); c["envs"] = [s["envs"][k]]; yield c
    for k, e in enumerate(s["envs"]):
        for x in ("clock", "listing", "cache", "gc", "junk", "vars", "again"):
            if e.get(x): c = copy.deepcopy(s); c["envs"][k].pop(x); c["envs"][k].setdefault("again", False); yield c
        for j in range(len(e["prior"])): c = copy.deepcopy(s); del c["envs"][k]["prior"][j]; yield c
        if e["where"] != "same": c = copy.deepcopy(s); c["envs"][k]["where"] = "same"; yield c
        if e["tmp"] != "tmp": c = copy.deepcopy(s); c["envs"][k]["tmp"] = "tmp"; yield c
        if e["z"]: c = copy.deepcopy(s); c["envs"][k]["z"] = 0; yield c
    if s["case"].get("series"): c = copy.deepcopy(s); del c["case"]["series"]; yield c
    for x in list(s["case"]["settings"]): c = copy.deepcopy(s); del c["case"]["settings"][x]; yield c
    if "spec" in s["case"]:
        for x in cases.shrinks(s["case"]["spec"]):
            c = copy.deepcopy(s); c["case"]["spec"] = x; yield c
