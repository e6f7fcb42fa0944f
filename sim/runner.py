"""Seeded search over simulated runs for one property.

  python -m sim.runner --property C01 --tier quick            (seed from VERIF_SEED)
  python -m sim.runner --property C01 --replay FILE           (re-execute one recorded run)

Exit 0: no violation found. Exit 1: a violation, with a line VIOLATION property=<id> replay=<path>.
Exit 2: the check itself failed (harness error, irreproducible run).
"""
import argparse, importlib, json, mmap, os, select, shutil, signal, sys, tempfile, time, traceback, hashlib

from . import env, lin
from .rng import stream
from .trace import Trace, SimAbort

DEFAULT_LIMIT = 100       # seconds one run may take before it counts as not terminating
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

# ------------------------------------------------------------------ executing one scenario in a child

def child_main(mod, scn, wfd, want_events):
    res = {"status": "harness_error"}
    try:
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        sys.stderr = devnull if not os.environ.get("VERIF_DEBUG") else sys.stderr
        T = Trace()
        try:
            viols = mod.run(scn, T) or []
            res = {"status": "violation" if viols else "ok", "violations": viols}
        except SimAbort as e:
            res = {"status": "harness_error", "error": "".join(traceback.format_exception(e))[-3000:]}
        except BaseException as e:
            res = {"status": "harness_error", "error": "".join(traceback.format_exception(e))[-3000:]}
        res["trace"] = T.summary()
        res["nontrivial"] = bool(getattr(T, "nontrivial", None)) if hasattr(T, "nontrivial") else bool(T.faults)
        if want_events:
            res["events"] = T.events
    except BaseException as e:
        res = {"status": "harness_error", "error": repr(e)}
    try:
        data = json.dumps(res, default=str).encode()
        off = 0
        while off < len(data):
            off += _REAL_WRITE(wfd, data[off:off + 65536])
    finally:
        os._exit(0)

_REAL_WRITE = os.write
_REAL_FORK = os.fork

def execute(mod, scn, limit=None, want_events=False):
    """Run one scenario in a forked child: its process state starts from the pristine parent."""
    limit = limit or getattr(mod, "LIMIT", DEFAULT_LIMIT)
    r, w = os.pipe()
    d = tempfile.mkdtemp(prefix="run", dir=env.scratch())
    flag = mmap.mmap(-1, 1)
    lin.IN_SOLVER = flag
    pid = _REAL_FORK()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        try:
            os.environ["TMPDIR"] = d
            tempfile.tempdir = d
            os.chdir(d)
            mod.RUNDIR = d
        except BaseException:
            pass
        child_main(mod, scn, w, want_events)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + limit
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if timed_out:
        return {"status": "timeout", "limit": limit}
    try:
        return json.loads(buf)
    except ValueError:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGSEGV and flag[0]:
            # SuperLU dereferences freed memory on some singular matrices: a defect of SciPy, no verdict on the code under test
            return {"status": "solver_crash"}
        return {"status": "died", "wait": st}

# ------------------------------------------------------------------ worker pool

def next_index(path):
    """The next scenario nobody has taken yet (which worker runs it has no influence on it)."""
    import fcntl
    with open(path, "r+b") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        i = int(f.read() or b"0")
        f.seek(0); f.write(str(i + 1).encode()); f.flush()
        return i

def worker(mod, prop, tier, seed, n, counter, wfd, t_end, stop_r):
    while True:
        i = next_index(counter)
        if i >= n:
            break
        if time.monotonic() > t_end:
            break
        if select.select([stop_r], [], [], 0)[0]:
            break
        try:
            scn = mod.gen(stream(seed, prop, i), i, tier)
            t = time.monotonic()
            res = execute(mod, scn)
            res["t"] = time.monotonic() - t
            if i % 97 == 0 and res["status"] in ("ok", "violation"):
                again = execute(mod, scn)
                res["deterministic"] = again.get("trace", {}).get("hash") == res["trace"]["hash"]
        except BaseException as e:
            res = {"status": "harness_error", "error": "".join(traceback.format_exception(e))[-3000:]}
            scn = None
        res["i"] = i
        if i < 3 or res["status"] != "ok":
            res["scn"] = scn
        line = (json.dumps(res) + "\n").encode()
        off = 0
        while off < len(line):
            off += os.write(wfd, line[off:])
    os._exit(0)

def run_pool(mod, prop, tier, seed, n, t_end, log):
    """Runs scenarios 0..n-1; stops early once a violation or timeout is in. -> list of results"""
    out = []
    stop_r, stop_w = os.pipe()
    procs = {}
    fd, counter = tempfile.mkstemp(dir=env.scratch()); os.close(fd)
    jobs = getattr(mod, "JOBS", JOBS)
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for fd in procs: os.close(fd)
                os.close(r)
                os.close(stop_w)
                os.environ["SIM_WORKER"] = str(w)
                worker(mod, prop, tier, seed, n, counter, wfd, t_end, stop_r)
            finally:
                os._exit(0)
        os.close(wfd)
        procs[r] = [pid, b""]
    stopping = False
    while procs:
        rd, _, _ = select.select(list(procs), [], [], 5)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                os.waitpid(procs.pop(fd)[0], 0)
                continue
            procs[fd][1] += chunk
            *lines, rest = procs[fd][1].split(b"\n")
            procs[fd][1] = rest
            for l in lines:
                res = json.loads(l)
                out.append(res)
                if res["status"] in ("violation", "timeout", "died") and not stopping and not res.get("known"):
                    stopping = True
                    os.close(stop_w)          # readable (EOF) for every worker
    if not stopping:
        os.close(stop_w)
    os.close(stop_r)
    out.sort(key=lambda r: r["i"])
    return out

# ------------------------------------------------------------------ shrinking

def sigs(res):
    return {v["sig"] for v in res.get("violations", [])}

def shrink(mod, scn, want, t_end, log):
    """Greedy: take any simpler scenario that still shows one of the wanted violation classes."""
    if not hasattr(mod, "shrink"):
        return scn, 0
    tried = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in mod.shrink(scn):
            if time.monotonic() > t_end:
                break
            tried += 1
            res = execute(mod, cand)
            if res["status"] == "violation" and sigs(res) & want:
                scn = cand
                progress = True
                break
    return scn, tried

# ------------------------------------------------------------------ main

def load_findings(prop):
    path = os.path.join(env.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding:") and f"property={prop} " in l:
                sig = l.split("signature=", 1)[1].split(" ", 1)
                out.append((sig[0], sig[1] if len(sig) > 1 else ""))
    return out

def warm(log):
    """Derive the model equations of the current tree into the private cache of this run, then load them."""
    import gc
    t = time.monotonic()
    dev = os.environ.get("VERIF_DEV_CACHE")          # development only: reuse derivatives of an earlier run
    mine = os.path.join(env.scratch(), "tmp", "combined-txds-lagrange-pickler")
    if dev and os.path.isdir(dev):
        shutil.copytree(dev, mine)
    import logic.network.networkloader, logic.network.timeseriesprocessor, logic.powerflow       # noqa
    import models.optimization.L1infeasibility, models.optimization.L2infeasibility             # noqa
    from logic.stamping.lagrangesegment import LagrangeSegment
    import models.components.load as load
    skip = getattr(load, "lh_zip", None)
    segs = [o for o in gc.get_objects() if isinstance(o, LagrangeSegment) and o is not skip]
    weight = lambda s: -len(str(s.lagrange))
    segs.sort(key=lambda s: (weight(s), s.lagrange_key))
    pids = []
    for k, s in enumerate(segs):
        pid = os.fork()
        if pid == 0:
            try:
                sys.stdout = open(os.devnull, "w"); sys.stderr = sys.stdout
                s.get_derivatives()
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    bad = 0
    try:
        for s in segs:
            try:
                s.get_derivatives()
            except Exception:
                bad += 1
    finally:
        sys.stdout = out
    if dev and not os.path.isdir(dev):
        shutil.copytree(mine, dev)
    log(f"derived {len(segs)} models in {time.monotonic()-t:.1f}s" + (f", {bad} failed" if bad else ""))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--index", type=int, help="run a single scenario of the seed and print its outcome")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    log = lambda *m: print(f"[{prop}]", *m, flush=True)
    t0 = time.monotonic()
    sc = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    code = 2
    try:
        env.set_scratch(sc)
        env.setup_path()
        log(f"seed={a.seed} tier={tier} repo={env.REPO}")
        mod = importlib.import_module("sim.props." + prop.lower())
        if getattr(mod, "WARM", True):
            warm(log)
        if hasattr(mod, "setup"):
            mod.setup(log)
        code = drive(mod, prop, tier, a, log, t0)
    except SystemExit as e:
        code = e.code
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def drive(mod, prop, tier, a, log, t0):
    if a.replay:
        rec = json.load(open(a.replay))
        res = execute(mod, rec["scenario"], want_events=True)
        for e in res.get("events", []): print("  ", e)
        print("trace", res.get("trace", {}).get("hash"), "recorded", rec.get("trace_hash"))
        if res["status"] == "violation" or (res["status"] == "timeout" and rec.get("status") == "timeout"):
            for v in res.get("violations", []): print("violation:", v["sig"], "-", v["msg"])
            same = res.get("trace", {}).get("hash") == rec.get("trace_hash")
            print("replay reproduces the recorded run exactly" if same else "replay differs from the recorded event log")
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            return 1
        print("status", res["status"], res.get("error", ""))
        return 0 if res["status"] == "ok" else 2
    if a.index is not None:
        scn = mod.gen(stream(a.seed, prop, a.index), a.index, tier)
        print(json.dumps(scn))
        res = execute(mod, scn, want_events=True)
        for e in res.get("events", []): print("  ", e)
        print(json.dumps({k: v for k, v in res.items() if k != "events"}, indent=1))
        if "error" in res: print(res["error"])
        return 0 if res["status"] == "ok" else 1

    n = a.runs or mod.COUNTS[tier]
    t_run = time.monotonic()
    t_end = t_run + (a.budget or getattr(mod, "BUDGET", {}).get(tier) or (300 if tier == "quick" else 3000))
    results = run_pool(mod, prop, tier, a.seed, n, t_end, log)
    wall_run = time.monotonic() - t_run

    agg = {"faults": {}, "probes": {}, "counts": {}, "sim_time": 0.0}
    hashes = set(); nontrivial = set(); det = [0, 0]
    statuses = {}
    for r in results:
        statuses[r["status"]] = statuses.get(r["status"], 0) + 1
        t = r.get("trace")
        if not t: continue
        for k in ("faults", "probes", "counts"):
            for x, c in t[k].items():
                agg[k][x] = agg[k].get(x, 0) + c
        agg["sim_time"] += t["sim_time"]
        hashes.add(t["hash"])
        if r.get("nontrivial"): nontrivial.add(t["hash"])
        if "deterministic" in r:
            det[0] += 1; det[1] += bool(r["deterministic"])
    if os.environ.get("VERIF_DEBUG"):
        log("slowest", [(r["i"], round(r["t"], 1)) for r in sorted(results, key=lambda r: -r.get("t", 0))[:12]])
    log(f"{len(results)} runs in {wall_run:.1f}s {statuses}; faults {agg['faults']}; probes {agg['probes']}")

    findings = load_findings(prop)
    code = 0
    vio_count = 0
    known_seen = set()
    reported = None
    bad = [r for r in results if r["status"] in ("violation", "timeout", "died")]
    errors = [r for r in results if r["status"] == "harness_error"]
    for r in bad:
        if r["status"] == "violation":
            new = [v for v in r["violations"] if v["sig"] not in {f[0] for f in findings}]
            known_seen |= {v["sig"] for v in r["violations"]} & {f[0] for f in findings}
            if not new: continue
            want = {v["sig"] for v in new}
        else:
            want = None
        # confirm
        first = execute(mod, r["scn"], limit=None if want else int(1.5 * getattr(mod, "LIMIT", DEFAULT_LIMIT)), want_events=True)
        if want is None:
            if first["status"] != r["status"]:
                if first["status"] == "ok":
                    log(f"run {r['i']} was {r['status']} but completed when repeated alone; counted as no verdict")
                    errors.append({"i": r["i"], "error": f"{r['status']} not reproduced"})
                    continue
            scn = r["scn"]; final = first
            if first["status"] == "violation": want = sigs(first)
        if want is not None:
            if first["status"] != "violation" or not (sigs(first) & want):
                errors.append({"i": r["i"], "error": "violation not reproduced: " + json.dumps(r["violations"])[:500] + " -> " + json.dumps(first)[:500]})
                continue
            scn, tried = shrink(mod, r["scn"], want, time.monotonic() + (60 if tier == "quick" else 300), log)
            final = execute(mod, scn, want_events=True)
            if not (final["status"] == "violation" and sigs(final) & want):
                scn = r["scn"]; final = first
            log(f"minimised with {tried} candidate runs")
        vio_count += 1
        if reported is None:
            vs = final.get("violations") or [{"sig": final["status"], "msg": "the run did not end" if final["status"] == "timeout" else "the process died"}]
            rec = {"property": prop, "seed": a.seed, "index": r["i"], "status": final["status"], "violations": vs,
                   "scenario": scn, "original_scenario": r["scn"], "trace_hash": final.get("trace", {}).get("hash"),
                   "events": final.get("events", []),
                   "how": f"cd /verif && ./check --property {prop} --replay <this file>"}
            d = os.path.join(env.VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10]}.json")
            json.dump(rec, open(path, "w"), indent=1)
            for v in vs: log("violated:", v["sig"], "-", v["msg"])
            reported = path
            code = 1
            break
    for sig, text in findings:
        print(f"KNOWN-FINDING: property={prop} {text}")
    if reported:
        print(f"VIOLATION property={prop} replay={reported}", flush=True)
    elif errors:
        for e in errors[:3]: log("harness error in run", e["i"], e.get("error"))
        log(f"{len(errors)} harness errors")
        code = 2
    if not results:
        code = code or 2
    if not a.no_evidence:
        cov = {
            "evaluations": len(results), "distinct_nontrivial": len(nontrivial), "distinct_runs": len(hashes),
            "rule": mod.RULE,
            "samples": [r["scn"] for r in results if r.get("scn") and r["i"] < 3][:2] or [r.get("scn") for r in results[:1]],
            "runs_per_hour": int(len(results) / max(wall_run, 1e-6) * 3600), "seeds_per_hour": int(len(results) / max(wall_run, 1e-6) * 3600),
            "simulated_time": agg["sim_time"], "simulated_time_unit": getattr(mod, "TIME_UNIT", "the code under test has no timers; progress is counted in linear solves and seam operations"),
            "faults_fired": agg["faults"], "probes": agg["probes"], "seam_events": agg["counts"],
            "distinct_measure": "distinct event logs (sha1 over every seam operation, fault, schedule decision and outcome of a run)",
            "determinism_rechecks": {"runs": det[0], "identical": det[1]},
            "statuses": statuses, "components_real": mod.REAL, "components_stubbed": mod.STUB,
        }
        ev = {"property": prop, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2), "violations": vio_count}
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    return code

if __name__ == "__main__":
    main()
