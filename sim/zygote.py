"""A process with its own hash seed and its own derivative cache that forks once per request.

  python -m sim.zygote SOCKET MODE      MODE: shared (TMPDIR holds a warm cache) | cold (derives everything itself)

A request says in which environment (clock, listing order, working directory, random state, preceding work ...)
a case is loaded and solved; the answer is what came out. The process ends when its standard input closes.
"""
import builtins, gc, io, json, os, random, resource, select, socket, struct, sys, tempfile, traceback

def send(s, obj):
    b = json.dumps(obj).encode(); s.sendall(struct.pack(">I", len(b)) + b)

def recv(s):
    def need(n):
        out = b""
        while len(out) < n:
            c = s.recv(n - len(out))
            if not c: raise EOFError
            out += c
        return out
    return json.loads(need(struct.unpack(">I", need(4))[0]))

def ask(path, req, timeout=95):
    s = socket.socket(socket.AF_UNIX); s.settimeout(timeout)
    s.connect(path); send(s, req)
    a = recv(s); s.close()
    if "err" in a: raise RuntimeError("process under test: " + a["err"])
    return a["ok"]

# ------------------------------------------------------------------ the environment of one request

def set_clock(c):
    """A clock that starts where it is told and moves (also backwards) as it likes."""
    import time, datetime
    r = random.Random(c["seed"]); st = {"t": c["start"], "m": c["start"] % 1e5}
    def now():
        st["t"] += r.choice([0.0, 1e-6, 0.5, 3600.0, -7200.0, 86400.0 * r.random()]) if c["jumps"] else 1e-3
        return st["t"]
    def mono():
        st["m"] += r.choice([0.0, 1e-6, 30.0, 1e4]) if c["jumps"] else 1e-3
        return st["m"]
    time.time = now; time.time_ns = lambda: int(now() * 1e9)
    time.monotonic = mono; time.perf_counter = mono; time.process_time = mono
    time.monotonic_ns = time.perf_counter_ns = lambda: int(mono() * 1e9)
    real = datetime.datetime
    class Meta(type(real)):
        def __instancecheck__(cls, x): return isinstance(x, real)
    class Sim(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None): return real.fromtimestamp(max(0, min(now(), 4e9)), tz)
        @classmethod
        def utcnow(cls): return real.utcfromtimestamp(max(0, min(now(), 4e9)))
        @classmethod
        def today(cls): return cls.now()
    datetime.datetime = Sim
    from . import env
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] in ("logic", "models", "run_solver", "ditto"):
            for k, v in list(vars(m).items()):
                if v is real: setattr(m, k, Sim)

def set_listing(seed):
    r = random.Random(seed)
    ld, sc = os.listdir, os.scandir
    def listdir(*a):
        x = sorted(ld(*a)); r.shuffle(x); return x
    class Scan:
        def __init__(self, it): self.x = sorted(it, key=lambda e: e.name); r.shuffle(self.x)
        def __iter__(self): return iter(self.x)
        def __next__(self):
            if not self.x: raise StopIteration
            return self.x.pop(0)
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass
    os.listdir = listdir; os.scandir = lambda *a: Scan(sc(*a))

def surroundings(e):
    os.makedirs(e["dir"], exist_ok=True); os.chdir(e["dir"])
    tmp = os.path.join(e["dir"], e.get("tmp", "tmp")); os.makedirs(tmp, exist_ok=True)
    for k, v in (e.get("vars") or {}).items():
        if v is None: os.environ.pop(k, None)
        else: os.environ[k] = v
    random.seed(e.get("random", 0))
    import numpy as np
    np.random.seed(e.get("random", 0) & 0xffffffff)
    if e.get("gc") == "off": gc.disable()
    elif e.get("gc") == "often": gc.set_threshold(7, 2, 2)
    if e.get("junk"):
        r = random.Random(e["junk"]); keep = [bytearray(r.randrange(16, 4000)) for _ in range(r.randrange(1, 4000))]
        for k in range(0, len(keep), 3): keep[k] = None
        surroundings.keep = keep
    from logic.stamping.lagrangesegment import LagrangeSegment
    if e.get("cache") in ("disk", "gone"):
        r = random.Random(e.get("random", 0))
        segs = [o for o in gc.get_objects() if isinstance(o, LagrangeSegment)]
        segs.sort(key=lambda s: (len(str(s.lagrange)), str(s.lagrange_key)))
        for s in segs:
            if s._derivatives is None: continue
            if e["cache"] == "disk": s._derivatives = None      # found on disk again
        if e["cache"] == "gone":                                # some small models are derived anew
            import shutil
            d = tempfile.gettempdir()
            for s in r.sample(segs[:6], 2):
                if s._derivatives is None: continue
                s._derivatives = None; p = LagrangeSegment._pickler
                p.try_unpickle = lambda *a: (_ for _ in ()).throw(OSError("no cache"))
                p.try_pickle = lambda *a: None
    tempfile.tempdir = tmp; os.environ["TMPDIR"] = tmp
    if e.get("listing") is not None: set_listing(e["listing"])
    if e.get("clock"): set_clock(e["clock"])

def attach(net, mode):
    from . import netspec
    netspec.attach_infeasibility(net, mode)

def load(path, st):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflowsettings import PowerFlowSettings
    st = PowerFlowSettings(**st)
    return NetworkLoader(st).from_file(path), st

def number(tok):
    try: return float(tok) if tok[-1:].isdigit() else tok
    except ValueError: return tok

def filedata(prefix):
    out = {}
    d = os.path.dirname(prefix) or "."
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(prefix)):
            with open(os.path.join(d, f)) as h:
                out[f[len(os.path.basename(prefix)):]] = [[number(t) for t in l.split(",")] for l in h.read().split("\n")]
    return out

def calculate(path, c, out=None):
    """Load and solve one case. c: settings, inf, series {"cols","rows","start","end"} | None"""
    from . import cases
    from logic.powerflow import PowerFlow
    from .lin import Lin
    from .trace import Trace
    d = {}
    try: net, st = load(path, c["settings"])
    except Exception as e: return {"load": type(e).__name__}
    attach(net, c.get("inf"))
    d["digest"] = cases.digest(net)
    d["elements"] = [type(x).__name__ for x in net.get_all_elements()]
    lin = Lin(Trace(), [])
    lin.__enter__()
    try:
        pf = PowerFlow(net, st)
        if c.get("series"):
            from logic.network.timeseriesprocessor import TimeSeriesProcessor
            from logic.network.timeseriessettings import TimeSeriesSettings
            s = c["series"]
            with open("loads.csv", "w") as f:
                f.write("\n".join([",".join(s["cols"])] + [",".join(map(str, r)) for r in s["rows"]]) + "\n")
            r = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name="loads.csv", loadfile_start=s["start"], loadfile_end=s["end"]), pf).execute()
            d["hours"] = [[int(h), cases.results(x)] for h, x in r.powerflow_snapshot_results.items()]
        else:
            r = pf.execute()
            d["solve"] = cases.results(r)
        if out is not None:
            r.output(out)
            d["files"] = filedata(out)
    except Exception as e:
        d["raise" if lin.count else "refused"] = type(e).__name__      # refused: before anything was calculated
    finally: lin.__exit__(None, None, None)
    return d

def prior(path, c):
    """Earlier work of the process, of which nothing must remain."""
    try:
        net, st = load(path, c["settings"])
        attach(net, c.get("inf"))
        if c.get("solve"):
            from logic.powerflow import PowerFlow
            pf = PowerFlow(net, st); pf.execute()
            if c.get("scale"):
                for l in net.loads: l.P *= c["scale"]; l.Q *= c["scale"]
                pf.execute()
    except Exception: pass

def handle(req):
    sys.stdout = open(os.devnull, "w")
    e = req["env"]
    surroundings(e)
    for p in req.get("prior", []): prior(p["path"], p)
    a = calculate(req["path"], req["case"], os.path.join(e["dir"], e.get("out", "results/r")))
    if req.get("again"):
        b = calculate(req["path"], req["case"], os.path.join(e["dir"], e.get("out", "results/r") + "again"))
        return [a, b]
    return [a]

def main():
    path, mode = sys.argv[1:3]
    from . import env, runner
    env.set_scratch(os.path.dirname(os.environ["TMPDIR"]))
    env.setup_path()
    resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
    runner.warm(lambda *m: None)
    import logic.network.networkloader, logic.network.timeseriesprocessor      # noqa
    s = socket.socket(socket.AF_UNIX); s.bind(path + ".new"); s.listen(64)
    os.rename(path + ".new", path)
    while True:
        rd, _, _ = select.select([s, 0], [], [], 10)
        if 0 in rd: os._exit(0)
        try:
            while os.waitpid(-1, os.WNOHANG)[0]: pass
        except ChildProcessError: pass
        if s in rd:
            c, _ = s.accept()
            if os.fork() == 0:
                s.close()
                resource.setrlimit(resource.RLIMIT_CPU, (80, 80))
                try: ans = {"ok": handle(recv(c))}
                except BaseException as e: ans = {"err": "".join(traceback.format_exception(e))[-2000:]}
                try: send(c, ans)
                finally: os._exit(0)
            c.close()

if __name__ == "__main__":
    main()
