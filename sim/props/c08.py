"""C08: a network fetched from a URL is the one the server sent, or an error."""
import copy, errno, io, os, shutil, socket, ssl, sys, tempfile

from .. import cases, env, fresh
from ..procs import World, Unbounded, gen_fault, ERR, Names
from ..rng import stream

COUNTS = {"quick": 700, "thorough": 30000}
TIME_UNIT = "network and file-system calls"
RULE = ("one to four simulated processes load one to three http(s) URLs each (same file names, queries, redirects) from a simulated server whose content changes between requests, over "
        "connections that are refused, reset, cut short, slow or answered with errors, while files in the temporary directory meet disk errors, short transfers and kills; every "
        "socket and file-system call is a scheduling point; non-trivial when a fault fired, content changed or loads overlapped")
REAL = ["NetworkLoader, the GLM and RAW readers, PowerFlow", "urllib and http.client above the socket", "the files themselves"]
STUB = ["TCP and TLS (a simulated server behind socket.create_connection and SSLContext.wrap_socket)", "the order and outcome of file-system calls below the temporary directory",
        "os.urandom, tempfile names, pids and the clock (seeded)"]
ASSUMPTIONS = ["a connection without a length whose server ends it early by an orderly close cannot be told from a complete one and is not generated",
               "a stalled connection ends at last (with a timeout or reset)", "the certificate checks of TLS are not part of this property"]

NAMES = ["case.glm", "case.RAW", "net.glm", "net.RAW"]
FR = None

def local(req):
    """What loading a local copy with this content gives."""
    from logic.network.networkloader import NetworkLoader
    from logic.powerflowsettings import PowerFlowSettings
    sys.stdout = open(os.devnull, "w")
    d = tempfile.mkdtemp()
    p = os.path.join(d, req["name"])
    with open(p, "wb") as f: f.write(req["body"].encode())
    try: return cases.digest(NetworkLoader(PowerFlowSettings()).from_file(p), cases.solve)
    except Exception as e: return {"raise": type(e).__name__}
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ the client's side of the wire

class Wire(io.RawIOBase):
    def __init__(self, sock): self.sock = sock
    def readable(self): return True
    def readinto(self, b):
        r = self.sock.op("recv", len(b))
        data = bytes.fromhex(r.get("data", ""))
        b[:len(data)] = data
        return len(data)

class FakeSocket:
    def __init__(self, seam, host, port, k):
        self.seam, self.host, self.port, self.k, self.tls = seam, host, port, k, False
        self.dead = False
    def op(self, kind, *info):
        if self.dead: raise OSError(errno.EBADF, "closed")
        return self.seam.call(kind, f"tcp:{self.host}:{self.port}", self.k, *info)
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
    def gettimeout(self): return None
    def setblocking(self, *a): pass
    def getpeername(self): return ("192.0.2.1", self.port)
    def getsockname(self): return ("192.0.2.2", 40000 + self.k)
    def fileno(self): return -1
    def sendall(self, data, *a): self.op("send", bytes(data).hex())
    def send(self, data, *a):
        self.sendall(data); return len(data)
    def makefile(self, mode="r", buffering=None, **k):
        return io.BufferedReader(Wire(self), 8192)
    def recv(self, n, *a):
        b = bytearray(n); m = Wire(self).readinto(b); return bytes(b[:m])
    def recv_into(self, b, n=0, *a): return Wire(self).readinto(memoryview(b)[:n or len(b)])
    def shutdown(self, *a): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def install_net(seam):
    count = [0]
    def connect(address, timeout=None, source_address=None, **kw):
        host, port = address[0], int(address[1])
        count[0] += 1
        s = FakeSocket(seam, host, port, count[0])
        r = s.op("connect")
        if r.get("net") == "dns": raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        if r.get("net"): raise OSError(r["net"], os.strerror(r["net"]))
        return s
    socket.create_connection = connect
    def wrap(self, sock, *a, **k):
        sock.tls = True
        if sock.op("tls").get("net"): raise ssl.SSLError(1, "handshake failure")
        return sock
    ssl.SSLContext.wrap_socket = wrap
    for k in list(os.environ):
        if k.lower().endswith("_proxy"): del os.environ[k]

def client(root, urls, nameseed):
    def fn(seam):
        tempfile.tempdir = root; os.environ["TMPDIR"] = root
        if nameseed is not None:
            import random
            tempfile._name_sequence = Names(random.Random(nameseed))
        install_net(seam)
        from logic.network.networkloader import NetworkLoader
        from logic.powerflowsettings import PowerFlowSettings
        out = []
        for k, u in enumerate(urls):
            seam.call("load-begin", "app", k, u)
            try: net = NetworkLoader(PowerFlowSettings()).from_file(u)
            except Exception as e: net, res = None, {"raise": type(e).__name__, "text": str(e)[:200]}
            seam.call("load-end", "app", k)
            if net is not None: res = cases.digest(net, cases.solve)
            out.append(res)
        return out
    return fn

# ------------------------------------------------------------------ the server's side

class Server:
    """Answers request k of process p with responses["p:k"], others healthily."""
    def __init__(self, s, T):
        self.s, self.T = s, T
        self.conn = {}                  # (proc, k) -> state
        self.count = 0                  # requests of all
        self.nreq = {}                  # of each process
        self.load = {}                  # proc -> load number
        self.served = {}                # (proc, load) -> [(name, body)] completely served with status 200
        self.trouble = {}               # (proc, load) -> something went wrong for it
        self.versions = set()

    def key(self, p): return f"{p.idx}:{self.nreq.get(p.idx, 0)}"
    def tick(self, p):
        self.count += 1; self.nreq[p.idx] = self.nreq.get(p.idx, 0) + 1
    def mark(self, p): self.trouble[(p.idx, self.load.get(p.idx))] = True

    def begin(self, w, p, op):
        self.load[p.idx] = op["info"][0]
        self.served[(p.idx, op["info"][0])] = []
        self.trouble[(p.idx, op["info"][0])] = False

    def connect(self, w, p, op):
        k = op["info"][0]
        f = self.s["connect"].get(self.key(p))
        self.conn[(p.idx, k)] = {"in": b"", "out": None, "pos": 0}
        if f and f != "tls":
            self.tick(p)
            self.mark(p); self.T.fault("connect-" + str(f))
            return {"net": "dns" if f == "dns" else getattr(errno, f)}

    def tls(self, w, p, op):
        if self.s["connect"].get(self.key(p)) == "tls":
            self.tick(p); self.mark(p); self.T.fault("tls"); return {"net": 1}

    def send(self, w, p, op):
        c = self.conn[(p.idx, op["info"][0])]
        c["in"] += bytes.fromhex(op["info"][1])
        if b"\r\n\r\n" in c["in"] and c["out"] is None: self.answer(p, c)

    def answer(self, p, c):
        path = c["in"].split(b" ", 2)[1].decode()
        r = self.s["responses"].get(self.key(p), {"status": 200})
        ver = self.s["versions"][min(self.count, len(self.s["versions"]) - 1)]
        self.tick(p)
        if "ver" in r: ver = r["ver"]
        name = path.split("/")[-1].split("?")[-1]
        kind = "raw" if ".RAW" in path else "glm"
        body = self.body(kind, ver, path)
        st = r["status"]
        self.versions.add(ver)
        if len(self.versions) > 1: self.T.probe("content-changed")
        head = f"HTTP/1.1 {st} {'OK' if st == 200 else 'Other'}\r\nServer: sim\r\nConnection: close\r\n"
        if st in (301, 302, 307): head += f"Location: {r['to'] if 'to' in r else path + '2'}\r\n"
        if st == 206: head += f"Content-Range: bytes 0-{len(body) - 1}/{2 * len(body)}\r\n"
        payload = b"" if st in (204, 304) else body if r.get("full", True) else b"<html>Sorry</html>"
        frame = r.get("frame", "length")
        if frame == "chunked":
            head += "Transfer-Encoding: chunked\r\n"
            n = r.get("chunk", 500)
            wire = b"".join(b"%x\r\n%s\r\n" % (len(payload[i:i + n]), payload[i:i + n]) for i in range(0, len(payload), n)) + b"0\r\n\r\n"
        else:
            if frame == "length": head += f"Content-Length: {len(payload)}\r\n"
            wire = payload
        head = (head + "\r\n").encode()
        complete = True; end = "close"
        if r.get("cut") is not None and wire:
            keep = int(r["cut"] * len(wire)) if r["cut"] >= 0 else -1
            end = "reset" if frame == "close" or r.get("reset") else "close"
            whole = frame == "chunked" and keep >= len(wire) - 4        # the last chunk has arrived, only line ends are missing
            wire = wire[:max(keep, 0)]
            if keep < 0: head = head[:int(len(head) * -r["cut"] / 10)]; end = "reset"
            complete = whole
            self.T.fault("body-cut" if end == "close" else "body-reset")
        if st != 200: self.T.fault(f"status-{st}")
        if st != 200 and st not in (301, 302, 307): self.mark(p)
        if r.get("cut") is not None: self.mark(p)
        c["out"] = head + wire; c["end"] = end; c["seg"] = r.get("seg", 4096)
        if st == 200 and complete:
            self.served[(p.idx, self.load[p.idx])].append(payload.decode())

    def body(self, kind, ver, path):
        if "wait" in path: return b"<html>index</html>"
        return self.s["text"][kind][ver].encode()

    def recv(self, w, p, op):
        c = self.conn[(p.idx, op["info"][0])]
        if c["out"] is None: return {"do": "errno", "e": errno.ECONNRESET}
        n = min(op["info"][1], c["seg"])
        d = c["out"][c["pos"]:c["pos"] + n]
        c["pos"] += len(d)
        if not d and c["end"] == "reset": return {"do": "errno", "e": errno.ECONNRESET}
        return {"data": d.hex()}

# ------------------------------------------------------------------ scenarios

def gen(rng, i, tier):
    kinds = ["glm", "raw"]
    nver = rng.choice([1, 2, 2, 3])
    text = {k: [] for k in kinds}
    base = {"glm": cases.gen_glm(rng, n=rng.randint(1, 3)), "raw": cases.gen_raw(rng, n=rng.randint(2, 4))}
    specs = {k: [] for k in kinds}
    for v in range(nver):
        for k in kinds:
            if v == 0 or rng.random() < .3:
                s = cases.gen_glm(rng, n=rng.randint(1, 3)) if k == "glm" else cases.gen_raw(rng, n=rng.randint(2, 4))
            else:                                   # another version of the same case: one load differs
                s = copy.deepcopy(specs[k][0])
                if s["loads"]:
                    l = rng.choice(s["loads"])
                    if k == "glm": l["pq"][0][1] = round(l["pq"][0][1] * 1.3, 1)
                    else: l["p"] = round(l["p"] * 1.3 + 1, 3)
                elif k == "raw": s["loads"].append({"i": s["buses"][-1]["i"], "id": 1, "p": 5.0 + v, "q": 1.0})
            specs[k].append(s)
    np_ = rng.choice([1, 1, 2, 3, 4])
    hosts = ["h", "h", "other"]
    def url():
        n = rng.choice(NAMES)
        return (rng.choice(["http", "http", "https"]) + "://" + rng.choice(hosts) + rng.choice(["/", "/a/", "/b/c/"]) + n + rng.choice(["", "", "", "", "?v=1", "?a=b&c=d", "#top"]))
    pool = [url() for _ in range(rng.choice([1, 2, 3]))]
    procs = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(np_)]
    total = 2 * sum(map(len, procs))
    faulty = rng.random()
    responses, connect = {}, {}
    for k in [f"{p}:{j}" for p in range(np_) for j in range(2 * len(procs[p]))]:
        u = rng.random()
        r = {"status": 200}
        if faulty < .75 and u < .22:
            f = rng.choice(["status", "status", "cut", "cut", "cut", "connect", "redirect"])
            if f == "status":
                r = {"status": rng.choice([404, 404, 403, 401, 410, 429, 500, 502, 503, 504, 304, 204, 202, 203, 206, 400]), "full": rng.random() < .7}
                if rng.random() < .5: r["ver"] = rng.randrange(nver)
            elif f == "cut":
                r["cut"] = rng.choice([0, .999, round(rng.random(), 3), round(rng.random(), 3), -round(rng.uniform(0, 10), 2)])
                r["reset"] = rng.random() < .4
            elif f == "connect":
                connect[k] = rng.choice(["ECONNREFUSED", "ETIMEDOUT", "EHOSTUNREACH", "dns", "tls"])
            else:
                r = {"status": rng.choice([301, 302, 302, 307])}
                if rng.random() < .8: r["to"] = rng.choice([rng.choice(pool), "/elsewhere/" + rng.choice(NAMES), "/wait", "https://h/x/" + rng.choice(NAMES)])
        if rng.random() < .5: r["frame"] = rng.choice(["length", "chunked", "close"]); r["chunk"] = rng.choice([1, 37, 500, 100000])
        if rng.random() < .4: r["seg"] = rng.choice([1, 13, 300, 1460])
        if len(r) > 1 or r["status"] != 200: responses[k] = r
        if r.get("seg") == 1: r["seg"] = 7
        if r.get("chunk") == 1: r["chunk"] = 9
    v, versions = 0, []
    for k in range(total):
        versions.append(v)
        if rng.random() < .4: v = rng.randrange(nver)
    faults = [gen_fault(rng, np_, horizon=20) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    for f in faults: f["path"] = None; f["op"] = f.get("op") or ["open-w", "open-r", "write", "read", "close", "mkdir", "stat", "replace"]
    return {"specs": specs, "procs": procs, "responses": responses, "connect": connect, "versions": versions, "faults": faults, "seed": rng.randrange(1 << 30),
            "stick": rng.choice([0, .3, .6, .9, .97]), "bufsize": rng.choice([None, None, 512, 4096]), "samenames": rng.random() < .3, "stale": rng.random() < .3,
            "own": base if rng.random() < .3 else None}

def run(s, T):
    import sim.props.c08 as me
    fr = fresh.Fresh(local)
    root = os.path.join(me.RUNDIR, "t"); os.makedirs(root)
    s = dict(s, text={k: [cases.text(x) for x in v] for k, v in s["specs"].items()})
    T.nontrivial = False
    if s["stale"]:                          # files of other users and earlier loads
        for n in NAMES:
            with open(os.path.join(root, n), "w") as f: f.write(cases.text(s["specs"]["raw" if "RAW" in n else "glm"][-1]))
        with open(os.path.join(root, "case.glm?v=1"), "w") as f: f.write("")
    if s.get("own"):                        # files of the user's in the working directory, with the same names
        for n in NAMES:
            with open(os.path.join(me.RUNDIR, n), "w") as f: f.write(cases.text(s["own"]["raw" if "RAW" in n else "glm"]))
    srv = Server(s, T)
    w = World(T, root, s["seed"], s["faults"], s["stick"], bufsize=s["bufsize"])
    w.serve = {"connect": srv.connect, "send": srv.send, "recv": srv.recv, "tls": srv.tls, "load-begin": srv.begin}
    procs = []
    try:
        for k, urls in enumerate(s["procs"]):
            w.spawn(client(root, urls, s["seed"] if s["samenames"] else None))
        if len(w.alive()) > 1: T.nontrivial = True; T.probe("overlapping")
        w.run()
    except Unbounded as e:
        w.kill_all()
        return [{"sig": "unbounded", "msg": f"a load does not end: {e}"}]
    T.sim_time += w.n
    if T.faults or len(srv.versions) > 1: T.nontrivial = True
    known = {}
    for p, urls in zip(w.procs, s["procs"]):
        if p.state == "dead":
            if p.crashed: continue
            return [{"sig": "process-died", "msg": f"{p.name} ended abnormally ({p.wait})"}]
        if "died" in p.result: raise RuntimeError(p.result["died"])
        for k, (u, got) in enumerate(zip(urls, p.result["done"])):
            name = u.split("/")[-1].split("#")[0]
            bodies = srv.served[(p.idx, k)]
            wants = []
            for b in bodies:
                if (name, b) not in known: known[(name, b)] = fr.ask({"name": name, "body": b})
                wants.append(known[(name, b)])
            if "raise" in got:
                T.probe("load-raised")
                if not srv.trouble[(p.idx, k)] and not p.faulted and wants and all("raise" not in x for x in wants):
                    if not redirected(s): return [{"sig": "needless-error", "msg": f"{p.name} load {k} of {u}: the server answered each request completely with 200, but the load raises {got}"}]
                continue
            T.probe("load-ok")
            diffs = [cases.close(got, x) if "raise" not in x else f"a local copy raises {x['raise']}" for x in wants]
            if all(d is not None for d in diffs):
                return [{"sig": "wrong-network", "msg": f"{p.name} load {k} of {u}: gives a network that differs from every content completely served to it with status 200 "
                         f"({len(wants)} served): {(diffs or ['nothing was served'])[-1][:300]}"}]
    return []

def redirected(s): return any(r["status"] in (301, 302, 307) for r in s["responses"].values())

def shrink(s):
    for k in range(len(s["faults"])): c = copy.deepcopy(s); del c["faults"][k]; yield c
    if len(s["procs"]) > 1:
        for k in range(len(s["procs"])):
            c = copy.deepcopy(s); del c["procs"][k]
            for key in ("responses", "connect"):
                old = c[key]; c[key] = {}
                for q, r in old.items():
                    p, j = map(int, q.split(":"))
                    if p != k: c[key][f"{p - (p > k)}:{j}"] = r
            yield c
    for k, p in enumerate(s["procs"]):
        if len(p) > 1:
            for j in range(len(p)): c = copy.deepcopy(s); del c["procs"][k][j]; yield c
    for key in ("responses", "connect"):
        for k in s[key]:
            c = copy.deepcopy(s); del c[key][k]; yield c
    for k, r in s["responses"].items():
        for f in ("frame", "chunk", "seg", "reset"):
            if f in r: c = copy.deepcopy(s); del c["responses"][k][f]; yield c
    for key in ("samenames", "stale", "bufsize"):
        if s[key]: c = copy.deepcopy(s); c[key] = False if key != "bufsize" else None; yield c
    for kind in ("glm", "raw"):
        for x in cases.shrinks(s["specs"][kind][0]):
            if len(s["specs"][kind]) == 1: c = copy.deepcopy(s); c["specs"][kind][0] = x; yield c
    if s.get("own"): c = copy.deepcopy(s); c["own"] = None; yield c
    if any(s["versions"]): c = copy.deepcopy(s); c["versions"] = [0]; yield c
    if s["stick"] != .97: c = copy.deepcopy(s); c["stick"] = .97; yield c
