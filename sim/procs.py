"""Simulated processes on a simulated disk.

A simulated process is a forked process that runs the real code, but stops at every file-system call it makes below
the controlled directory and waits for the scheduler (the run) to let it go on. Exactly one process runs at any time,
so the seeded scheduler decides every interleaving, and it may answer a call with an error number, let a write or
read be short, kill the process in the middle of a write or before or after any call, or change the disk between
two calls. Only what was written stays: a kill ends the process at once, with everything it held in buffers.

The sources of randomness a process may use for names (os.urandom, tempfile names, its pid) are seeded.
"""
import builtins, errno, io, json, os, random, shutil, struct, sys, tempfile, traceback

_FORK = os.fork; _READ = os.read; _WRITE = os.write; _EXIT = os._exit; _WAIT = os.waitpid; _KILL = os.kill
_OPEN = io.open; _CLOSE = os.close; _PIPE = os.pipe
_R = {n: getattr(os, n) for n in ("open", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "stat", "lstat", "listdir", "scandir", "link",
                                  "symlink", "access", "utime", "truncate", "chmod", "write", "read", "close", "fsync", "fdatasync", "ftruncate",
                                  "urandom", "getpid")}
TWO = {"replace", "rename", "link"}
FDOPS = {"fsync", "fdatasync", "ftruncate"}
MUTATES = {"open-w", "write", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "link", "symlink", "truncate", "ftruncate", "chmod", "utime"}

def _send(fd, obj):
    b = json.dumps(obj, default=str).encode()
    b = struct.pack(">I", len(b)) + b
    while b: b = b[_WRITE(fd, b):]

def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = _READ(fd, n - len(out))
            if not c: raise EOFError
            out += c
        return out
    return json.loads(need(struct.unpack(">I", need(4))[0]))

# ------------------------------------------------------------------ inside a simulated process

class Seam:
    def __init__(self, root, rfd, wfd, seed, pid, bufsize):
        self.root = os.path.realpath(root)
        self.rfd, self.wfd = rfd, wfd
        self.rng = random.Random(seed)
        self.simpid = pid
        self.bufsize = bufsize
        self.fds = {}
        self.now = 1.7e9
        self.off = False

    def ctl(self, p):
        """The path relative to the controlled root, or None when it is not below it."""
        if self.off or p is None: return None
        if isinstance(p, int): return self.fds.get(p)
        try: p = os.fspath(p)
        except TypeError: return None
        if isinstance(p, bytes): p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(_GETCWD(), p))
        if p == self.root: return "."
        return p[len(self.root) + 1:] if p.startswith(self.root + os.sep) else None

    def call(self, kind, path, *info):
        _send(self.wfd, {"op": kind, "path": path, "info": list(info)})
        r = _recv(self.rfd)
        self.now = r.get("t", self.now)
        if r["do"] == "crash": _EXIT(137)
        if r["do"] == "errno": raise OSError(r["e"], os.strerror(r["e"]), path)
        return r

_GETCWD = os.getcwd
S = None

def part(r, n):
    """How many of n bytes a cut operation still moves."""
    return max(0, min(n - 1, int(r["frac"] * n))) if n else 0

class SimFileIO(io.FileIO):
    simpath = None
    def _c(self, kind, n=None):
        if S is None or S.off or self.simpath is None: return {"do": "go"}
        return S.call(kind, self.simpath, *([n] if n is not None else []))

    def write(self, b):
        m = memoryview(b).cast("B")
        r = self._c("write", len(m))
        if r["do"] == "short" and len(m) > 1:
            return super().write(m[:max(1, part(r, len(m)))])
        if r["do"] == "tear":
            super().write(m[:part(r, len(m))]); _EXIT(137)
        if r["do"] == "full":
            super().write(m[:part(r, len(m))]); raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        n = super().write(m)
        if r["do"] == "crash_after": _EXIT(137)
        return n

    def readinto(self, b):
        m = memoryview(b).cast("B")
        r = self._c("read", len(m))
        if r["do"] == "short" and len(m) > 1: m = m[:max(1, part(r, len(m)))]
        n = super().readinto(m)
        if r["do"] == "crash_after": _EXIT(137)
        return n

    def read(self, size=-1):
        self._c("read", size)
        return super().read(size)

    def readall(self):
        self._c("read", -1)
        return super().readall()

    def truncate(self, size=None):
        self._c("ftruncate", -1 if size is None else size)
        return super().truncate(size)

    def close(self):
        if not self.closed and self.simpath is not None and S is not None and not S.off:
            fd = self.fileno()
            try:
                r = self._c("close")
                if r["do"] == "crash_after":
                    super().close(); _EXIT(137)
            finally:
                S.fds.pop(fd, None)
                super().close()
            return
        super().close()

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if S is None: return _OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = S.ctl(file)
    if path is None:
        return _OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    crash_after = False
    if not isinstance(file, int) and opener is None:
        crash_after = S.call("open-w" if set(rawmode) & set("wax+") else "open-r", path)["do"] == "crash_after"
    raw = SimFileIO(file, rawmode or "r", closefd, opener)
    raw.simpath = S.fds.get(raw.fileno(), path)
    S.fds[raw.fileno()] = raw.simpath
    if crash_after: _EXIT(137)
    if buffering == 0:
        if not binary: raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1
    size = buffering if buffering > 1 else (S.bufsize or io.DEFAULT_BUFFER_SIZE)
    if "+" in rawmode: buf = io.BufferedRandom(raw, size)
    elif set(rawmode) & set("wax"): buf = io.BufferedWriter(raw, size)
    else: buf = io.BufferedReader(raw, size)
    if binary: return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    if S.bufsize: text._CHUNK_SIZE = S.bufsize
    text.mode = mode
    return text

def _wrap(name):
    real = _R[name]
    def f(*a, **k):
        if S is None or S.off: return real(*a, **k)
        first = a[0] if a else k.get("path", k.get("src", "." if name in ("listdir", "scandir") else None))
        if k.get("dir_fd") is not None: return real(*a, **k)
        p = S.ctl(first)
        q = S.ctl(a[1] if len(a) > 1 else k.get("dst")) if name in TWO else None
        if p is None and q is None: return real(*a, **k)
        kind = name
        if name == "open":
            flags = a[1] if len(a) > 1 else k["flags"]
            kind = "open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open-r"
        elif name in ("stat", "lstat", "access"): kind = "stat"
        elif name == "unlink": kind = "remove"
        elif name == "rename": kind = "replace"
        elif name == "fdatasync": kind = "fsync"
        r = S.call(kind, p, *([q] if name in TWO else []))
        out = real(*a, **k)
        if name == "open": S.fds[out] = p
        if name in ("listdir",) and S.order: out = S.order(out)
        if r["do"] == "crash_after": _EXIT(137)
        return out
    f.__name__ = name
    return f

def _os_write(fd, b):
    p = S.fds.get(fd) if S is not None and not S.off else None
    if p is None: return _WRITE(fd, b)
    m = memoryview(b).cast("B")
    r = S.call("write", p, len(m))
    if r["do"] == "short" and len(m) > 1: return _WRITE(fd, m[:max(1, part(r, len(m)))])
    if r["do"] == "tear": _WRITE(fd, m[:part(r, len(m))]); _EXIT(137)
    if r["do"] == "full":
        _WRITE(fd, m[:part(r, len(m))]); raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    n = _WRITE(fd, m)
    if r["do"] == "crash_after": _EXIT(137)
    return n

def _os_close(fd):
    if S is not None: S.fds.pop(fd, None)
    return _CLOSE(fd)

def _flock(real):
    import fcntl
    def f(fd, op, *a):
        n = fd if isinstance(fd, int) else fd.fileno()
        p = S.fds.get(n) if S is not None and not S.off else None
        if p is None or op & fcntl.LOCK_UN: return real(fd, op, *a)
        while True:
            S.call("lock", p)
            try: return real(fd, op | fcntl.LOCK_NB, *a)
            except OSError as e:
                if op & fcntl.LOCK_NB or e.errno not in (errno.EWOULDBLOCK, errno.EACCES, errno.EAGAIN): raise
    return f

class Names:
    """Temporary-file names from the seed."""
    def __init__(self, rng): self.rng = rng
    def __iter__(self): return self
    def __next__(self): return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))

def install(seam):
    global S
    S = seam
    seam.order = None
    builtins.open = io.open = sim_open
    import _io
    _io.open = sim_open
    for n in _R:
        if n not in ("write", "read", "close", "urandom", "getpid"): setattr(os, n, _wrap(n))
    os.write = _os_write
    os.close = _os_close
    os.urandom = lambda n: seam.rng.randbytes(n)
    os.getpid = lambda: seam.simpid
    tempfile._name_sequence = Names(seam.rng)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    random.seed(seam.rng.getrandbits(64))
    import time, uuid
    seam.real_time = time.time
    time.time = lambda: seam.now
    time.time_ns = lambda: int(seam.now * 1e9)
    uuid.getnode = lambda: 0x020000000000 + seam.simpid
    uuid._node = None; uuid._last_timestamp = None
    uuid._generate_time_safe = None
    try:
        import fcntl
        fcntl.flock = _flock(fcntl.flock); fcntl.lockf = _flock(fcntl.lockf)
    except ImportError: pass

# ------------------------------------------------------------------ the scheduler

class Proc:
    def __init__(self, idx, name, pid, r, w):
        self.idx, self.name, self.pid, self.r, self.w = idx, name, pid, r, w
        self.pending = None; self.state = "op"; self.result = None; self.ops = 0; self.faulted = 0; self.crashed = False

class Unbounded(Exception): pass

class World:
    """faults: [{"proc": idx|None, "op": [kinds]|None, "path": text|None, "skip": n, "count": m, "do": ..., "e"/"frac"}]
    a fault fires for the matching calls number skip .. skip+count-1 (counted per fault)."""
    MAX = 60000
    def __init__(self, T, root, seed, faults=(), stick=.5, env=(), bufsize=None, on_step=None, log=True):
        self.T, self.root, self.seed = T, root, seed
        self.rng = random.Random(f"world/{seed}")
        self.faults = [dict(f, seen=0) for f in faults]
        self.stick = stick
        self.env = list(env)            # [(step, function(world))]
        self.bufsize = bufsize
        self.on_step = on_step
        self.procs = []
        self.n = 0
        self.last = None
        self.violations = []
        self.clock = 1.7e9
        self.nextpid = 1000
        self.log = log
        self.serve = {}                 # operation kind -> fn(world, proc, operation) -> more fields of the reply

    def spawn(self, fn, name=None, pid=None):
        """fn(seam) runs in the new process up to its first call; returns the Proc."""
        idx = len(self.procs)
        ar, aw = _PIPE(); br, bw = _PIPE()
        if pid is None:
            self.nextpid += self.rng.randint(1, 9); pid = self.nextpid
        child = _FORK()
        if child == 0:
            _CLOSE(ar); _CLOSE(bw)
            for p in self.alive():
                for fd in (p.r, p.w):
                    try: _CLOSE(fd)
                    except OSError: pass
            code = 0
            try:
                seam = Seam(self.root, br, aw, f"proc/{self.seed}/{idx}", pid, self.bufsize)
                seam.now = self.clock
                install(seam)
                try: ans = {"done": fn(seam)}
                except BaseException as e: ans = {"died": "".join(traceback.format_exception(e))[-2500:]}
                seam.off = True
                _send(aw, ans)
            except BaseException:
                code = 3
                if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            finally:
                _EXIT(code)
        _CLOSE(aw); _CLOSE(br)
        p = Proc(idx, name or f"p{idx}", child, ar, bw)
        self.procs.append(p)
        self.advance(p)
        return p

    def advance(self, p):
        try:
            m = _recv(p.r)
        except EOFError:
            p.state = "dead"; self.reap(p); return
        if "op" in m:
            p.pending = m; p.state = "op"
        else:
            p.state = "done"; p.result = m; self.reap(p)
            self.T.ev("end", p.name, "died" if "died" in m else "done")

    def reap(self, p):
        _, st = _WAIT(p.pid, 0)
        p.wait = st
        _CLOSE(p.r); _CLOSE(p.w)
        self.last = None if self.last is p else self.last

    def alive(self): return [p for p in self.procs if p.state == "op"]

    def pick(self):
        a = self.alive()
        if self.last in a and self.rng.random() < self.stick: return self.last
        return a[self.rng.randrange(len(a))]

    def decide(self, p, op):
        for f in self.faults:
            if f.get("proc") is not None and f["proc"] != p.idx: continue
            if f.get("op") and op["op"] not in f["op"]: continue
            if f.get("path") and f["path"] not in (op["path"] or "") + " ".join(str(x) for x in op["info"]): continue
            k = f["seen"]; f["seen"] += 1
            if f.get("skip", 0) <= k < f.get("skip", 0) + f.get("count", 1): return f
        return None

    def step(self):
        for e in [e for e in self.env if e[0] <= self.n]:
            self.env.remove(e); e[1](self)
        p = self.pick()
        self.last = p
        op = p.pending
        self.n += 1; p.ops += 1
        if self.n > self.MAX: raise Unbounded(f"{self.n} file operations")
        self.clock += self.rng.random() * .01
        f = self.decide(p, op)
        reply = {"do": "go", "t": self.clock}
        if f is not None:
            do = f["do"]
            if do in ("tear", "short", "full") and op["op"] not in ("write",) and not (do == "short" and op["op"] == "read"):
                do = "crash" if do == "tear" else "errno" if do == "full" else "go"
            reply["do"] = do
            if do == "errno": reply["e"] = f.get("e", errno.ENOSPC)
            if do in ("tear", "short", "full"): reply["frac"] = f.get("frac", .5)
            if do != "go":
                p.faulted += 1
                self.T.fault(do if do != "errno" else "errno." + errno.errorcode[reply["e"]], p.name, op["op"])
        if reply["do"] == "go" and op["op"] in self.serve: reply.update(self.serve[op["op"]](self, p, op) or {})
        if self.log: self.T.ev(op["op"], p.name, op["path"], op["info"])
        p.state = "run"
        _send(p.w, reply)
        self.advance(p)
        if p.state == "dead":
            p.crashed = reply["do"] in ("crash", "crash_after", "tear")
            self.T.ev("killed" if p.crashed else "process-died", p.name)
        if self.on_step:
            v = self.on_step(self, p, op)
            if v: self.violations.append(v)

    def run(self, until=None):
        while self.alive() and not self.violations:
            if until and until(self): break
            self.step()

    def kill_all(self):
        for p in self.alive():
            try: _KILL(p.pid, 9)
            except OSError: pass
            p.state = "dead"; self.reap(p)

ERR = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "ESTALE", "ENOENT", "EPERM")}

def gen_fault(rng, nproc, horizon=25, kinds=None):
    """One random disk fault."""
    f = {}
    if nproc > 1 and rng.random() < .7: f["proc"] = rng.randrange(nproc)
    u = rng.choice(kinds or ["crash", "crash", "tear", "tear", "crash_after", "errno", "errno", "errno", "full", "full", "short", "rofs"])
    f["do"] = u
    f["skip"] = rng.choice([0, 0, 1, 2, 3, rng.randrange(horizon), rng.randrange(horizon)])
    if u in ("tear", "short", "full"):
        f["frac"] = round(rng.random(), 3); f["op"] = ["write"] if u != "short" else ["write", "read"]
        if u == "short": f["count"] = rng.choice([1, 3, 1000])
        if u == "full": f["count"] = rng.choice([1, 1, 1000])
    elif u == "rofs":
        f.update(do="errno", e=ERR["EROFS"], op=sorted(MUTATES), count=rng.choice([1, 1000, 1000]))
    elif u == "errno":
        f["e"] = rng.choice([ERR[n] for n in ("EIO", "EIO", "ENOSPC", "EACCES", "EDQUOT", "EMFILE", "ESTALE")])
        f["op"] = rng.choice([None, ["write"], ["open-w"], ["open-r"], ["replace"], ["read"], ["close"], ["mkdir"], ["stat"], sorted(MUTATES)])
        f["count"] = rng.choice([1, 1, 2, 1000])
    elif rng.random() < .4:
        f["op"] = [rng.choice(["write", "open-w", "replace", "close", "read"])]
    return f
