"""A fresh process for every question: a server forked before the run touches anything forks once per request."""
import json, os, struct, traceback

_FORK = os.fork; _READ = os.read; _WRITE = os.write

def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[_WRITE(fd, b):]

def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = _READ(fd, n - len(out))
            if not c: raise EOFError
            out += c
        return out
    return json.loads(need(struct.unpack(">I", need(4))[0]))

class Fresh:
    def __init__(self, fn):
        """fn(request) -> JSON-able answer, run in a process forked from the state at this point."""
        qr, qw = os.pipe(); ar, aw = os.pipe()
        self.pid = _FORK()
        if self.pid == 0:
            os.close(qw); os.close(ar)
            try:
                while True:
                    try: req = _recv(qr)
                    except EOFError: os._exit(0)
                    p = _FORK()
                    if p == 0:
                        try: ans = {"ok": fn(req)}
                        except BaseException as e: ans = {"err": "".join(traceback.format_exception(e))[-2000:]}
                        _send(aw, ans)
                        os._exit(0)
                    _, st = os.waitpid(p, 0)
                    if st: _send(aw, {"err": f"fresh process died: {st}"})
            finally:
                os._exit(1)
        os.close(qr); os.close(aw)
        self.w, self.r = qw, ar

    def ask(self, req):
        _send(self.w, req)
        a = _recv(self.r)
        if "err" in a: raise RuntimeError("fresh process: " + a["err"])
        return a["ok"]

def solve_request(req):
    """Build the spec anew and solve it, by default without faults."""
    from . import netspec, scen
    from .trace import Trace
    net, H = netspec.build(req["spec"])
    netspec.attach_infeasibility(net, req.get("inf"))
    return describe(scen.execute(net, req["settings"], Trace(), req.get("plan", ())), H)

def describe(o, H):
    d = {"kind": o.kind(), "exc": type(o.exc).__name__ if o.exc else None, "solves": o.solves}
    if o.res is not None:
        v = o.res.v_final
        d["iters"] = int(o.res.iterations)
        d["tx"] = float(o.res.tx_percent)
        d["v"] = {str(i): [float(v[b.node_Vr]), float(v[b.node_Vi])] for i, b in H["buses"].items()}
        d["gen"] = [[float(g.P), float(g.Q)] for g in o.res.generator_results]
        d["load"] = [[float(g.P), float(g.Q)] for g in o.res.load_results]
        d["bus"] = [b.bus.Bus for b in o.res.bus_results]
    return d

def differ(a, b, rtol=1e-7):
    """First difference between two described outcomes, or None. Voltages of failed solves are not compared."""
    if a["kind"] != b["kind"]:
        return f"outcome {a['kind']} ({a['exc']}) instead of {b['kind']} ({b['exc']})"
    if a["kind"] == "raise":
        return None if a["exc"] == b["exc"] else f"raises {a['exc']} instead of {b['exc']}"
    if a["kind"] != "success":
        return None
    if a["iters"] != b["iters"]: return f"{a['iters']} iterations instead of {b['iters']}"
    if abs(a["tx"] - b["tx"]) > 1e-12: return f"homotopy remainder {a['tx']} instead of {b['tx']}"
    if set(a["v"]) != set(b["v"]): return "other buses"
    if a["bus"] != b["bus"]: return "bus results for other buses or in another order"
    scale = max([1e-9] + [max(map(abs, z)) for z in b["v"].values()])
    for k, z in b["v"].items():
        y = a["v"][k]
        if max(abs(y[0] - z[0]), abs(y[1] - z[1])) > rtol * scale:
            return f"bus {k} at {y} instead of {z}"
    for name in ("gen", "load"):
        if len(a[name]) != len(b[name]): return f"{len(a[name])} {name} results instead of {len(b[name])}"
        s = max([1e-6] + [max(map(abs, x)) for x in b[name]])
        for x, y in zip(a[name], b[name]):
            if max(abs(x[0] - y[0]), abs(x[1] - y[1])) > 1e-5 * s + 1e-6:
                return f"{name} result {x} instead of {y}"
    return None

def parse_result_files(prefix):
    """-> (None | "FAILURE" | {"bus": [(id, mag, deg)], "rows": [(P, Q)]}, problem or None)"""
    out = {}
    state = []
    for kind in ("voltage", "power"):
        p = f"{prefix}_{kind}.csv"
        if not os.path.exists(p):
            state.append(None); continue
        text = open(p).read()
        if text == "FAILURE":
            state.append("FAILURE"); continue
        lines = text.split("\n")
        if lines[-1] not in ("", "VIOLATED EQUIPMENT RATINGS"):
            return None, f"{p} ends in the middle of a line: {lines[-1][:60]!r}"
        head = {"voltage": "bus,name,v_magnitude,v_ang_degrees", "power": "bus,name,P(MW),Q(MVar)"}[kind]
        if lines[0] != head: return None, f"{p} starts with {lines[0][:60]!r}"
        try:
            rows = [l.rsplit(",", 2) for l in lines[1:-1]]
            rows = [(r[0], float(r[1]), float(r[2])) for r in rows]
        except (ValueError, IndexError):
            return None, f"{p} has a malformed line"
        out[kind] = rows
        state.append("rows")
    if state == [None, None]: return None, None
    if state == ["FAILURE", "FAILURE"]: return "FAILURE", None
    if state != ["rows", "rows"]: return None, f"{prefix}: voltage file {state[0]}, power file {state[1]}"
    return out, None

def match_result_files(prefix, d, spec=None):
    """Whether the two result files of a snapshot hold exactly the described outcome. -> problem or None"""
    import math
    f, problem = parse_result_files(prefix)
    if problem: return problem
    if f is None: return f"{prefix}: no result files"
    if d["kind"] != "success":
        return None if f == "FAILURE" else f"{prefix}: files of a failed solve are not marked FAILURE"
    if f == "FAILURE": return f"{prefix}: files of a successful solve are marked FAILURE"
    if len(f["voltage"]) != len(d["bus"]): return f"{prefix}: {len(f['voltage'])} voltages for {len(d['bus'])} buses"
    for (name, mag, deg), b in zip(f["voltage"], d["bus"]):
        z = complex(*d["v"][str(b)])
        if not name.startswith(f"{b},"): return f"{prefix}: row {name!r} where bus {b} belongs"
        if abs(mag - abs(z)) > 6e-4 + 1e-6 * abs(z): return f"{prefix}: bus {b} written as {mag}, is {abs(z)}"
        a = math.degrees(math.atan2(z.imag, z.real)) if abs(z) >= 1e-8 else 0
        if abs((deg - a + 180) % 360 - 180) > 2e-3: return f"{prefix}: bus {b} angle written as {deg}, is {a}"
    want = d["gen"] + d["load"]
    if len(f["power"]) != len(want): return f"{prefix}: {len(f['power'])} power rows, expected {len(want)}"
    for (name, p, q), (P, Q) in zip(f["power"], want):
        if abs(p - P) > 6e-3 + 2e-5 * abs(P) + 1e-5 * abs(Q) or abs(q - Q) > 6e-3 + 2e-5 * abs(Q) + 1e-5 * abs(P):
            return f"{prefix}: power row {name},{p},{q} where {P},{Q} belongs"
    return None
