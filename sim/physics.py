"""What a network specification means, computed from the specification alone.

residual(spec, V, inf): the smallest achievable imbalance (2-norm over rows) of the network equations at bus
voltages V (id -> complex), minimised over the currents that voltages do not determine (sources, switches,
ideal transformers) and internal transformer voltages; these enter linearly. Also returns slack powers.
"""
import math
import cmath
import numpy as np

class Sys:
    def __init__(self):
        self.rows = {}       # key -> [const complex, {unknown: (coef, conj_coef)}]
        self.nunk = 0
        self.real = []       # real rows: (const, {})

    def unk(self):
        self.nunk += 1
        return self.nunk - 1

def solve_rows(rows, unk_c, unk_r):
    """rows: list of (const complex, {('c',i): coef, ('r',i): coef}); minimise the 2-norm."""
    n = 2 * len(rows)
    m = 2 * unk_c + unk_r
    A = np.zeros((n, m)); b = np.zeros(n)
    for k, (c, d) in enumerate(rows):
        b[2 * k] = c.real; b[2 * k + 1] = c.imag
        for (t, i), a in d.items():
            a = complex(a)
            if t == "c":
                A[2 * k, 2 * i] += a.real; A[2 * k, 2 * i + 1] += -a.imag
                A[2 * k + 1, 2 * i] += a.imag; A[2 * k + 1, 2 * i + 1] += a.real
            else:
                A[2 * k, 2 * unk_c + i] += a.real; A[2 * k + 1, 2 * unk_c + i] += a.imag
    if m == 0:
        return b, np.zeros(0)
    # scale columns for conditioning
    sc = np.max(np.abs(A), axis=0); sc[sc == 0] = 1
    z, *_ = np.linalg.lstsq(A / sc, -b, rcond=1e-13)
    z = z / sc
    return A @ z + b, z

def evaluate(spec, V, inf=None):
    """-> dict(res=2-norm, rows=n, constraint=max setpoint error, scale=sum of current magnitudes, slack=[S], genq=[Q])"""
    tx = spec["kind"] == "tx"
    bus = {b["id"]: b for b in spec["buses"]}
    K = {i: [0j, {}] for i in bus}         # KCL rows
    extra = []                             # other rows
    cons = []                              # direct setpoint errors
    nc = 0; nr = 0
    scale = [1.0]

    def v(i):
        return 0j if i is None else V[i]

    def add(i, c):
        if i is None: return
        K[i][0] += c
        scale[0] = max(scale[0], abs(c))

    def addu(i, u, a):
        if i is None: return
        K[i][1][u] = K[i][1].get(u, 0) + a

    def cunk():
        nonlocal nc
        nc += 1
        return ("c", nc - 1)

    def branch(f, t, y):
        # scale reflects the cancellation of y*vf - y*vt
        scale[0] = max(scale[0], abs(y) * max(abs(v(f)), abs(v(t))))
        c = y * (v(f) - v(t))
        add(f, c); add(t, -c)

    slack_u = []
    for s in spec.get("slack", []):
        u = cunk(); slack_u.append(u)
        addu(s["bus"], u, 1)
        cons.append(abs(v(s["bus"]) - cmath.rect(s["vset"], s["ang"])))
    for l in spec.get("loads", []):
        dv = v(l["f"]) - v(l["t"])
        if l["P"] or l["Q"]:
            c = (complex(l["P"], l["Q"]) / dv).conjugate() if dv != 0 else complex("nan")
            add(l["f"], c); add(l["t"], -c)
        if l.get("IP") or l.get("IQ"):
            c = complex(l.get("IP", 0), l.get("IQ", 0))
            add(l["f"], c); add(l["t"], -c)
        if l.get("Z"):
            branch(l["f"], l["t"], 1 / complex(*l["Z"]))
    gen_u = []
    for g in spec.get("gens", []):
        vb = v(g["bus"])
        add(g["bus"], (complex(-g["P"], 0) / vb).conjugate())
        u = ("r", nr); nr += 1
        gen_u.append(u)
        addu(g["bus"], u, (1j / vb).conjugate())
        cons.append(abs(g["vset"] ** 2 - abs(vb) ** 2))
    for l in spec.get("lines", []):
        if tx:
            branch(l["f"], l["t"], 1 / complex(l["r"], l["x"]))
            branch(l["f"], None, 1j * l["b"] / 2); branch(l["t"], None, 1j * l["b"] / 2)
        else:
            ids = {(b["name"], b["phase"]): b["id"] for b in spec["buses"]}
            ph = l["phases"]
            Z = np.array([[complex(*c) for c in row] for row in l["Z"]]) * l["length"]
            Y = np.linalg.inv(Z)
            Ysh = np.array([[complex(*c) for c in row] for row in l["Y"]]) * l["length"] if l.get("Y") else None
            vf = np.array([V[ids[(l["f"], p)]] for p in ph]); vt = np.array([V[ids[(l["t"], p)]] for p in ph])
            scale[0] = max(scale[0], float(np.max(np.abs(Y)) * max(np.max(np.abs(vf)), np.max(np.abs(vt)))))
            c = Y @ (vf - vt)
            for k, p in enumerate(ph):
                add(ids[(l["f"], p)], c[k]); add(ids[(l["t"], p)], -c[k])
            if Ysh is not None:
                cf = 1j * Ysh.imag / 2 @ vf; ct = 1j * Ysh.imag / 2 @ vt
                for k, p in enumerate(ph):
                    add(ids[(l["f"], p)], cf[k]); add(ids[(l["t"], p)], ct[k])

    def ideal_xfmr(fp, fn, tp, tn, r, x, tr, angdeg):
        ip = cunk(); vs = cunk()
        k = tr * cmath.exp(1j * math.radians(angdeg))
        addu(fp, ip, 1); addu(fn, ip, -1)
        # voltage relation: (Vfp - Vfn) - k (Vs - Vtn) = 0
        extra.append([v(fp) - v(fn) + k * v(tn), {vs: -k}])
        isec = -k.conjugate() if True else None
        # tr e^{-j ang} = conj(k)
        y = 1 / complex(r, x)
        scale[0] = max(scale[0], abs(y) * abs(v(tp)))
        extra.append([-y * v(tp), {ip: isec, vs: y}])        # KCL of the internal node
        addu(tp, vs, -y); add(tp, y * v(tp))
        addu(tn, ip, -isec)
    for x in spec.get("xfmrs", []):
        ideal_xfmr(x["fp"], x["fn"], x["tp"], x["tn"], x["r"], x["x"], x["tr"], x["ang"])
    for r in spec.get("regs", []):
        tap = max(-r.get("lower", 16), min(r.get("raise", 16), r["tap"]))
        ratio = 1 / (1 + r["step"] * tap) if r["type"] == "A" else 1 - r["step"] * tap
        ideal_xfmr(r["f"], None, r["cur"], None, 1e-4, 0, ratio, 0)
        u = cunk(); addu(r["cur"], u, 1); addu(r["t"], u, -1)
        extra.append([v(r["cur"]) - v(r["t"]), {}])
    for c in spec.get("cts", []):
        def y(k):
            z = complex(c["r"][k], c["x"][k]) * c["vn"][k] ** 2 / c["rating"]
            return 1 / z if z != 0 else 0
        branch(c["f"], c["pri"], y(0)); branch(c["s1"], c["t1"], y(1)); branch(c["s2"], c["t2"], y(2))
        i1 = cunk(); i2 = cunk()
        addu(c["pri"], i1, -1 / c["tr"]); addu(c["pri"], i2, 1 / c["tr"])
        addu(c["s1"], i1, 1); addu(c["s2"], i2, 1)
        extra.append([v(c["s1"]) - v(c["pri"]) / c["tr"], {}])
        extra.append([v(c["s2"]) + v(c["pri"]) / c["tr"], {}])
    for s in spec.get("switches", []):
        if s["status"] == "CLOSED":
            u = cunk(); addu(s["f"], u, 1); addu(s["t"], u, -1)
            extra.append([v(s["f"]) - v(s["t"]), {}])
    fuse_i = []
    for f in spec.get("fuses", []):
        if f.get("status", "GOOD") == "GOOD":
            yf = complex(1e4, 1e4)
            branch(f["f"], f["mid"], yf)
            u = cunk(); addu(f["mid"], u, 1); addu(f["t"], u, -1)
            extra.append([v(f["mid"]) - v(f["t"]), {}])
            fuse_i.append(u)
        else:
            fuse_i.append(None)
    for c in spec.get("caps", []):
        if c["switch"] == "CLOSED":
            branch(c["f"], c["t"], 1j * c["var"] / (c["vn"] ** 2))
    for s in spec.get("shunts", []):
        branch(s["bus"], None, complex(s["G"], s["B"]) / 100)
    if inf:
        for i, c in inf.items():
            add(i, c)
    rows = [tuple(r) for r in K.values()] + [tuple(r) for r in extra]
    if not all(np.isfinite(r[0]) for r in rows):
        return {"res": float("inf"), "rows": 2 * len(rows), "cons": float("inf"), "scale": scale[0], "slack": [], "genq": [], "fuse": []}
    r, z = solve_rows(rows, nc, nr)
    get = lambda u: complex(z[2 * u[1]], z[2 * u[1] + 1]) if u[0] == "c" else z[2 * nc + u[1]]
    slack = []
    for s, u in zip(spec.get("slack", []), slack_u):
        slack.append(v(s["bus"]) * get(u).conjugate())
    return {"res": float(np.linalg.norm(r)), "rows": 2 * len(rows), "cons": max(cons, default=0.0), "scale": scale[0],
            "slack": slack, "genq": [float(get(u)) for u in gen_u], "fuse": [abs(get(u)) if u else None for u in fuse_i]}

def voltages(results, H):
    """Bus voltages of a result, by bus id (virtual buses through their index in the solution)."""
    v = results.v_final
    return {i: complex(float(v[b.node_Vr]), float(v[b.node_Vi])) for i, b in H["buses"].items()}

def infeasibility(results, net):
    opt = net.optimization
    if opt is None:
        return None
    out = {}
    v = results.v_final
    for c in opt.infeasibility_currents:
        if hasattr(c, "node_Ir_inf"):
            z = complex(v[c.node_Ir_inf], v[c.node_Ii_inf])
        else:
            z = -complex(v[c.node_Ir_plus_inf] - v[c.node_Ir_minus_inf], v[c.node_Ii_plus_inf] - v[c.node_Ii_minus_inf])
        out[c.bus.Bus] = out.get(c.bus.Bus, 0) + z
    return out
