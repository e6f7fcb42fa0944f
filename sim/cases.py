"""Case files the repository reads, GridLAB-D .glm and PSS/E .RAW, made from a
small specification that a scenario carries (and that shrinking takes apart).

spec: {"fmt": "glm"|"raw", ...}.  text(spec) gives the file's text; the same
specification always gives the same text.
"""
import math

HEAD = """module powerflow {
    solver_method NR;
    line_capacitance false;
};
object overhead_line_conductor {
    name olc1;
    geometric_mean_radius 0.0244;
    resistance 0.306;
    diameter 0.721 in;
}
object overhead_line_conductor {
    name olc2;
    geometric_mean_radius 0.00814;
    resistance 0.592;
    diameter 0.563 in;
}
object line_spacing {
    name ls1;
    distance_AB 2.5;
    distance_BC 4.5;
    distance_AC 7.0;
    distance_AN 5.656854;
    distance_BN 4.272002;
    distance_CN 5.0;
    distance_AE 28.0;
    distance_BE 28.0;
    distance_CE 28.0;
    distance_NE 24.0;
}
object line_configuration {
    name lc1;
    conductor_A olc1;
    conductor_B olc1;
    conductor_C olc1;
    conductor_N olc2;
    spacing ls1;
}
"""


def _volts(v):
    h, s = 0.5 * v, math.sqrt(3) / 2 * v
    return (f"    voltage_A {v:.3f}+0.0j;\n"
            f"    voltage_B {-h:.3f}-{s:.3f}j;\n"
            f"    voltage_C {-h:.3f}+{s:.3f}j;\n"
            f"    nominal_voltage {v:.3f};\n")


def _j(p, q):
    return f"{p:.3f}{'+' if q >= 0 else '-'}{abs(q):.3f}j"


def glm_text(spec):
    out = [HEAD]
    v = {0: 7200.0}
    loads = {}
    for ld in spec["loads"]:
        loads.setdefault(ld["n"], []).append(ld)

    def node(k, swing=False):
        swing = swing or k in spec.get("swings", ())
        lds = [] if swing else loads.get(k, [])
        kind = "load" if lds else "node"
        s = f"object {kind} {{\n    name n{k};\n    phases ABCN;\n"
        if swing:
            s += "    bustype SWING;\n"
        s += _volts(v[k] + spec.get("dv", {}).get(str(k), 0))
        for ld in lds[:1]:
            for ph, p, q in ld["pq"]:
                if ld["z"] == "p":
                    s += f"    constant_power_{ph} {_j(p, q)};\n"
                elif ld["z"] == "i":
                    i = complex(p, -q) / v[k]
                    ang = {"A": 0, "B": -2 * math.pi / 3,
                           "C": 2 * math.pi / 3}[ph]
                    i *= complex(math.cos(ang), math.sin(ang))
                    s += f"    constant_current_{ph} {_j(i.real, i.imag)};\n"
                else:
                    z = v[k] ** 2 / complex(p, -q)
                    s += f"    constant_impedance_{ph} {_j(z.real, z.imag)};\n"
        return s + "}\n"

    out.append(node(0, True))
    for e in spec["els"]:
        k, p, t = e["n"], e["p"], e["t"]
        link = f"    phases ABCN;\n    from n{p};\n    to n{k};\n"
        if t == "xfmr":
            v[k] = v[p] / e["ratio"]
            out.append(
                f"object transformer_configuration {{\n    name tc{k};\n"
                "    connect_type WYE_WYE;\n    install_type PADMOUNT;\n"
                "    power_rating 6000;\n    powerA_rating 2000;\n"
                "    powerB_rating 2000;\n    powerC_rating 2000;\n"
                f"    primary_voltage {v[p] * math.sqrt(3):.3f};\n"
                f"    secondary_voltage {v[k] * math.sqrt(3):.3f};\n"
                "    resistance 0.01;\n    reactance 0.06;\n}\n"
                f"object transformer {{\n    name x{k};\n{link}"
                f"    configuration tc{k};\n}}\n")
        else:
            v[k] = v[p]
            if t == "line":
                out.append(f"object overhead_line {{\n    name l{k};\n{link}"
                           f"    length {e['len']};\n"
                           "    configuration lc1;\n}\n")
            elif t in ("switch", "open"):
                out.append(f"object switch {{\n    name s{k};\n{link}"
                           f"    status {'OPEN' if t == 'open' else 'CLOSED'};"
                           "\n}\n")
            elif t == "fuse":
                out.append(f"object fuse {{\n    name f{k};\n{link}"
                           "    current_limit 50000;\n    status CLOSED;\n}\n")
            elif t == "reg":
                out.append(
                    f"object regulator_configuration {{\n    name rc{k};\n"
                    "    Control OUTPUT_VOLTAGE;\n"
                    f"    band_center {v[k] * e['band']:.3f};\n"
                    f"    band_width {v[k] * 0.02:.3f};\n"
                    "    connect_type WYE_WYE;\n    time_delay 30;\n"
                    "    raise_taps 16;\n    lower_taps 16;\n"
                    "    regulation 0.10;\n    tap_pos_A 0;\n"
                    "    tap_pos_B 0;\n    tap_pos_C 0;\n}\n"
                    f"object regulator {{\n    name r{k};\n"
                    f"    phases ABC;\n    from n{p};\n    to n{k};\n"
                    f"    configuration rc{k};\n}}\n")
        out.append(node(k))
    for c in spec["caps"]:
        k = c["n"]
        if k not in v:
            continue
        ctl = ("    control VOLT;\n"
               f"    voltage_set_high {v[k] * 1.02:.3f};\n"
               f"    voltage_set_low {v[k] * 0.98:.3f};\n"
               if c["volt"] else
               "    control MANUAL;\n    switchA CLOSED;\n"
               "    switchB CLOSED;\n    switchC CLOSED;\n")
        out.append(
            f"object capacitor {{\n    name cap{k};\n    phases ABCN;\n"
            f"    pt_phase ABC;\n    parent n{k};\n    phases_connected ABC;\n"
            f"{ctl}" + "".join(f"    capacitor_{p} {c['mvar']} MVAr;\n"
                              for p in "ABC") +
            "    control_level INDIVIDUAL;\n    time_delay 30.0;\n"
            "    dwell_time 30.0;\n"
            f"    cap_nominal_voltage {v[k]:.3f};\n"
            f"    nominal_voltage {v[k]:.3f};\n}}\n")
    for t in spec["tpx"]:
        k = t["n"]
        if k not in v:
            continue
        out.append(
            f"object transformer_configuration {{\n    name ttc{k};\n"
            "    connect_type SINGLE_PHASE_CENTER_TAPPED;\n"
            "    install_type POLETOP;\n"
            f"    primary_voltage {v[k]:.3f} V;\n"
            "    secondary_voltage 120 V;\n    power_rating 25;\n"
            f"    power{t['ph']}_rating 25;\n"
            "    resistance 0.015;\n    reactance 0.01;\n}\n"
            f"object transformer {{\n    name tx{k};\n"
            f"    phases {t['ph']}S;\n    from n{k};\n    to tm{k};\n"
            f"    configuration ttc{k};\n}}\n"
            f"object triplex_meter {{\n    name tm{k};\n"
            f"    phases {t['ph']}S;\n    voltage_1 120;\n"
            "    voltage_2 120;\n    voltage_N 0;\n"
            "    nominal_voltage 120;\n}\n"
            f"object triplex_node {{\n    name tn{k};\n"
            f"    phases {t['ph']}S;\n    parent tm{k};\n"
            f"    power_1 {_j(t['p'], t['q'])};\n"
            f"    power_2 {_j(t['p'], t['q'])};\n"
            "    voltage_1 120;\n    voltage_2 120;\n    voltage_N 0;\n"
            "    nominal_voltage 120;\n}\n")
    return "\n".join(out)


def raw_text(spec):
    out = [" 0,    100.00, 33, 0, 0, 60.00       / case",
           " simulated case", ""]
    for b in spec["buses"]:
        out.append(f"    {b['i']},'B{b['i']:<11}', 138.0000,{b['ide']},   1,"
                   f"   1,   1,{b['vm']:.8f},{b['va']:11.6f}, 1.10000,"
                   " 0.90000, 1.10000, 0.90000")
    out.append("0 / END OF BUS DATA, BEGIN LOAD DATA")
    for d in spec["loads"]:
        out.append(f"{d['i']},'{d['id']}',1,1,1,{d['p']:.6f},{d['q']:.6f},"
                   "0.000,0.000,0.000,0.000,1,1,0")
    out.append("0 / END OF LOAD DATA, BEGIN FIXED SHUNT DATA")
    for d in spec["shunts"]:
        out.append(f"     {d['i']},' 1', 1,     {d['g']:.3f},    {d['b']:.3f}")
    out.append("0 / END OF FIXED SHUNT DATA, BEGIN GENERATOR DATA")
    for d in spec["gens"]:
        out.append(
            f"{d['i']},'1',{d['p']:.6f},{d['q']:.6f},{d['qt']:.6f},"
            f"{d['qb']:.6f},{d['vs']:.5f},0,100.000,0.00000,0.23000,0.00000,"
            "0.00000,1.00000,1,100.0,10000.000,-10000.000,1,1.0000,0,1.0000,"
            "0,1.0000,0,1.0000,0,1.0000")
    out.append("0 / END OF GENERATOR DATA, BEGIN BRANCH DATA")
    for d in spec["lines"]:
        out.append(
            f"     {d['i']},     {d['j']},'{d['ckt']} ',{d['r']:.5E},"
            f"{d['x']:.5E},{d['b']:.5E},   0.00,   0.00,   0.00,  0.00000,"
            "  0.00000,  0.00000,  0.00000,1,1,   0.00,   1,1.0000,   0,"
            "1.0000,   0,1.0000,   0,1.0000")
    out.append("0 / END OF BRANCH DATA, BEGIN TRANSFORMER DATA")
    for d in spec["xfmrs"]:
        out.append(
            f"     {d['i']},     {d['j']},    0,'1 ',1,1,1,0.00000E0,"
            "0.00000E0,2,'            ',1,   1,1.0000,   0,1.0000,   0,1.0000,"
            "   0,1.0000,'            '")
        out.append(f"{d['r']:.5E},{d['x']:.5E}, 100.00")
        out.append(f"{d['tap']:.6f},138.000,{d['ang']:8.3f},   0.00,   0.00,"
                   "   0.00,0,     0,1.500000,0.510000,1.500000,0.510000,159,"
                   " 0, 0.00000, 0.00000,  0.000")
        out.append("1.000000,138.000")
    out += [
        "0 / END OF TRANSFORMER DATA, BEGIN AREA DATA",
        "   1,    2,     0.000,   999.990,'AREA        '",
        "0 / END OF AREA DATA, BEGIN TWO-TERMINAL DC DATA",
        "0 / END OF TWO-TERMINAL DC DATA, BEGIN VSC DATA",
        "0 / END OF VSC DATA, BEGIN IMPEDANCE CORRECTION DATA",
        "0 / END OF IMPEDANCE CORRECTION DATA, BEGIN MULTI-TERMINAL DC DATA",
        "0 / END OF MULTI-TERMINAL DC DATA, BEGIN MULTI-SECTION LINE DATA",
        "0 / END OF MULTI-SECTION LINE DATA, BEGIN ZONE DATA",
        "   1,'ZONE    '",
        "0 / END OF ZONE DATA, BEGIN INTER-AREA TRANSFER DATA",
        "0 / END OF INTER-AREA TRANSFER DATA, BEGIN OWNER DATA",
        "    1,'1'",
        "0 / END OF OWNER DATA, BEGIN FACTS CONTROL DEVICE DATA",
        "0 / END OF FACTS CONTROL DEVICE DATA, BEGIN SWITCHED SHUNT DATA"]
    for d in spec.get("sshunts", ()):
        out.append(f"     {d['i']},0,0,1,1.10000,0.90000,     0,  100.0,"
                   f"'            ',   {d['b']:.2f},1,   {d['b']:.2f}")
    out += ["0 /END OF SWITCHED SHUNT DATA, BEGIN GNE DEVICE DATA",
            "0 /END OF GNE DEVICE DATA", "Q", ""]
    return "\n".join(out)


def text(spec):
    return glm_text(spec) if spec["fmt"] == "glm" else raw_text(spec)


def suffix(spec):
    return ".glm" if spec["fmt"] == "glm" else ".RAW"


def gen_glm(rng, n=None, kinds=None, devices=True, triplex=True, stress=1.0):
    n = n if n is not None else rng.randint(1, 5)
    kinds = kinds or ["line", "line", "line", "switch", "fuse", "xfmr"] + (
        ["reg"] if devices else [])
    els = []
    stepped = {0: False}
    for k in range(1, n + 1):
        p = rng.choice([k - 1, rng.randint(0, k - 1)])
        t = "line" if k == 1 else rng.choice(kinds)
        if t == "xfmr" and stepped[p]:
            t = "line"
        stepped[k] = stepped[p] or t == "xfmr"
        e = {"n": k, "p": p, "t": t}
        if t == "line":
            e["len"] = rng.randint(200, 3000)
        elif t == "xfmr":
            e["ratio"] = rng.choice([2.0, 3.0])
        elif t == "reg":
            e["band"] = rng.choice([0.97, 1.0, 1.02, 1.04])
        els.append(e)
    loads = []
    for e in els:
        if rng.random() < 0.6 or e is els[-1]:
            s = stress * (0.3 if stepped[e["n"]] else 1.0)
            phases = rng.choice(["ABC", "ABC", "AB", "C"])
            loads.append({"n": e["n"], "z": rng.choice("pppiz"), "pq": [
                [ph, round(s * rng.uniform(2e4, 4e5), 1),
                 round(s * rng.uniform(0, 2e5), 1)] for ph in phases]})
    caps = [{"n": rng.randint(1, n), "volt": devices and rng.random() < 0.5,
             "mvar": rng.choice([0.05, 0.1, 0.3])}] \
        if rng.random() < 0.35 else []
    tpx = [{"n": rng.randint(1, n), "ph": rng.choice("ABC"),
            "p": round(rng.uniform(500, 4000), 1),
            "q": round(rng.uniform(0, 1500), 1)}] \
        if triplex and rng.random() < 0.3 else []
    return {"fmt": "glm", "els": els, "loads": loads, "caps": caps,
            "tpx": tpx}


def gen_offsets(rng, spec):
    """Nominal voltages of the nodes of a feeder that are not quite the same,
    by about as much as the check of voltage regions allows or by more."""
    if spec["fmt"] == "glm":
        d = rng.choice([3, 7, 8, 9, 9, 12])
        spec["dv"] = {str(e["n"]): rng.choice([-d, d, d, d / 2, 0])
                      for e in spec["els"] if rng.random() < 0.8}
    return spec


def gen_micro(rng):
    """A feeder, and behind an open switch a microgrid with a swing bus of its
    own and a load that stands for a generator."""
    spec = gen_glm(rng, n=rng.randint(1, 2), kinds=["line"], devices=False,
                   triplex=False)
    a = max(e["n"] for e in spec["els"]) + 1
    n = rng.randint(1, 3)
    spec["els"].append({"n": a, "p": rng.randint(0, a - 1), "t": "open"})
    for k in range(a + 1, a + 1 + n):
        spec["els"].append({"n": k, "p": rng.randint(a, k - 1), "t": "line",
                            "len": rng.randint(200, 2000)})
        spec["loads"].append({"n": k, "z": rng.choice("ppi"), "pq": [
            [ph, round(rng.uniform(1e4, 1e5), 1),
             round(rng.uniform(0, 4e4), 1)] for ph in "ABC"]})
    spec["swings"] = [a]
    spec["caps"] = [c for c in spec["caps"] if not c["volt"]]
    return spec


def gen_raw(rng, n=None, stress=1.0, xfmrs=True):
    n = n if n is not None else rng.randint(2, 8)
    first = rng.choice([1, 1, 7, 101])
    step = rng.choice([1, 1, 3])
    ids = [first + step * k for k in range(n)]
    buses, gens, lines, tx, loads, shunts, ss = [], [], [], [], [], [], []
    for k, i in enumerate(ids):
        ide = 3 if k == 0 else 2 if rng.random() < 0.25 else 1
        vm = round(rng.uniform(0.98, 1.05), 4)
        buses.append({"i": i, "ide": ide, "vm": vm, "va": 0.0})
        if ide != 1:
            gens.append({"i": i, "p": 0.0 if ide == 3 else
                         round(rng.uniform(5, 40), 3), "q": 0.0,
                         "qt": 150.0, "qb": -150.0, "vs": vm})
        if ide != 3 and rng.random() < 0.8:
            loads.append({"i": i, "id": 1,
                          "p": round(stress * rng.uniform(2, 40), 3),
                          "q": round(stress * rng.uniform(-5, 15), 3)})
        if rng.random() < 0.2:
            shunts.append({"i": i, "g": 0.0,
                           "b": round(rng.uniform(1, 20), 3)})
        if rng.random() < 0.1:
            ss.append({"i": i, "b": round(rng.uniform(1, 20), 2)})
    pairs = [(ids[rng.randint(0, k - 1)], ids[k]) for k in range(1, n)]
    for _ in range(rng.randint(0, n)):
        a, b = rng.sample(ids, 2)
        pairs.append((min(a, b), max(a, b)))
    seen = {}
    for a, b in pairs:
        seen[(a, b)] = seen.get((a, b), 0) + 1
        if xfmrs and seen[(a, b)] == 1 and rng.random() < 0.2:
            tx.append({"i": a, "j": b, "r": 1e-7,
                       "x": round(rng.uniform(0.05, 0.3), 4),
                       "tap": rng.choice([1.0, 0.978, 1.02]),
                       "ang": rng.choice([0.0, 0.0, 3.0])})
        else:
            r = round(rng.uniform(0.005, 0.05), 5)
            lines.append({"i": a, "j": b, "ckt": seen[(a, b)], "r": r,
                          "x": round(r * rng.uniform(2, 5), 5),
                          "b": rng.choice([0.0, 0.02, 0.05])})
    return {"fmt": "raw", "buses": buses, "loads": loads, "shunts": shunts,
            "gens": gens, "lines": lines, "xfmrs": tx, "sshunts": ss}


def gen(rng, **kw):
    return gen_glm(rng, **kw) if rng.random() < 0.5 else gen_raw(rng)


def shrinks(spec):
    """Smaller specifications of the same format."""
    if spec["fmt"] == "glm":
        for key in ("tpx", "caps", "loads"):
            for k in range(len(spec[key])):
                yield dict(spec, **{key: spec[key][:k] + spec[key][k + 1:]})
        parents = {e["p"] for e in spec["els"]}
        for e in spec["els"]:
            if e["n"] not in parents:
                n = e["n"]
                yield dict(spec, els=[x for x in spec["els"] if x is not e],
                           **{key: [x for x in spec[key] if x["n"] != n]
                              for key in ("loads", "caps", "tpx")})
    else:
        for key in ("sshunts", "shunts", "loads", "lines", "xfmrs"):
            for k in range(len(spec[key])):
                yield dict(spec, **{key: spec[key][:k] + spec[key][k + 1:]})
        for b in spec["buses"][1:]:
            i = b["i"]
            yield dict(spec, buses=[x for x in spec["buses"] if x is not b],
                       **{key: [x for x in spec[key] if x["i"] != i
                                and x.get("j") != i]
                          for key in ("sshunts", "shunts", "loads", "lines",
                                      "xfmrs", "gens")})


# ------------------------------------------------------------------ what a loaded network is

def digest(net, execute=None):
    """A network as its user sees it: how much of what it has, and what solving it gives."""
    out = {"count": {k: len(v) for k, v in sorted(vars(net).items())
                     if isinstance(v, list) and k in
                     ("buses", "loads", "slack", "generators", "transformers",
                      "switches", "lines", "shunts", "capacitors", "fuses",
                      "regulators")}}
    out["names"] = [[str(b.Bus), str(b.NodeName), str(b.NodePhase)] for b in net.buses]
    if execute is not None:
        out["solve"] = execute(net)
    return out


def results(r):
    """A PowerFlowResults object as plain data, in its own order."""
    f = lambda x: float("%.10g" % float(x))
    return {"ok": bool(r.is_success), "iters": int(r.iterations),
            "bus": [[str(b.bus.Bus), str(b.bus.NodeName), str(b.bus.NodePhase),
                     f(b.V_r), f(b.V_i)] for b in r.bus_results],
            "gen": [[str(g.type_str), f(g.P), f(g.Q)]
                    for g in r.generator_results],
            "load": [[f(x.P), f(x.Q)] for x in r.load_results]}


def solve(net, st=None, pf=None):
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    try:
        pf = pf or PowerFlow(net, PowerFlowSettings(**(st or {})))
        return results(pf.execute())
    except Exception as e:
        return {"raise": type(e).__name__}


def close(a, b, rtol=1e-6, atol=1e-7):
    """First difference between two digests, or None. Failed solves are only
    compared in that they fail."""
    return _close(a, b, rtol, atol, "")


def _close(a, b, rtol, atol, at):
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return f"{at}: {a!r} instead of {b!r}"
        if set(a) != set(b):
            return f"{at}: {sorted(a)} instead of {sorted(b)}"
        if b.get("ok") is False and a.get("ok") is False:
            return None
        for k in b:
            d = _close(a[k], b[k], rtol, atol, f"{at}/{k}")
            if d:
                return d
        return None
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return f"{at}: {str(a)[:200]} instead of {str(b)[:200]}"
        if b and all(isinstance(x, (int, float)) for x in b + a):
            s = max(max(map(abs, b)), 1.0)
            if any(not abs(x - y) <= rtol * s + atol for x, y in zip(a, b)):
                return f"{at}: {a} instead of {b}"
            return None
        for k, (x, y) in enumerate(zip(a, b)):
            d = _close(x, y, rtol, atol, f"{at}[{k}]")
            if d:
                return d
        return None
    if isinstance(b, float) and isinstance(a, (int, float)):
        if a == b or abs(a - b) <= rtol * max(1.0, abs(b)) + atol:
            return None
        return f"{at}: {a} instead of {b}"
    return None if a == b else f"{at}: {a!r} instead of {b!r}"
