"""Rotor analyses on the real code, recorded for spec/traces/T_Rotor.tla."""
import math
import random

import numpy as np

from airfoils import AnalyticAF, TableAF
from drv_polar import curves
from rec import Bad, call, ccblade_import, d, da, num

ccblade_import()
from ccblade.ccblade import CCAirfoil, CCBlade  # noqa: E402
from ccblade.csystem import DirectionVector  # noqa: E402

LOADS = ["Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re"]
DIM = ["P", "T", "Y", "Z", "Q", "My", "Mz", "Mb"]
COEF = ["CP", "CT", "CY", "CZ", "CQ", "CMy", "CMz", "CMb"]
ARR = ["r", "chord", "theta", "precurve", "presweep"]
SCAL = ["Rhub", "Rtip", "precurveTip", "presweepTip", "precone", "tilt", "yaw", "shear", "hubHt", "rho", "mu"]
FLAGS = ["tiploss", "hubloss", "wakerotation", "usecd"]


# ---------------------------------------------------------------- configurations
def stations(rng, usual):
    """number of stations: now and then only two, or many"""
    x = rng.random()
    return 2 if x < 0.04 else rng.randint(17, 45) if x < 0.07 else rng.choice(usual)


def geometry(rng, sc, n):
    """stations, hub and tip; sc: scenario record of spec/models/M_Config.tla"""
    x = rng.uniform(0.3, 2.0)
    R = 10 ** (x if 0.45 < x < 1.95 else 0.45 - 7 * (0.45 - x) if x < 1 else 1.95 + 5 * (x - 1.95))   # model rotors and giants
    hub = R * rng.uniform(0.02, 0.2)
    u = sorted(rng.random() for _ in range(n))
    gaps = [0.25 + rng.random() for _ in range(n - 1)]
    tot = sum(gaps)
    lo = hub if sc["hubN"] else hub + (R - hub) * rng.uniform(0.02, 0.12)
    hi = R if sc["tipN"] else R - (R - hub) * rng.uniform(0.02, 0.12)
    r = [lo]
    for g in gaps:
        r.append(r[-1] + g / tot * (hi - lo))
    r[-1] = hi
    if sc.get("tight") and n > 3:  # neighbours closer to the end than 1% of the span
        if sc["hubN"]:
            r[1] = r[0] + (r[-1] - r[0]) * rng.uniform(0.002, 0.015)
        if sc["tipN"]:
            r[-2] = r[-1] - (r[-1] - r[0]) * rng.uniform(0.002, 0.015)
    if rng.random() < 0.15:    # ends close to, but not on, the hub and the tip
        if sc["hubN"]:
            hub = r[0] * (1 - 10 ** rng.uniform(-9, -3))
        if sc["tipN"]:
            R = r[-1] * (1 + 10 ** rng.uniform(-9, -3))
    r = np.array(r)
    c = dict(r=r, Rhub=hub, Rtip=R, chord=R * np.array([rng.uniform(0.03, 0.12) for _ in r]),
             theta=np.array([rng.uniform(-5, 25) for _ in r]))
    if sc["curve"]:
        k = rng.uniform(-0.15, 0.15) * R
        c["precurve"] = k * (r / R) ** 2 + np.array([rng.uniform(-0.01, 0.01) * R for _ in r])
        c["precurveTip"] = float(c["precurve"][-1]) if sc["curveEq"] else float(k + rng.uniform(-0.02, 0.02) * R)
    else:
        c["precurve"], c["precurveTip"] = np.zeros(n), 0.0
    if sc["sweep"]:
        k = rng.uniform(-0.1, 0.1) * R
        c["presweep"] = k * (r / R) ** 2 + np.array([rng.uniform(-0.01, 0.01) * R for _ in r])
        c["presweepTip"] = float(c["presweep"][-1]) if sc["curveEq"] else float(k + rng.uniform(-0.02, 0.02) * R)
    else:
        c["presweep"], c["presweepTip"] = np.zeros(n), 0.0
    for x in ("precurve", "presweep"):
        if c[x].any() and sc["curveEq"]:
            y = rng.random()
            if y < 0.1:      # almost, but not exactly, the same
                c[x + "Tip"] = float(c[x][-1] * (1 + 10 ** rng.uniform(-9, -3)))
            elif y < 0.2:    # the blade ends on its axis
                c[x][-1] = c[x + "Tip"] = 0.0
    c["precone"] = rng.choice([0.0, rng.uniform(-15, 15)]) if not sc.get("cone0") else 0.0
    c["tilt"] = 0.0 if sc["tilt0"] else rng.choice([-1, 1]) * some(rng, 1, 25, 1e-4, 80)
    c["yaw"] = 0.0 if sc["yaw0"] else rng.choice([-1, 1]) * some(rng, 1, 35, 1e-4, 180)
    c["shear"] = 0.0 if sc["shear0"] else some(rng, 0.05, 0.5, 1e-5, 1.0)
    c["hubHt"] = R * rng.uniform(1.3, 3.0)
    if rng.random() < 0.12:      # the blades pass close to the ground (their heights stay positive)
        reach = max(np.sqrt(r ** 2 + c["precurve"] ** 2 + c["presweep"] ** 2).max(),
                    np.sqrt(R ** 2 + c["precurveTip"] ** 2 + c["presweepTip"] ** 2))
        c["hubHt"] = float(reach * (1 + 10 ** rng.uniform(-1.6, -0.7)))
    c["rho"], c["mu"] = rng.uniform(0.8, 1.4), rng.uniform(1e-5, 3e-5)
    if c["rho"] > 1.35:     # water
        c["rho"], c["mu"] = c["rho"] * 750, c["mu"] * 50
    elif c["rho"] < 0.83:   # thin air
        c["rho"] *= 0.01
    c["B"] = sc["B"] if "B" in sc and rng.random() < .7 else rng.choice([1, 2, 3, 4])
    c["nSector"] = sc["nSector"] if "nSector" in sc and rng.random() < .7 else rng.choice([1, 3, 5, 7, 8, 11])
    c["iterRe"] = sc["iterRe"]
    for f in FLAGS:
        c[f] = bool(sc[f])
    return c


def least(rng, lo, hi):
    """drag: now and then hardly any or none"""
    x = rng.random()
    return 0.0 if x < 0.05 else 10 ** rng.uniform(-7, -3) if x < 0.12 else 10 ** rng.uniform(lo, hi)


def airfoil(rng, kind):
    if kind == "null":
        return AnalyticAF("const", [0.0, 0.0])
    if kind == "const":
        return AnalyticAF("const", [rng.choice([-1, 1, 1, 1]) * 10 ** rng.uniform(-1.5, 0.6), least(rng, -3, 0.3)])
    if kind == "trig":
        return AnalyticAF("trig", [rng.uniform(2, 7), least(rng, -2.5, -1.5), rng.uniform(-0.1, 0.05),
                                   rng.uniform(0.5, 2.0), 0.0, 0.0])
    if kind == "trigre":
        return AnalyticAF("trig", [rng.uniform(2, 7), 10 ** rng.uniform(-2.0, -1.5), rng.uniform(-0.1, 0.05),
                                   rng.uniform(0.5, 2.0), rng.uniform(-0.05, 0.08), rng.uniform(-5e-4, 5e-4)])
    raise ValueError(kind)


def table_airfoil(rng, multi=False):
    """a CCAirfoil built from sampled data at one or more Reynolds numbers"""
    return TableAF(CCAirfoil(*table_data(rng, multi)))


def stalling_airfoil(rng):
    """sharp stall and scattered data: several solutions per section"""
    al = np.unique(np.concatenate([np.linspace(-180, 180, 37), np.linspace(-20, 25, 30)]))
    cl, cd, _ = curves(rng, al)
    return TableAF(CCAirfoil(al, [1e6], cl[:, None], np.abs(cd)[:, None] + 0.004))


def cylinder(rng):
    al = np.array([-180.0, 0.0, 180.0])
    return TableAF(CCAirfoil(al, [1e6], np.zeros((3, 1)), np.full((3, 1), rng.uniform(0.3, 0.6))))


def table_data(rng, multi):
    al = np.unique(np.concatenate([np.linspace(-180, 180, 37), np.linspace(-20, 25, 30)]))
    t = np.deg2rad(al) + rng.uniform(0, 0.08)
    cl = rng.uniform(3, 6) * np.sin(t) * np.cos(t) * np.where(np.abs(al) < 14, 1.2, 0.8)
    cd = rng.uniform(0.006, 0.012) + rng.uniform(0.8, 1.6) * np.sin(t) ** 2
    Re = [1e6] if not multi or rng.random() < 0.3 else sorted(10 ** rng.uniform(4, 9) for _ in range(rng.choice([2, 2, 3, 4])))
    f = np.linspace(1.0, rng.uniform(0.8, 1.2), len(Re))
    return al, Re, np.outer(cl, f), np.outer(cd, f[::-1])


def desc(c, af):
    e = {k: da(c[k]) for k in ARR}
    e.update({k: d(c[k]) for k in SCAL})
    e.update({k: c[k] for k in FLAGS})
    e.update(B=c["B"], nSector=c["nSector"], iterRe=c["iterRe"], af=[a.desc() for a in af])
    return e


def some(rng, lo, hi, small, big):
    """mostly between lo and hi, sometimes tiny or large"""
    x = rng.random()
    if x < 0.08:
        return small * 10 ** rng.uniform(0, 3)
    return rng.uniform(hi, big) if x < 0.14 else big if x < 0.18 else rng.uniform(lo, hi)


# arguments of the constructor that may be left out, with their documented defaults
DEFAULTS = [("B", 3), ("rho", 1.225), ("mu", 1.81206e-5), ("precone", 0.0), ("tilt", 0.0), ("yaw", 0.0), ("shear", 0.2), ("hubHt", 80.0),
            ("nSector", 8), ("precurve", 0.0), ("precurveTip", 0.0), ("presweep", 0.0), ("presweepTip", 0.0), ("tiploss", True),
            ("hubloss", True), ("wakerotation", True), ("usecd", True), ("iterRe", 1)]


def variant(rng, c):
    """now and then: whole numbers, lists, arguments left out"""
    x = rng.random()
    if x < 0.12:
        f = max(1.0, 40 / c["Rtip"])
        w = {k: np.round(c[k] * f) for k in ("r", "precurve", "presweep")}
        if rng.random() < 0.5:     # gently, so that the nudged stations fall between whole numbers
            for k in ("precurve", "presweep"):
                w[k] = np.sign(w[k][-1]) * np.arange(len(w["r"])) * 1.0 if c[k].any() else w[k]
        if (np.diff(w["r"]) > 0).all() and w["r"][0] > 0:
            eq = {"precurve": c["precurveTip"] == c["precurve"][-1], "presweep": c["presweepTip"] == c["presweep"][-1]}
            hub, tip = c["Rhub"] == c["r"][0], c["Rtip"] == c["r"][-1]
            c.update(w)
            c["chord"] = c["chord"] * f
            c["hubHt"] *= f
            c["Rhub"] = float(w["r"][0]) if hub else w["r"][0] * 0.9
            c["Rtip"] = float(w["r"][-1]) if tip else w["r"][-1] * 1.02
            for k in eq:
                c[k + "Tip"] = float(c[k][-1]) if eq[k] else float(round(c[k + "Tip"] * f))
            c["as"] = rng.choice(["int", "list"])
    elif x < 0.18:
        c["as"] = "floats"
    if rng.random() < 0.12 and c["Rtip"] < 70:
        c["omit"] = rng.randrange(len(DEFAULTS))
        for k, v in DEFAULTS[c["omit"]:]:
            c[k] = np.full(len(c["r"]), v) if k in ARR else v
    return c


def build(c, af, derivatives=False, none_curve=False):
    a = {k: c[k] for k in ARR}
    if "as" in c:
        for k in ("r", "precurve", "presweep"):
            a[k] = {"int": lambda v: v.astype(int), "list": lambda v: [int(x) for x in v], "floats": lambda v: v.tolist()}[c["as"]](c[k])
    for k in ("precurve", "presweep"):
        if none_curve and not c[k].any() and c[k + "Tip"] == 0:
            a[k] = None
    rest = [a[k] if k in ARR else c[k] for k, _ in DEFAULTS]
    if "omit" in c:
        rest = rest[:c["omit"]]
    return CCBlade(a["r"], a["chord"], a["theta"], af, c["Rhub"], c["Rtip"], *rest, **({"derivatives": True} if derivatives else {}))


def new(out, rid, c, af, none_curve=False, derivatives=False):
    c0 = desc(c, af)
    rot, err = call(build, c, af, derivatives, none_curve)
    out.line({"op": "New", "id": rid, "c": c0, "err": err, "after": {k: da(c[k]) for k in ARR}})
    return rot


def loads_of(res):
    loads = res[0]
    return {k: num(loads[k]) for k in LOADS}


def try_loads(f, *a):
    """loads of a section call as doubles, and an error text"""
    res, err = call(f, *a)
    if err:
        return {}, err
    try:
        return loads_of(res), ""
    except (Bad, KeyError, TypeError, IndexError) as e:
        return {}, f"unusable result: {type(e).__name__} {e}"


def undouble(v):
    import struct
    return struct.unpack(">d", struct.pack(">ii", *v))[0]


ENDS = (1e-6, math.pi / 2, -math.pi / 4, -1e-6, math.pi - 1e-6)


def section(out, rid, rot, c, af, U, Om, pitch, az, cs=False):
    e = {"op": "Section", "id": rid, "U": d(U), "Om": d(Om), "pitch": d(pitch), "az": d(az)}
    e["L"], e["err"] = try_loads(rot.distributedAeroLoads, U, Om, pitch, az)
    if not e["err"] and any(isinstance(a, TableAF) for a in af):
        q = []
        h = 1e-9
        for i, a in enumerate(af):
            al = math.radians(undouble(e["L"]["alpha"][i])) if i < len(e["L"]["alpha"]) else 0.0
            row = []
            for t in (al - h, al, al + h):
                cl, cd = a.evaluate(t, 1e6) if math.isfinite(t) else (0.0, 0.0)
                row += [d(cl), d(cd)]
            q.append(row)
        e["q"] = q
        # coefficients at the ends of the search intervals (order: std lower, 90, -45, -lower, upper)
        e["ends"] = [[d(x) for ph in ENDS for x in a.evaluate(ph - math.radians(th) - math.radians(pitch), 1e6)]
                     for a, th in zip(af, c["theta"])]
    if cs:
        v, err = call(by_csystem, c, U, Om, az)
        if not err:
            e["cs"] = v
    out.line(e)
    return e


def by_csystem(c, U, Om, az):
    """inflow of every section with the package's own coordinate transformations, at the effective stations"""
    r, cv, sw = effective(c)
    pos = DirectionVector(cv, sw, r).bladeToAzimuth(c["precone"])
    dx, dz = -np.diff(pos.x), np.diff(pos.z)
    seg = np.rad2deg(np.arctan2(dx, dz))
    cone = np.concatenate([[seg[0]], 0.5 * (seg[1:] + seg[:-1]), [seg[-1]]])
    h = pos.azimuthToHub(az).hubToYaw(c["tilt"]).z
    V = U * (1 + h / c["hubHt"]) ** c["shear"]
    w = DirectionVector(V, 0 * V, 0 * V).windToYaw(c["yaw"]).yawToHub(c["tilt"]).hubToAzimuth(az).azimuthToBlade(cone)
    om = DirectionVector(Om * np.pi / 30 * np.ones_like(r), 0 * r, 0 * r)
    rot = (-om.cross(pos)).azimuthToBlade(cone)
    return [[d(a), d(b)] for a, b in zip(w.x + rot.x, w.y + rot.y)]


def effective(c):
    """documented positions of the stations (only used to place the csystem comparison)"""
    r, cv, sw = c["r"].copy(), c["precurve"].copy(), c["presweep"].copy()
    nd = (r - r[0]) / (r[-1] - r[0])
    hub, tip = min(0.01, nd[:2].mean()), max(0.99, nd[-2:].mean())
    r0, cv0, sw0 = r.copy(), cv.copy(), sw.copy()
    if c["Rhub"] == r0[0]:
        r[0] = np.interp(hub, nd, r0)
    if c["Rtip"] == r0[-1]:
        r[-1] = np.interp(tip, nd, r0)
    if c["precurveTip"] == cv0[-1]:
        cv[-1] = np.interp(tip, nd, cv0)
    if c["presweepTip"] == sw0[-1]:
        sw[-1] = np.interp(tip, nd, sw0)
    return r, cv, sw


def outputs_of(o, coef):
    e = {k: num(o[k]) for k in DIM}
    for k in COEF:
        if k in o:
            e[k] = num(o[k])
    return e


def sectors(c):
    if c["tilt"] == 0 and c["yaw"] == 0 and c["shear"] == 0:
        return [0.0, 360.0 / 7, 90.0, 120.0, 180.0, 240.0, 301.0]
    n = max(4, c["nSector"])
    return [360.0 * k / n for k in range(n)]


def evaluate(out, rid, rot, c, U, Om, pitch, coef, given=lambda x: x):
    e = {"op": "Evaluate", "id": rid, "U": da(np.atleast_1d(U)), "Om": da(np.atleast_1d(Om)), "pitch": da(np.atleast_1d(pitch)),
         "coef": coef, "sect": [], "out": {}}
    ok, one = True, 0
    for j in range(len(np.atleast_1d(U))):
        row = []
        for az in sectors(c):
            AnalyticAF.asked = 0
            L, err = try_loads(rot.distributedAeroLoads, np.atleast_1d(U)[j], np.atleast_1d(Om)[j], np.atleast_1d(pitch)[j], az)
            if err or len(L["Np"]) != len(c["r"]):
                ok = False
            else:
                row.append({"az": d(az), "Np": L["Np"], "Tp": L["Tp"]})
                one += AnalyticAF.asked if az == 0 else 0
        e["sect"].append(row)
    AnalyticAF.asked = 0
    res, e["err"] = call(rot.evaluate, given(U), given(Om), given(pitch), coef)
    e["one"], e["asked"] = one, AnalyticAF.asked    # evaluations of airfoils: of one azimuth each, of the rotor analysis
    if not ok and not e["err"]:
        e["err"] = "section analysis failed"
    if not e["err"]:
        try:
            e["out"] = outputs_of(res[0], coef)
            if coef:
                p, err = call(rot.evaluate, given(U), given(Om), given(pitch), False)
                e["plain"] = outputs_of(p[0], False) if not err else {}
                e["err"] = err
        except (Bad, KeyError, TypeError, IndexError) as x:
            e["err"] = f"unusable result: {type(x).__name__} {x}"
    out.line(e)


# ---------------------------------------------------------------- drivers per kind of scenario
def condition(rng, c, regime):
    """wind speed, rotor speed (rpm), pitch, azimuth"""
    U = rng.uniform(3, 25)
    tsr = {"normal": rng.uniform(3, 12), "slow": rng.uniform(0.3, 3), "fast": rng.uniform(8, 25)}.get(regime, rng.uniform(1, 12))
    Om = tsr * U / c["Rtip"] * 30 / math.pi
    pitch = rng.choice([0.0, rng.uniform(-5, 20), rng.uniform(-30, 60)])
    odd = rng.random() if regime in ("normal", "slow") else 1.0
    if odd < 0.06:  # idling
        Om = 10 ** rng.uniform(-4, -0.5)
    elif odd < 0.12:  # hardly any wind, or a storm, with the rotor speed scaled along
        f = rng.choice([10 ** rng.uniform(-3, -1), rng.uniform(2, 5)])
        U, Om = U * f, Om * f
    elif odd < 0.18:
        pitch = rng.choice([-90.0, 90.0, rng.uniform(60, 180), rng.uniform(-180, -30)])
    elif odd < 0.24:  # whole numbers
        U, Om, pitch = max(1, round(U)), max(1, round(Om)), round(pitch)
    if regime == "negU":
        U = -U
    if regime == "negOm":
        Om = -Om
    if regime == "negBoth":
        U, Om = -U, -Om
    return U, Om, pitch, rng.choice([0.0, 90.0, 180.0, 270.0, rng.uniform(0, 360), rng.uniform(-720, 720)])


def run_null(out, rng, sc, k):
    c = variant(rng, geometry(rng, sc, stations(rng, [3, 4, 5, 8])))
    af = [airfoil(rng, "null") for _ in c["r"]]
    rot = new(out, 1, c, af, none_curve=rng.random() < 0.5)
    if rot is None:
        return
    for regime in ("normal", "slow", rng.choice(["fast", "negOm", "negU", "negBoth"])):
        U, Om, pitch, az = condition(rng, c, regime)
        section(out, 1, rot, c, af, U, Om, pitch, az, cs=True)


def heavy(rng, c):
    c["chord"] = c["chord"] * 10 ** rng.uniform(0, 1.2)


def run_bem(out, rng, sc, k):
    c = variant(rng, geometry(rng, sc, stations(rng, [3, 5, 7])))
    regime = sc["regime"]
    if regime == "heavy":
        heavy(rng, c)
        regime = rng.choice(["normal", "fast", "slow"])
    if regime in ("negU", "negOm", "negBoth", "brake") or rng.random() < 0.2:
        c["theta"] = np.array([rng.uniform(-60, 60) for _ in c["r"]])
        if rng.random() < 0.7:
            heavy(rng, c)
    if regime == "brake":
        c["tiploss"] = c["hubloss"] = False
        c.pop("omit", 0)
    kinds = ["const", "trig", "trigre"]
    af = [airfoil(rng, rng.choice(kinds)) for _ in c["r"]]
    rot = new(out, 1, c, af, none_curve=rng.random() < 0.5)
    if rot is None:
        return
    for _ in range(2):
        U, Om, pitch, az = condition(rng, c, rng.choice(["negU", "negOm", "negBoth"]) if regime == "brake" else regime)
        section(out, 1, rot, c, af, U, Om, pitch, az)


def run_buhl(out, rng, sc, k):
    """a section placed on (or just off) the removable singularity of the Buhl/Glauert relation"""
    sc = dict(sc, hubN=False, tipN=False, curve=False, sweep=False, cone0=True, tilt0=True, yaw0=True, shear0=True, iterRe=1)
    c = geometry(rng, sc, 3)
    i = rng.randrange(3)
    phi = rng.uniform(0.04, 0.7)
    r, sp, cp, B = c["r"][i], math.sin(phi), math.cos(phi), c["B"]
    loss = lambda f: 2 / math.pi * math.acos(math.exp(-f))  # noqa: E731
    F = (loss(B / 2 * (c["Rtip"] - r) / (r * sp)) if c["tiploss"] else 1.0) * (loss(B / 2 * (r - c["Rhub"]) / (c["Rhub"] * sp)) if c["hubloss"] else 1.0)
    g3 = rng.choice([0.0, 0.0, 5e-7, -5e-7, 9e-7, 1.5e-6, -1.5e-6, 1e-4, -1e-4, 1e-2, -1e-2, 0.3])
    kk = (25 / 9 - 2 * F + g3) / (2 * F)
    sigma = B / 2 / math.pi * c["chord"][i] / r
    cn = kk * 4 * F * sp * sp / sigma
    cd = rng.uniform(0.005, 0.02)
    cl = (cn - (cd * sp if c["usecd"] else 0.0)) / cp
    ct = cl * sp - (cd * cp if c["usecd"] else 0.0)
    kp = sigma * ct / 4 / F / sp / cp if c["wakerotation"] else 0.0
    g1, g2 = 2 * F * kk - (10 / 9 - F), 2 * F * kk - (4 / 3 - F) * F
    a = (2 * F * kk - 4 / 9) / (g1 + math.sqrt(g2)) if kk > 2 / 3 else kk / (1 + kk)
    ratio = sp / (1 - a) / (cp * (1 - kp))  # Vx/Vy
    if not ratio > 0 or not math.isfinite(ratio):
        return
    af = [airfoil(rng, "trig") for _ in range(3)]
    af[i] = AnalyticAF("const", [cl, cd])
    rot = new(out, 1, c, af)
    if rot is None:
        return
    U = rng.uniform(4, 20)
    section(out, 1, rot, c, af, U, U / ratio / r * 30 / math.pi, 0.0, 0.0)


def run_table(out, rng, sc, k):
    sc = dict(sc, iterRe=1)
    c = geometry(rng, sc, 5)
    a = table_airfoil(rng)
    af = [a] * 5
    if rng.random() < 0.6:     # a cylinder at the root, tables of their own further out
        b = stalling_airfoil(rng)
        af = [rng.choice([cylinder(rng), b])] + [rng.choice([a, b]) for _ in range(3)] + [b]
    rot = new(out, 1, c, af)
    if rot is None:
        return
    for regime in ("normal", "slow"):
        U, Om, pitch, az = condition(rng, c, regime)
        section(out, 1, rot, c, af, U, Om, pitch, az)
    section(out, 1, rot, c, af, U, 0.0, pitch, az)


def run_parked(out, rng, sc, k):
    c = variant(rng, geometry(rng, sc, rng.choice([3, 5])))
    af = [airfoil(rng, rng.choice(["const", "trig", "trigre"])) for _ in c["r"]]
    rot = new(out, 1, c, af)
    if rot is None:
        return
    U, _, pitch, az = condition(rng, c, "normal")
    for az in (0.0, az, 180.0):
        section(out, 1, rot, c, af, U, 0.0, pitch, az)
        section(out, 1, rot, c, af, U, 0.0, pitch + 90.0, az)
    for _ in range(2):      # idling is not parked
        section(out, 1, rot, c, af, U, rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1), pitch, az)
    evaluate(out, 1, rot, c, [U, U * 2], [0.0, 0.0], [pitch, 90.0], rng.random() < 0.5)


def run_eval(out, rng, sc, k):
    c = geometry(rng, sc, stations(rng, [3, 4, 6]))
    if rng.random() < 0.06:
        c["nSector"] = rng.choice([24, 36, 45, 72, 100])
    c = variant(rng, c)
    af = [airfoil(rng, rng.choice(["const", "trig"])) for _ in c["r"]]
    rot = new(out, 1, c, af, none_curve=rng.random() < 0.5)
    if rot is None:
        return
    for coef in (False, True):
        npts = rng.choice([1, 2, 2, 3, 3, 4]) if rng.random() < 0.93 else rng.randint(5, 9)
        odd = rng.random() < 0.1
        cond = [condition(rng, c, rng.choice(["negU", "negOm", "negBoth"] if odd else ["normal", "slow"])) for _ in range(npts)]
        U, Om, pitch = ([x[i] for x in cond] for i in range(3))
        if npts == 1 and rng.random() < 0.5:
            U, Om, pitch = U[0], Om[0], pitch[0]
        shape = rng.choice([list, tuple, np.array, lambda x: np.reshape(x, (-1, 1)), lambda x: np.reshape(x, (2, -1)) if len(x) == 4 else np.array(x)])
        evaluate(out, 1, rot, c, U, Om, pitch, coef, lambda x: x if np.ndim(x) == 0 else shape(x))


def run_array(out, rng, sc, k):
    c = geometry(rng, dict(sc, curve=False), 4)
    af = [airfoil(rng, "null") for _ in c["r"]]
    rot = new(out, 1, c, af)
    if rot is None:
        return
    U, Om, pitch, az = condition(rng, c, "normal")
    Us = np.array([U * rng.uniform(0.7, 1.3) for _ in c["r"]])
    e = {"op": "ArrayWind", "id": 1, "Us": da(Us), "Om": d(Om), "pitch": d(pitch), "az": d(az)}
    e["L"], e["err"] = try_loads(rot.distributedAeroLoads, Us, Om, pitch, az)
    out.line(e)


def run_inverse(out, rng, sc, k):
    sc = dict(sc, iterRe=rng.choice([1, 1, 2]))
    c = geometry(rng, sc, rng.choice([3, 5]))
    if sc["regime"] == "heavy":
        heavy(rng, c)
    n = len(c["r"])
    af = [airfoil(rng, rng.choice(["const", "trig"])) for _ in c["r"]]
    rot = new(out, 1, c, af)
    if rot is None:
        return
    U, Om, pitch, az = condition(rng, c, rng.choice(["normal", "slow"]))
    al = np.deg2rad([rng.uniform(-2, 12) for _ in range(n)])
    same = rng.random() < 0.8
    cc = [a.evaluate(x, 1e6) for a, x in zip(af, al)] if same else [(rng.uniform(0.2, 1.5), rng.uniform(0.005, 0.05)) for _ in range(n)]
    rot.inverse_analysis = True
    rot.alpha, rot.cl, rot.cd = al.copy(), np.array([x[0] for x in cc], float), np.array([x[1] for x in cc], float)
    e = {"op": "Inverse", "id": 1, "U": d(U), "Om": d(Om), "pitch": d(pitch), "az": d(az), "ialpha": da(al),
         "icl": da([x[0] for x in cc]), "icd": da([x[1] for x in cc]), "theta": [], "direct": {"err": "not run", "L": {}}}
    e["L"], e["err"] = try_loads(rot.distributedAeroLoads, U, Om, pitch, az)
    if not e["err"]:
        th = np.array(rot.theta, float)
        e["theta"] = da(th)
        c2 = dict(c, theta=np.rad2deg(th))
        r2, err = call(build, c2, af)
        if err:
            e["direct"] = {"err": err, "L": {}}
        else:
            L, err = try_loads(r2.distributedAeroLoads, U, Om, pitch, az)
            if not err and any(len(L[x]) != n for x in LOADS):
                err = "wrong length"
            e["direct"] = {"err": err, "L": L}
    out.line(e)


def run_scale(out, rng, sc, k):
    sc = dict(sc, iterRe=rng.choice([1, 1, 2]), cone0=False)
    c = geometry(rng, sc, 4)
    af = [airfoil(rng, rng.choice(["const", "trig", "trigre"])) for _ in c["r"]]
    U, Om, pitch, az = condition(rng, c, rng.choice(["normal", "slow"]))
    if sc.get("parked"):
        Om = 0.0
    s = dict(rho=rng.choice([1.0, 2.0, rng.uniform(0.2, 900)]), L=rng.choice([1.0, 0.5, rng.uniform(0.05, 10)]),
             U=rng.choice([1.0, 4.0, rng.uniform(0.2, 5)]))
    c2 = dict(c, rho=c["rho"] * s["rho"], mu=c["mu"] * s["rho"] * s["L"] * s["U"])
    for x in ("r", "chord", "precurve", "presweep", "Rhub", "Rtip", "precurveTip", "presweepTip", "hubHt"):
        c2[x] = c[x] * s["L"]
    if c["Rhub"] == c["r"][0]:
        c2["Rhub"] = float(c2["r"][0])
    if c["Rtip"] == c["r"][-1]:
        c2["Rtip"] = float(c2["r"][-1])
    for x in ("curve", "sweep"):
        if c[f"pre{x}Tip"] == c[f"pre{x}"][-1]:
            c2[f"pre{x}Tip"] = float(c2[f"pre{x}"][-1])

    def one(cc, U, Om):
        r, err = call(build, cc, af)
        if err:
            return {}, {}, err
        L, err = try_loads(r.distributedAeroLoads, U, Om, pitch, az)
        if err:
            return {}, {}, err
        o, err = call(r.evaluate, [U], [Om], [pitch], True)
        if err:
            return {}, {}, err
        try:
            return L, outputs_of(o[0], True), ""
        except (Bad, KeyError, TypeError) as x:
            return {}, {}, f"unusable result {x}"
    L1, E1, e1 = one(c, U, Om)
    L2, E2, e2 = one(c2, U * s["U"], Om * s["U"] / s["L"])
    bad = e1 or e2
    if not bad and not all(np.isfinite([undouble(x) for x in L1[k2]]).all() for k2 in LOADS):
        return
    out.line({"op": "Scaled", "sc": {x: d(v) for x, v in s.items()}, "base": {"L": L1, "E": E1}, "out": {"L": L2, "E": E2},
              "err": bad, "cfg": desc(c, af), "cond": [d(U), d(Om), d(pitch), d(az)]})


RUN = dict(null=run_null, buhl=run_buhl, bem=run_bem, table=run_table, parked=run_parked, eval=run_eval, array=run_array,
           inverse=run_inverse, scale=run_scale)


def run(mode, scen, out, seed):
    for k, sc in scen:
        RUN[mode](out, random.Random(f"{seed}/{mode}/{k}"), sc, k)
