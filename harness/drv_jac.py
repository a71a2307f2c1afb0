"""Jacobians and results for perturbed inputs, recorded for spec/traces/T_Jac.tla."""
import math
import random

import numpy as np

from drv_rotor import COEF, DIM, LOADS, airfoil, build, condition, geometry, sectors, table_airfoil
from rec import Bad, call, d, da, num

VEC = ["r", "chord", "theta", "precurve", "presweep"]
SEC_SCALARS = ["Rhub", "Rtip", "precone", "tilt", "hubHt", "yaw", "shear"]
ROT_SCALARS = SEC_SCALARS + ["precurveTip", "presweepTip"]


# inputs in which a blade with stations on the hub or the tip, where the constructor nudges them, jumps
ENDS = ["r", "Rhub", "Rtip", "precurve", "presweep", "precurveTip", "presweepTip"]


def config(rng, sc, n, ends=False):
    if ends:       # stations on the hub and the tip, differentiated in the other inputs only
        return dict(geometry(rng, dict(sc, tight=False, iterRe=1), n), ends=True)
    sc = dict(sc, hubN=False, tipN=False, curveEq=False, tight=False, iterRe=1)
    c = geometry(rng, sc, n)
    # end gaps of a few percent so that loss factors vary moderately
    c["chord"] = c["chord"] * 0.7
    # a tip position equal to the last station's is nudged by the constructor: keep away from that case
    for v in ("precurve", "presweep"):
        if c[v + "Tip"] == c[v][-1] or abs(c[v + "Tip"] - c[v][-1]) < 0.02 * c["Rtip"]:
            c[v + "Tip"] = c[v][-1] + rng.choice([-0.03, 0.03]) * c["Rtip"]
    return c


def steps(c, U, Om, pitch):
    R = c["Rtip"]
    gap = float(min(np.min(np.diff(c["r"])), c["r"][0] - c["Rhub"] or R, c["Rtip"] - c["r"][-1] or R))
    h = dict(r=2e-3 * gap, Rhub=2e-3 * gap, Rtip=2e-3 * gap, chord=1e-3 * float(np.min(c["chord"])), theta=2e-2, precurve=1e-3 * gap,
             presweep=1e-3 * gap, precone=2e-2, tilt=2e-2, hubHt=1e-3 * c["hubHt"], yaw=2e-2, shear=1e-3, azimuth=5e-2,
             Uinf=1e-3 * abs(U), Omega=1e-3 * abs(Om) if Om else 1e-3, pitch=2e-2, precurveTip=1e-3 * gap, presweepTip=1e-3 * gap)
    return h


def perturbed(c, name, j, x):
    c = dict(c)
    if name in VEC:
        v = c[name].copy()
        v[j] += x
        c[name] = v
    else:
        c[name] = c[name] + x
    return c


class Failed(Exception):
    pass


def need(r):
    res, err = r
    if err:
        raise Failed(err)
    return res


def section_case(out, rng, sc, k, parked):
    n = rng.choice([3, 4, 5]) if rng.random() < 0.9 else rng.choice([2, 2, 9])
    c = config(rng, sc, n, rng.random() < 0.2)
    if parked:
        c["iterRe"] = rng.choice([1, 2])
    af = [airfoil(rng, rng.choice(["trig", "trig", "trigre", "const"])) for _ in range(n)]
    if rng.random() < 0.2:
        af[rng.randrange(n)] = table_airfoil(rng, True)
    if rng.random() < 0.15:
        # a section without any force (a gap, or a root of the blade left out of the airfoil data)
        af[rng.randrange(n)] = airfoil(rng, "null")
    U, Om, pitch, az = condition(rng, c, rng.choice(["normal", "normal", "slow", "fast"]))
    if parked:
        Om = 0.0
    e = {"op": "SecJac", "n": n, "parked": parked, "cfg": {x: c[x] for x in ("tiploss", "hubloss", "wakerotation", "usecd")}, "fd": [], "keys": [],
         "J": {}, "shape": {}, "off": 0}
    r0, err0 = call(build, c, af, False)
    r1, err = call(build, c, af, True)
    e["err0"], e["err"] = err0, err
    if not err0 and not err:
        a, e["err0"] = call(r0.distributedAeroLoads, U, Om, pitch, az)
        b, e["err"] = call(r1.distributedAeroLoads, U, Om, pitch, az)
        if not e["err0"] and not e["err"]:
            try:
                e["L0"] = {x: num(a[0][x]) for x in LOADS}
                e["L1"] = {x: num(b[0][x]) for x in LOADS}
                e["off"] = len(a[1])
                for o in ("Np", "Tp"):
                    D = b[1]["d" + o]
                    e["J"][o] = {x: num(v) for x, v in D.items()}
                    e["shape"][o] = {x: list(np.shape(v)) for x, v in D.items()}
                e["keys"] = sorted(e["J"]["Np"])
                h = steps(c, U, Om, pitch)

                def loads(cc, U, Om, pitch, az):
                    r = need(call(build, cc, af, False))
                    L = need(call(r.distributedAeroLoads, U, Om, pitch, az))[0]
                    return {x: num(L[x]) for x in ("Np", "Tp", "W")}
                items = [(x, j) for x in VEC for j in range(n)] + [(x, 0) for x in SEC_SCALARS + ["azimuth", "Uinf", "Omega", "pitch"]]
                if c.get("ends"):
                    items = [x for x in items if x[0] not in ENDS]
                for x, j in items:
                    if x == "Omega" and parked:
                        continue
                    v = {}
                    for tag, m in (("p1", 1), ("p2", 2), ("m1", -1), ("m2", -2)):
                        s = m * h[x]
                        if x in ("azimuth", "Uinf", "Omega", "pitch"):
                            v[tag] = loads(c, U + s * (x == "Uinf"), Om + s * (x == "Omega"), pitch + s * (x == "pitch"), az + s * (x == "azimuth"))
                        else:
                            v[tag] = loads(perturbed(c, x, j, s), U, Om, pitch, az)
                    e["fd"].append(dict(v, name="d" + x, j=j + 1, h=d(h[x])))
            except Failed as x:
                e["err0"] = f"perturbed analysis: {x}"
            except (Bad, KeyError, TypeError, IndexError) as x:
                e["err"] = f"unusable result: {type(x).__name__} {x}"
    out.line(e)


def rotor_case(out, rng, sc, k, mode):
    n = rng.choice([2, 3, 3])
    parked = mode == "parked"
    c = config(rng, sc, n, rng.random() < 0.2)
    af = [airfoil(rng, rng.choice(["trig", "trig", "trigre"])) for _ in range(n)]
    if rng.random() < 0.15:
        af[rng.randrange(n)] = airfoil(rng, "null")
    npts = rng.choice([1, 2, 2])
    cond = [condition(rng, c, rng.choice(["normal", "slow", rng.choice(["negU", "negOm", "negBoth", "slow"])])) for _ in range(npts)]
    U, Om, pitch = (np.array([x[i] for x in cond]) for i in range(3))
    if parked:
        Om = Om * 0.0
    coef = rng.random() < 0.7
    axi = c["tilt"] == 0 and c["yaw"] == 0 and c["shear"] == 0
    names = DIM + (COEF if coef else [])
    e = {"op": "RotJac", "n": n, "np": npts, "parked": parked, "coef": coef, "axi": axi, "B": c["B"], "fd": [], "J": {}, "shape": {}, "off": 0}
    r0, err0 = call(build, c, af, False)
    r1, err = call(build, c, af, True)
    e["err0"], e["err"] = err0, err
    if not err0 and not err:
        a, e["err0"] = call(r0.evaluate, U, Om, pitch, coef)
        b, e["err"] = call(r1.evaluate, U, Om, pitch, coef)
        if not e["err0"] and not e["err"]:
            try:
                e["o0"] = {x: num(a[0][x]) for x in names}
                e["o1"] = {x: num(b[0][x]) for x in names}
                e["off"] = len(a[1])
                for o in names:
                    D = b[1]["d" + o]
                    e["J"][o] = {x: num(v) for x, v in D.items()}
                    e["shape"][o] = {x: list(np.shape(v)) for x, v in D.items()}
                e["W"], e["a"] = [], []
                for q in range(npts):
                    Ls = [need(call(r0.distributedAeroLoads, U[q], Om[q], pitch[q], az))[0] for az in sectors(c)]
                    e["W"].append([v for L in Ls for v in num(L["W"])])
                    e["a"].append([v for L in Ls for v in num(L["a"])])
                hs = [steps(c, U[q], Om[q], pitch[q]) for q in range(npts)]

                def outs(cc, U, Om, pitch):
                    r = need(call(build, cc, af, False))
                    o = need(call(r.evaluate, U, Om, pitch, coef))[0]
                    return {x: num(o[x]) for x in names}

                def single(cc, U, Om, pitch):
                    """the same with one azimuth only: the mean over sectors replaced by azimuth 0"""
                    r = need(call(build, cc, af, False))
                    r.nSector = 1
                    o = need(call(r.evaluate, U, Om, pitch, coef))[0]
                    return {x: num(o[x]) for x in names}
                items = [(x, j) for x in VEC for j in range(n)] + [(x, 0) for x in ROT_SCALARS + ["Uinf", "Omega", "pitch"]]
                if c.get("ends"):
                    items = [x for x in items if x[0] not in ENDS]
                for x, j in items:
                    if x == "Omega" and parked:
                        continue
                    v = {}
                    az0 = []
                    h = min(q[x] for q in hs)
                    for tag, m in (("p1", 1), ("p2", 2), ("m1", -1), ("m2", -2)):
                        s = m * h
                        arg = (c, U + s * (x == "Uinf"), Om + s * (x == "Omega"), pitch + s * (x == "pitch")) if x in ("Uinf", "Omega", "pitch") \
                            else (perturbed(c, x, j, s), U, Om, pitch)
                        v[tag] = outs(*arg)
                        if axi and x in ("tilt", "yaw", "shear"):
                            az0.append(single(*arg))
                    e["fd"].append(dict(v, name="d" + x, j=j + 1, h=d(h), az0=az0))
            except Failed as x:
                e["err0"] = f"perturbed analysis: {x}"
            except (Bad, KeyError, TypeError, IndexError) as x:
                e["err"] = f"unusable result: {type(x).__name__} {x}"
    out.line(e)


def refuse_case(out, rng, sc, k):
    c = config(rng, sc, 3)
    c["iterRe"] = rng.choice([2, 3])
    af = [airfoil(rng, "trigre") for _ in range(3)]
    U, Om, pitch, az = condition(rng, c, "normal")

    def go(der, what):
        r, err = call(build, c, af, der)
        if err:
            return err
        if what == "section":
            return call(r.distributedAeroLoads, U, Om, pitch, az)[1]
        return call(r.evaluate, [U], [Om], [pitch], what == "coefficients")[1]
    for what in ("section", "rotor", "coefficients"):
        out.line({"op": "Refuse", "what": what, "err": go(True, what), "err0": go(False, what)})


def inverse_case(out, rng, sc, k):
    """inverse mode with derivatives, next to the direct analysis at the twist found"""
    n = rng.choice([3, 4])
    c = config(rng, sc, n)
    af = [airfoil(rng, "trig") for _ in range(n)]
    U, Om, pitch, az = condition(rng, c, rng.choice(["normal", "slow"]))
    al = np.deg2rad([rng.uniform(1, 9) for _ in range(n)])
    cc = [a.evaluate(x, 1e6) for a, x in zip(af, al)]
    e = {"op": "InvJac", "n": n, "fd": [], "J": {}, "D": {}, "shape": {}, "err": "", "err0": ""}

    def inverse(c, der, U, Om, pitch, az):
        r = need(call(build, c, af, der))
        r.inverse_analysis = True
        r.alpha, r.cl, r.cd = al.copy(), np.array([x[0] for x in cc], float), np.array([x[1] for x in cc], float)
        return r, call(r.distributedAeroLoads, U, Om, pitch, az)

    def loads(c, *a):
        L = need(inverse(c, False, *a)[1])[0]
        return {x: num(L[x]) for x in ("Np", "Tp", "W")}
    try:
        r0, a = inverse(c, False, U, Om, pitch, az)
        a = need(a)
        r1, b = inverse(c, True, U, Om, pitch, az)
        if b[1]:
            e["err"] = b[1]
        else:
            b = b[0]
            r2 = need(call(build, dict(c, theta=np.rad2deg(np.array(r0.theta, float))), af, True))
            dd = need(call(r2.distributedAeroLoads, U, Om, pitch, az))
            e["L0"] = {x: num(a[0][x]) for x in LOADS}
            e["L1"] = {x: num(b[0][x]) for x in LOADS}
            e["LD"] = {x: num(dd[0][x]) for x in LOADS}
            for o in ("Np", "Tp"):
                e["J"][o] = {x: num(v) for x, v in b[1]["d" + o].items()}
                e["shape"][o] = {x: list(np.shape(v)) for x, v in b[1]["d" + o].items()}
                e["D"][o] = {x: num(v) for x, v in dd[1]["d" + o].items()}
            h = steps(c, U, Om, pitch)
            for x, j in [(x, j) for x in ("chord", "theta") for j in range(n)] + [(x, 0) for x in ("Uinf", "Omega", "pitch", "precone")]:
                v = {}
                for tag, m in (("p1", 1), ("p2", 2), ("m1", -1), ("m2", -2)):
                    s = m * h[x]
                    if x in ("Uinf", "Omega", "pitch"):
                        v[tag] = loads(c, U + s * (x == "Uinf"), Om + s * (x == "Omega"), pitch + s * (x == "pitch"), az)
                    else:
                        v[tag] = loads(perturbed(c, x, j, s), U, Om, pitch, az)
                e["fd"].append(dict(v, name="d" + x, j=j + 1, h=d(h[x])))
    except Failed as x:
        e["err0"] = f"analysis: {x}"
    except (Bad, KeyError, TypeError, IndexError, AttributeError) as x:
        e["err0"] = f"unusable result: {type(x).__name__} {x}"
    out.line(e)


def run(mode, scen, out, seed):
    for k, sc in scen:
        rng = random.Random(f"{seed}/{mode}/{k}")
        if mode == "section":
            section_case(out, rng, sc, k, False)
        elif mode == "sectionparked":
            section_case(out, rng, sc, k, True)
        elif mode in ("rotor", "parked"):
            rotor_case(out, rng, sc, k, mode)
        elif mode == "inverse":
            inverse_case(out, rng, sc, k)
        else:
            refuse_case(out, rng, sc, k)
