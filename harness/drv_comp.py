"""The OpenMDAO components next to the rotor analysis, recorded for spec/traces/T_Comp.tla."""
import hashlib
import math
import random

import numpy as np

from drv_rotor import COEF, DIM, LOADS, build, geometry
from rec import call, d, da, num

import openmdao.api as om
from ccblade.ccblade import CCAirfoil
from ccblade.ccblade_component import CCBladeEvaluate, CCBladeGeometry, CCBladeLoads, CCBladeTwist

UNITS = dict(V_load="m/s", Omega_load="rpm", pitch_load="deg", azimuth_load="deg", r="m", chord="m", theta="deg", Rhub="m", Rtip="m", hub_height="m",
             precone="deg", tilt="deg", yaw="deg", precurve="m", precurveTip="m", presweep="m", presweepTip="m", airfoils_aoa="deg", rho="kg/m**3",
             mu="kg/(m*s)", Uhub="m/s", pitch="deg", theta_in="rad", aoa_op="rad", precurve_in="m", presweep_in="m")
# outputs are asked for in these units
OUNITS = dict(loads_r="m", loads_Px="N/m", loads_Py="N/m", loads_Pz="N/m", P="W", Mb="N*m", Fhub="N", Mhub="N*m", R="m", diameter="m", precurveTip="m",
              presweepTip="m", theta="rad", local_airfoil_velocities="m/s", T="N", Q="N*m", M="N*m", alpha="deg", Px_b="N/m", Py_b="N/m", Pz_b="N/m",
              Px_af="N/m", Py_af="N/m", Pz_af="N/m", LiftF="N/m", DragF="N/m", L_n_opt="N/m", D_n_opt="N/m")
FLAGS = ["tiploss", "hubloss", "wakerotation", "usecd"]
# component input -> derivative of the rotor analysis
SEC_D = dict(r="dr", chord="dchord", theta="dtheta", Rhub="dRhub", Rtip="dRtip", hub_height="dhubHt", precone="dprecone", tilt="dtilt", yaw="dyaw",
             shearExp="dshear", V_load="dUinf", Omega_load="dOmega", pitch_load="dpitch", azimuth_load="dazimuth", precurve="dprecurve")
ROT_D = {k: v for k, v in SEC_D.items() if k != "azimuth_load"}
ROT_D.update(precurveTip="dprecurveTip", presweep="dpresweep", presweepTip="dpresweepTip")


def tables(rng, n, aoa, n_re, n_tab):
    """coefficients [n, n_aoa, n_Re, n_tab]: every station, Reynolds number and table differs"""
    a = np.deg2rad(aoa)
    cl, cd, cm = (np.zeros((n, len(aoa), n_re, n_tab)) for _ in range(3))
    for i in range(n):
        k, cd0, cdm, st = rng.uniform(3.5, 6.3), rng.uniform(0.006, 0.012), rng.uniform(0.9, 1.5), np.deg2rad(rng.uniform(9, 16))
        for m in range(n_re):
            for t in range(n_tab):
                z = a + rng.uniform(0, 0.07) + 0.05 * t
                # lift falls off beyond stall
                cl[i, :, m, t] = (1 + 0.03 * m) * k * np.sin(z) * np.cos(z) * np.where(np.abs(z) < st, 1.0, 0.6 + 0.4 * np.exp(-np.maximum(np.abs(z) - st, 0) / 0.08))
                cd[i, :, m, t] = (1 - 0.02 * m) * cd0 + cdm * np.sin(z) ** 2 + 0.002 * t
                # the moment breaks near stall
                cm[i, :, m, t] = -0.05 * np.sin(z) - 0.01 * t - 0.1 * np.maximum(0.0, np.sin(z - st))
    return cl, cd, cm


def airfoils(v, tab):
    return [CCAirfoil(v["airfoils_aoa"], v["airfoils_Re"], v["airfoils_cl"][i, :, :, tab], v["airfoils_cd"][i, :, :, tab], v["airfoils_cm"][i, :, :, tab])
            for i in range(len(v["r"]))]


def versions(rng, kind, n, n_aoa, n_re, n_tab, opt):
    """three sets of inputs: another condition, and another rotor"""
    def rotor():
        sc = dict(hubN=False, tipN=False, curve=rng.random() < .6, curveEq=rng.random() < .3, sweep=kind != "loads" and rng.random() < .5,
                  tilt0=rng.random() < .4, yaw0=rng.random() < .4, shear0=rng.random() < .4, iterRe=1, nSector=rng.choice([1, 4, 5, 7]),
                  **{f: rng.random() < .7 for f in FLAGS})
        c = geometry(rng, sc, n)
        aoa = np.unique(np.concatenate([np.linspace(-180, 180, n_aoa - 16), np.linspace(-19, 23, 16)]))
        assert len(aoa) == n_aoa
        cl, cd, cm = tables(rng, n, aoa, n_re, n_tab)
        v = dict(r=c["r"], chord=c["chord"], theta=c["theta"], Rhub=c["Rhub"], Rtip=c["Rtip"], hub_height=c["hubHt"], precone=c["precone"], tilt=c["tilt"],
                 yaw=c["yaw"], precurve=c["precurve"], precurveTip=c["precurveTip"], presweep=c["presweep"], presweepTip=c["presweepTip"], rho=c["rho"],
                 mu=c["mu"], shearExp=c["shear"], nBlades=c["B"], nSector=c["nSector"], airfoils_aoa=aoa,
                 airfoils_Re=np.array([1e6] if n_re == 1 else sorted(10 ** rng.uniform(5, 8) for _ in range(n_re))),
                 airfoils_cl=cl, airfoils_cd=cd, airfoils_cm=cm, **{f: c[f] for f in FLAGS})
        return v

    def condition(v):
        U = rng.uniform(4, 22)
        tsr = rng.uniform(3, 11)
        if kind == "twist":
            v.update(Uhub=U, tsr=tsr, pitch=rng.choice([0.0, rng.uniform(-3, 8)]))
        else:
            v.update(V_load=U, Omega_load=tsr * U / v["Rtip"] * 30 / math.pi, pitch_load=rng.choice([0.0, rng.uniform(-5, 20)]),
                     azimuth_load=rng.choice([0.0, 90.0, rng.uniform(0, 360)]))
        return v

    def schedule(v):
        v["theta_in"] = np.deg2rad(np.array(sorted((rng.uniform(-4, 26) for _ in range(n)), reverse=True)))
        v["aoa_op"] = np.array([math.pi if rng.random() < .4 else math.radians(rng.uniform(0.5, 11)) for _ in range(n)])
        if opt["stall"]:
            v["aoa_op"] = np.full(n, math.pi)
        k = rng.choice([0, 1, 2])
        v["rthick"] = np.array([rng.choice([100.0, 100.0, 97.0, 95.0])] * k + sorted((rng.uniform(18, 94) for _ in range(n - k)), reverse=True))
        for q in ("s_opt_theta", "s_opt_chord"):
            v[q] = np.linspace(0, 1, opt["n_opt"])
            if rng.random() < .5:
                v[q] = np.array([0.0] + sorted(rng.uniform(0.05, 0.95) for _ in range(opt["n_opt"] - 2)) + [1.0])
        del v["theta"]
        return v

    a = condition(rotor())
    if kind == "twist":
        schedule(a)
    b = condition(dict(a))
    if rng.random() < .55:  # one thing only
        b = dict(a)
        k = rng.choice(sorted(b))
        x = b[k]
        if k in FLAGS:
            b[k] = not x
        elif k == "nBlades":
            b[k] = x % 4 + 1
        elif k == "nSector":
            b[k] = x + 3
        elif k in ("r", "airfoils_Re", "s_opt_theta", "s_opt_chord"):
            b[k] = x * np.linspace(1, 1.02, len(x))[::-1] if k[0] != "s" else np.concatenate([x[:-1] ** 1.1, x[-1:]])
        elif k == "rthick":
            b[k] = np.where(x < 95, x * 0.97, x)
        elif k == "airfoils_aoa":
            b[k] = np.where(np.abs(x) < 18, x + 0.2, x)
        elif k == "aoa_op":
            b[k] = np.where(x < 1, x + 0.01, x)
        elif k == "Rhub":
            b[k] = x * 0.98
        elif k == "Rtip":
            b[k] = max(x, float(np.max(b["r"]))) * 1.01
        elif k in ("precurve", "presweep", "precurveTip", "presweepTip"):
            b[k] = x + 0.01 * b["Rtip"] * rng.uniform(0.5, 1)
        elif k.startswith("airfoils_") and rng.random() < .5:  # one entry
            b[k] = x.copy()
            i = tuple(rng.randrange(q) for q in x.shape)
            b[k][i] = x[i] + 0.01
        elif k in ("precone", "tilt", "yaw", "shearExp", "pitch", "pitch_load", "azimuth_load", "theta"):
            b[k] = x + (0.1 if k == "shearExp" else rng.uniform(0.5, 3))
        else:
            b[k] = x * rng.uniform(1.01, 1.1)
    c = condition(rotor())
    if kind == "twist":
        schedule(c)
    if kind == "loads":
        for v in (a, b, c):
            v.pop("presweep"), v.pop("presweepTip")
    elif kind == "evaluate":
        for v in (a, b, c):
            v.pop("azimuth_load")
    return {1: a, 2: b, 3: c}


def rotor_of(v, tab, der, theta=None):
    c = dict(v, shear=v["shearExp"], hubHt=v["hub_height"], B=v["nBlades"], iterRe=1)
    c.setdefault("presweep", np.zeros_like(v["r"]))
    c.setdefault("presweepTip", 0.0)
    c["theta"] = v["theta"] if theta is None else theta
    c = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in c.items()}
    return build(c, airfoils(v, tab), der)


def digest(prob, names):
    h = hashlib.sha1()
    for k in sorted(names):
        h.update(k.encode() + np.asarray(prob.get_val(k)).tobytes())
    return h.hexdigest()


def problem(kind, n, n_aoa, n_re, n_tab, opt):
    m = {"WISDEM": {"RotorSE": {"n_span": n, "n_aoa": n_aoa, "n_Re": n_re, "n_tab": n_tab, "inn_af": opt["inn"]}}}
    o = {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": opt["n_opt"]}, "twist": {"n_opt": opt["n_opt"], "inverse": opt["inverse"], "flag": opt["flag"]}}}},
         "constraints": {"blade": {"stall": {"margin": opt["margin"]}}}}
    comp = {"geometry": lambda: CCBladeGeometry(n_span=n), "loads": lambda: CCBladeLoads(modeling_options=m),
            "evaluate": lambda: CCBladeEvaluate(modeling_options=m), "twist": lambda: CCBladeTwist(modeling_options=m, opt_options=o)}[kind]()
    p = om.Problem(reports=False)
    p.model.add_subsystem("comp", comp, promotes=["*"])
    p.setup()
    return p


OUT = dict(loads=["loads_r", "loads_Px", "loads_Py", "loads_Pz"], evaluate=["P", "Mb", "Fhub", "Mhub", "CP", "CMb", "CFhub", "CMhub"],
           geometry=["R", "diameter", "precurveTip", "presweepTip"],
           twist=["theta", "CP", "CM", "local_airfoil_velocities", "P", "T", "Q", "M", "a", "ap", "alpha", "cl", "cd", "cl_n_opt", "cd_n_opt", "Px_b", "Py_b",
                  "Pz_b", "Px_af", "Py_af", "Pz_af", "LiftF", "DragF", "L_n_opt", "D_n_opt"])
WRT = dict(loads=list(SEC_D), evaluate=list(ROT_D), geometry=["Rtip", "precone", "precurve_in", "presweep_in"])


def reference(kind, v):
    """the rotor analysis for the same inputs: results and derivatives"""
    if kind == "loads":
        res, dd = rotor_of(v, 0, True).distributedAeroLoads(v["V_load"], v["Omega_load"], v["pitch_load"], v["azimuth_load"])
        keep = SEC_D
        r = {x: num(res[x]) for x in ("Np", "Tp")}
    else:
        res, dd = rotor_of(v, 0, True).evaluate([v["V_load"]], [v["Omega_load"]], [v["pitch_load"]], True)
        keep = ROT_D
        r = {x: num(res[x]) for x in DIM + COEF}
    return r, {q: {i: num(dd[q][k]) for i, k in keep.items()} for q in (["dNp", "dTp"] if kind == "loads" else ["d" + x for x in DIM + COEF])}


def design(v, tab, opt):
    """the inverse design on a rotor object of the harness: stall angles, schedule and twist before capping"""
    n = len(v["r"])
    af = airfoils(v, tab)
    stall = []
    for i in range(n):
        if abs(v["aoa_op"][i] - math.pi) >= 1e-4:
            stall.append(0.0)
            continue
        af[i].eval_unsteady(v["airfoils_aoa"], *(v["airfoils_" + x][i, :, 0, tab] for x in ("cl", "cd", "cm")))
        stall.append(float(af[i].unsteady["alpha1"]))
    alpha = np.array([math.radians(s - math.degrees(opt["margin"])) if abs(a - math.pi) < 1e-4 else a for s, a in zip(stall, v["aoa_op"])])
    Om = v["tsr"] * v["Uhub"] / v["r"][-1] * 30 / math.pi
    Re = Om * math.pi / 30 * v["r"] * v["chord"] * v["rho"] / v["mu"]
    co = [airfoils(v, tab)[i].evaluate(alpha[i], Re[i]) for i in range(n)]
    k = [i for i in range(n) if v["rthick"][i] < 95.0][0]
    alpha[:k] = alpha[k]
    rot = rotor_of(v, tab, False, np.zeros(n))
    rot.inverse_analysis = True
    rot.alpha, rot.cl, rot.cd = alpha, np.array([float(x[0]) for x in co]), np.array([float(x[1]) for x in co])
    rot.evaluate([v["Uhub"]], [Om], [v["pitch"]], False)
    return dict(stall=da(stall), alpha=da(alpha), k=k + 1, theta0=num(rot.theta))


def twisted(v, tab, theta):
    """the rotor with the reported twist"""
    Om = v["tsr"] * v["Uhub"] / v["r"][-1] * 30 / math.pi
    rot = rotor_of(v, tab, False, np.rad2deg(theta))
    L, _ = rot.distributedAeroLoads(v["Uhub"], Om, v["pitch"], 0.0)
    o, _ = rotor_of(v, tab, False, np.rad2deg(theta)).evaluate([v["Uhub"]], [Om], [v["pitch"]], True)
    r = {x: num(L[x]) for x in LOADS}
    r.update({x: num(o[x]) for x in ("CP", "CMb", "P", "T", "Q", "Mb")})
    r["Wrot"] = num(o["W"])
    return r


def case(out, rng, sc, kind):
    code = sc["opt"]
    opt = dict(inverse=code % 3 != 0, inn=code % 4 == 0, stall=code % 5 == 0, margin=rng.choice([0.0, rng.uniform(0.01, 0.1)]), n_opt=rng.choice([4, 5, 8]),
               flag=code % 11 == 0)
    dims, probs, vs = {}, {}, {}
    out.line({"op": "Start"})
    for c in (1, 2):
        n = rng.choice([4, 5, 6])
        n_aoa, n_re, n_tab = rng.choice([40, 53]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
        o = opt if c == 1 else dict(opt, inverse=not opt["inverse"], flag=False, inn=not opt["inn"])
        dims[c] = (n, n_tab, o)
        p, err = call(problem, kind, n, n_aoa, n_re, n_tab, o)
        out.line({"op": "New", "id": c, "kind": kind, "err": err})
        if err:
            return
        probs[c] = p
        if kind == "geometry":
            vs[c] = {}
            for j in (1, 2, 3):
                R = 10 ** rng.uniform(0, 2)
                vs[c][j] = dict(Rtip=R, precone=rng.choice([0.0, rng.uniform(-20, 20)]), precurve_in=np.array([rng.uniform(-.2, .2) * R for _ in range(n)]),
                                presweep_in=np.array([rng.uniform(-.2, .2) * R for _ in range(n)]))
            if rng.random() < .5:
                vs[c][2] = dict(vs[c][1], precone=vs[c][1]["precone"] + 4.0)
        else:
            vs[c] = versions(rng, kind, n, n_aoa, n_re, n_tab, o)
    cur = {}
    plain = random.Random(code).random() < .5  # switches that are on and four sectors are left alone
    for s in sc["steps"]:
        c = s["c"]
        p = probs[c]
        n, n_tab, o = dims[c]
        if s["a"] == "set":
            old = cur.get(c, {})
            for k, x in vs[c][s["v"]].items():
                if plain and k not in old and ((k in FLAGS and x) or (k == "nSector" and x == 4)):
                    continue
                if k not in old or not np.array_equal(old[k], x):
                    p.set_val(k, x, **({"units": UNITS[k]} if k in UNITS else {}))
            cur[c] = vs[c][s["v"]]
            continue
        v = cur[c]
        if s["a"] == "run":
            cont = [k for k in v if k not in ("nBlades", "nSector") + tuple(FLAGS)]
            bef = digest(p, cont)
            _, err = call(p.run_model, seconds=60)
            e = {"op": "Run", "id": c, "kind": kind, "ver": s["v"], "err": err, "same": digest(p, cont) == bef if not err else True, "inv": o["inverse"],
                 "both": o["inverse"] and o["flag"], "inn": o["inn"]}
            if not err:
                o_, err = call(lambda: {q: num(p.get_val(q, units=OUNITS.get(q))) for q in OUT[kind]})
                e["err"] = err
            if not err:
                e["o"] = o_
            if kind == "geometry":
                e["x"] = {k: num(x) for k, x in v.items()}
                e["rerr"] = ""
            elif kind == "twist":
                tab = n_tab // 2
                e["x"] = {k: num(v[k]) for k in ("s_opt_theta", "r", "theta_in", "rthick", "aoa_op", "pitch", "chord", "rho")}
                e["margin"] = d(o["margin"])
                e["rerr"] = ""
                if o["inverse"] and not e["both"]:
                    g, e["rerr"] = call(design, v, tab, o)
                    if not e["rerr"]:
                        e["dsg"] = g
                if not err and not e["rerr"]:
                    th = np.array(p.get_val("theta"))
                    if np.all(np.isfinite(th)):
                        g, e["rerr"] = call(twisted, v, tab, th)
                        if not e["rerr"]:
                            e["r"] = g
            else:
                ref, e["rerr"] = call(reference, kind, v)
                if not e["rerr"]:
                    e["r"] = ref[0]
                    e["x"] = {"r": num(v["r"])}
            out.line(e)
            if err:
                return
        else:
            if kind == "twist":
                continue  # finite differences
            J, err = call(p.compute_totals, of=OUT[kind], wrt=WRT[kind], return_format="dict", seconds=60)
            e = {"op": "Diff", "id": c, "kind": kind, "ver": s["v"], "err": err, "n": n}
            if not err:
                e["J"] = {q: {i: num(J[q][i]) for i in WRT[kind]} for q in OUT[kind]}
            if kind == "geometry":
                e["x"] = {k: num(x) for k, x in v.items()}
            else:
                ref, e["rerr"] = call(reference, kind, v)
                if not e["rerr"]:
                    e["D"] = ref[1]
            out.line(e)


def run(mode, scen, out, seed):
    for k, sc in scen:
        case(out, random.Random(f"{seed}/{mode}/{k}"), sc, mode)
