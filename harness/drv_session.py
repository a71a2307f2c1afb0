"""Histories of analyses on several rotor objects, recorded for spec/traces/T_Session.tla."""
import hashlib
import json
import os
import random
import sys
import traceback

import numpy as np

from drv_rotor import CCAirfoil, COEF, DIM, LOADS, airfoil, build, condition, desc, geometry, table_data
from airfoils import TableAF
from rec import Bad, call, d, da, num


def flat(x):
    """every array inside a returned object"""
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [np.asarray(x)]


def digest(x):
    h = hashlib.sha1()
    for a in flat(x):
        h.update(str((a.shape, a.dtype)).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def run_history(out, rng, hist, only=0, rid0=0):
    """the calls of hist on the rotors of a session; only: the one rotor that exists, named rid0 + only"""
    base = dict(hubN=rng.random() < .5, tipN=rng.random() < .5, curve=rng.random() < .5, curveEq=rng.random() < .5, sweep=rng.random() < .3,
                tilt0=rng.random() < .4, yaw0=rng.random() < .5, shear0=rng.random() < .5, iterRe=rng.choice([1, 1, 2]), nSector=rng.choice([1, 4, 5, 7]),
                **{f: rng.random() < .7 for f in ("tiploss", "hubloss", "wakerotation", "usecd")})
    c1 = geometry(rng, base, 4)
    c2 = dict(c1)  # shares the array objects of rotor 1
    other = rng.choice(["several", "r", "chord", "theta", "precurve", "presweep", "Rhub", "Rtip", "precone", "tilt", "yaw", "shear", "hubHt",
                        "rho", "mu", "B", "nSector", "airfoils", "usecd", "tiploss", "hubloss", "wakerotation"])
    if other == "several":
        c2.update(precone=c1["precone"] + 3.0, tilt=c1["tilt"] + 2.0, tiploss=not c1["tiploss"], B=c1["B"] + 1)
    elif other in ("B", "nSector", "yaw", "precone", "tilt"):
        c2[other] = c1[other] + 3
    elif other == "shear":
        c2[other] = c1[other] + 0.1
    elif other == "airfoils":
        pass
    elif isinstance(c1[other], bool):
        c2[other] = not c1[other]
    elif other in ("precurve", "presweep"):
        c2[other] = c1[other] + 0.003 * c1["r"]
    elif other == "r":
        c2["r"] = c1["r"].copy()
        c2["r"][1] += 0.1 * (c1["r"][2] - c1["r"][1])
    else:
        c2[other] = c1[other] * {"Rhub": 0.9, "Rtip": 1.02}.get(other, 1.1)
    c3 = {x: (v.copy() if isinstance(v, np.ndarray) else v) for x, v in c1.items()}
    af = [airfoil(rng, rng.choice(["const", "trig", "trigre"])) for _ in c1["r"]]
    t1, t2 = table_data(rng, True), table_data(rng, True)
    a2 = airfoil(rng, rng.choice(["const", "trig", "trigre"]))
    af2 = list(af)
    if only != 2 or other != "airfoils":
        af[1] = af2[1] = TableAF(CCAirfoil(*t1))
    if only in (0, 2) and other == "airfoils":
        af2[0], af2[1] = a2, TableAF(CCAirfoil(*t2))
    der = c1["iterRe"] == 1 and rng.random() < 0.6
    cond = []
    for j in range(2):
        cond.append(condition(rng, c1, rng.choice(["normal", "slow"])))
    cond.append((cond[0][0] * 1.1, 0.0, cond[0][2] + 40.0, 30.0))
    near = rng.random()
    if near < 0.3:  # almost the same condition
        x = list(cond[0])
        q = rng.randrange(4)
        x[q] = x[q] * (1 + 10 ** rng.uniform(-9, -3)) if x[q] else 1e-5
        cond[1] = tuple(x)
    elif near < 0.6:  # same speed, different pitch only: exposes stale operating points
        cond[1] = (cond[0][0], cond[0][1], cond[0][2] + rng.uniform(1, 5), cond[0][3])
    design = (np.deg2rad([rng.uniform(1, 9) for _ in range(4)]), np.array([rng.uniform(.3, 1.2) for _ in range(4)]), np.array([rng.uniform(.006, .02) for _ in range(4)]))
    spoil = rng.random() < 0.5
    rots = {}
    users = {}
    for rid, c in ((1, c1), (2, c2), (3, c3)):
        if only not in (0, rid):
            continue
        cid = hashlib.sha1(json.dumps([desc(c, []), rid == 2 and other == "airfoils"], sort_keys=True).encode()).hexdigest()
        mine = {x: c[x].copy() if spoil else c[x] for x in ("r", "chord", "theta", "precurve", "presweep")}
        arrs = list(mine.values())
        b = digest(arrs)
        dv = der and rid != 3
        rot, err = call(build, dict(c, **mine), af2 if rid == 2 else af, dv, False)
        out.line({"op": "New", "id": rid0 + rid, "cid": cid, "err": err, "bef": b, "aft": digest(arrs), "derivs": bool(dv)})
        if err:
            return
        if spoil and only == 0 and rid != 2:  # the caller's arrays are used for something else
            for x in arrs:
                x *= 1.25
        rots[rid], users[rid] = rot, arrs
    kept = []
    n = 10 * rid0

    def record(rid, kind, conds, f, parts, args):
        nonlocal n
        n += 1
        b = digest([users[rid], args])
        res, err = call(f)
        ps = []
        if not err:
            try:
                ps = parts(res)
            except (Bad, KeyError, TypeError, IndexError) as x:
                err = f"unusable result: {type(x).__name__} {x}"
        e = {"op": "Call", "id": rid0 + rid, "n": n, "kind": kind, "cond": conds, "err": err, "parts": ps if not err else [],
             "bef": b, "aft": digest([users[rid], args]), "dig": digest(res) if not err else ""}
        out.line(e)
        if not err:
            kept.append((n, res))
        return res if not err else None

    def jac(rid, kind, conds, dd):
        """Jacobians as one more (pseudo) call, keyed by all its arguments"""
        nonlocal n
        n += 1
        v = {a + b: num(dd[a][b]) for a in dd for b in dd[a]}
        out.line({"op": "Call", "id": rid0 + rid, "n": n, "kind": kind, "cond": conds, "err": "", "parts": [v], "bef": "", "aft": "", "dig": ""})

    for h in hist:
        rid, c = h["r"], h["c"]
        rot = rots[rid]
        idx = [j - 1 for j in c["cond"]]
        if c["op"] in ("section", "inverse"):
            U, Om, p, az = cond[idx[0]]
            if c["op"] == "inverse":
                rot.inverse_analysis = True
                rot.alpha, rot.cl, rot.cd = design
            res = record(rid, c["op"], c["cond"], lambda: rot.distributedAeroLoads(U, Om, p, az),
                         lambda r: [{x: num(r[0][x]) for x in LOADS}], [design])
            rot.inverse_analysis = False
            if res is not None and der and rid != 3 and c["op"] == "section":
                jac(rid, "sectionJ", c["cond"], res[1])
        elif c["op"] == "evaluate":
            U, Om, p = (np.array([cond[j][q] for j in idx]) for q in range(3))
            co = c["coef"]
            res = record(rid, "evaluate", c["cond"], lambda: rot.evaluate(U, Om, p, co),
                         lambda r: [{x: num(r[0][x][j]) for x in DIM} for j in range(len(idx))], [U, Om, p])
            if res is not None and co:
                n += 1
                out.line({"op": "Call", "id": rid0 + rid, "n": n, "kind": "coefficients", "cond": c["cond"], "err": "",
                          "parts": [{x: num(res[0][x][j]) for x in COEF} for j in range(len(idx))], "bef": "", "aft": "", "dig": ""})
            if res is not None and der and rid != 3:
                jac(rid, "evalJ", c["cond"] + [100 if co else 0], {q: v for q, v in res[1].items()})
        else:
            cc = (af2 if rid == 2 else af)[1].cc
            record(rid, "airfoil", [0], lambda: [cc.evaluate(0.1, 1e6), cc.derivatives(0.1, 1e6), cc.max_eff(1e6), cc.awayfromstall(1e6, 3.0),
                                                 cc.evaluate(np.array([0.0, 0.3]), 1e6)],
                   lambda r: [{"v": [q for a in flat(r) for q in num(a)]}], [])
    for m, res in kept:
        out.line({"op": "Recheck", "n": m, "dig": digest(res)})


def alone(f):
    """f in a process that has done nothing else"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            f()
            os._exit(0)
        except BaseException:  # noqa
            traceback.print_exc()
            sys.stdout.flush()
            os._exit(3)
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError("a session did not end")


def references(rng, hist, most):
    """every kind of call of the history once, with the inverse design it follows, for a rotor of its own"""
    design, seen, refs = {}, set(), []
    for h in hist:
        r, c = h["r"], h["c"]
        pre = [] if c["op"] == "inverse" or r not in design else [design[r]]
        key = json.dumps([1 if r == 3 else r, c, pre], sort_keys=True)
        if key not in seen:
            seen.add(key)
            refs.append((r, pre + [h]))
        if c["op"] == "inverse":
            design[r] = h
    rng.shuffle(refs)
    return refs[:most]


def run(mode, scen, out, seed):
    """every session concatenates several histories of the model; then every call again in a process of its own"""
    for i in range(0, len(scen), 4):
        k = scen[i][0]
        hist = [h for _, s in scen[i:i + 4] for h in s["hist"]]
        tag = f"{seed}/{mode}/{k}"
        out.line({"op": "Start"})
        alone(lambda: run_history(out, random.Random(tag), hist))
        for q, (r, hs) in enumerate(references(random.Random(tag + "r"), hist, 10)):
            alone(lambda: run_history(out, random.Random(tag), hs, only=r, rid0=100 * (q + 1)))
