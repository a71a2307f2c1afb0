"""Airfoil tables and the curves through them, recorded for spec/traces/T_Airfoil.tla."""
import random

import numpy as np

from rec import Bad, call, ccblade_import, d, num

ccblade_import()
from ccblade.ccblade import CCAirfoil  # noqa: E402
from drv_polar import angles, clean, curves  # noqa: E402

F = ("cl", "cd", "cm")
ROUND_RE = [1e6, 3e6]  # asked of many airfoils of one process


def data(rng, al, res, rough):
    cols = []
    for _ in res or [1e6]:
        cl, cd, cm = curves(rng, al)
        r = random.Random(rng.random())
        cols.append([np.array([clean(x + s * rough * r.uniform(-1, 1)) for x in v]) for v, s in ((cl, .15), (np.abs(cd), .01), (cm, .005))])
        cols[-1][1] = np.abs(cols[-1][1]) + 0.004
    return [np.array([c[k] for c in cols]).T for k in range(3)]


def sample(af, pts, cm):
    """coefficients at (alpha, Re) points; {} and the error when that fails"""
    v = {f: [] for f in F}
    for a, Re in pts:
        r, err = call(af.evaluate, a, Re, return_cm=True)
        if err:
            return {}, err
        two, err = call(af.evaluate, a, Re)
        if err:
            return {}, err
        try:
            r, two = num(list(r)), num(list(two))
        except (Bad, TypeError) as x:
            return {}, f"unusable result: {x}"
        if len(r) < (3 if cm else 2):
            return {}, f"{len(r)} values"
        if two != r[:2]:
            return {}, f"asking for the moment coefficient changes lift or drag at {a}, {Re}"
        for f, x in zip(F, r):
            v[f].append(x)
    return v, ""


def build(out, rng, c):
    if c["kind"] == "sparse":
        al = np.array(sorted([-180.0, 180.0] + [float(x) for x in c["inner"]]))
    elif c["nA"] <= 5:
        lo, hi = rng.choice([(-180, 180), (-30, 45), (-90, 90)])
        al = angles(rng, lo, hi, c["nA"]) if c["nA"] > 1 else np.array([float(rng.choice([0, -10, 5]))])
    else:
        lo, hi = rng.choice([(-180, 180), (-180, 180), (-30, 45), (-10, 20)])
        al = angles(rng, lo, hi, rng.randint(20, 60))
    res = sorted(clean(10 ** rng.uniform(5, 7.3)) for _ in range(c["nR"]))
    cl, cd, cm = data(rng, al, res, rng.choice([0.0, 0.3, 1.0, 1.0]))
    if c["kind"] == "sparse" and rng.random() < 0.3:
        cl, cd = cl * 0.0, cd * 0.0 + 0.4
    if len(res) < 2 and rng.random() < 0.5:
        cl, cd, cm = cl[:, 0], cd[:, 0], cm[:, 0]
    given = [al, cl, cd, cm]
    as_list = rng.random() < 0.3
    args = [x.tolist() if as_list else x for x in given]
    if all(float(a).is_integer() for a in al):
        args[0] = [int(a) for a in al] if as_list else al.astype(int)
    keep = [np.array(x) for x in args]
    rr = list(res)
    hasCm = c["cm"] or rng.random() < 0.3
    if rng.random() < 0.25:    # other airfoils with the same angles came, were asked and went before
        for k in range(6):
            af, err = call(CCAirfoil, al, list(res), 0.3 * k - cl, cd * (1 + k))
            for a in np.deg2rad(al)[:8] if not err else []:
                for Re in (res[:3] or [1e6]):
                    call(af.evaluate, a, Re)
            af = None
    af, err = call(CCAirfoil, args[0], rr, args[1], args[2], *([args[3]] if hasCm else []))
    flat = [np.asarray(x).ravel() for x in keep[1:]]
    e = {"op": "Build", "al": num(al), "Re": num(res) if res else [], "hasCm": hasCm, "err": err,
         "same": all(np.array_equal(a, np.array(b)) for a, b in zip(keep, args)) and rr == list(res)}
    e.update({f: num(v) for f, v in zip(F, flat)})
    out.line(e)
    return None if err else (af, al, res, hasCm)


def table(out, rng, sc):
    c = sc["cfg"]
    b = build(out, rng, c)
    if not b:
        return
    af, al, res, cm = b
    rad = np.deg2rad(al)
    Rs = res if len(res) > 1 else [res[0] if res else 1e6]

    def put(op, pts, **k):
        v, err = sample(af, pts, cm)
        out.line({"op": op, "v": v, "err": err, **k})
    put("Fit", [(a, R) for a in rad for R in Rs])
    lo, hi = (Rs[0], Rs[-1])
    for _ in range(3):
        if len(al) > 2:
            a = rng.choice(list(rad[1:-1]))
            R = rng.uniform(lo, hi) if rng.random() < 0.5 else rng.choice(list(Rs))
            gap = min(abs(x - a) for x in rad if x != a)
            H = min(1e-3, gap / 4)
            h = H / 30
            if gap < 2e-3:
                continue
            put("Smooth", [(a + t, R) for t in (-H, -h, 0.0, h, H)], axis="alpha", h=d(h), H=d(H), unit=d(1.0))
        if len(res) > 2:
            R = rng.choice(res[1:-1])
            a = rng.uniform(rad[0], rad[-1])
            gap = min(abs(x - R) for x in res if x != R)
            H = min(1e-3 * (hi - lo), gap / 4)
            h = H / 30
            if gap < 1e-3 * (hi - lo):
                continue
            put("Smooth", [(a, R + t) for t in (-H, -h, 0.0, h, H)], axis="Re", h=d(h), H=d(H), unit=d(hi - lo))
    span = hi - lo if len(res) > 1 else 1e6
    for k in range(4):
        wa, wr = (c["wa"], c["wr"]) if k == 0 else (rng.choice(["inside", "at", "inside", "below", "above"]), rng.choice(["inside", "at", "inside", "below", "above"]))
        hA, hR = 1e-4, 1e-3 * span
        outA, outR = wa in ("below", "above"), wr in ("below", "above") and len(res) > 1
        a = {"below": rad[0] - rng.uniform(0.01, 1), "above": rad[-1] + rng.uniform(0.01, 1)}.get(wa)
        if a is None:
            a = float(rng.choice(list(rad[1:-1]))) if wa == "at" and len(al) > 2 else rng.uniform(rad[0], rad[-1])
            if rng.random() < 0.3:
                a = rng.choice([0.0, 0.1])
            a = min(max(a, rad[0] + 3 * hA), rad[-1] - 3 * hA)
        R = {"below": lo * 0.5, "above": hi * 2.0}.get(wr) if len(res) > 1 else rng.choice([2e5, 1e7])
        if R is None:
            R = rng.choice(res[1:-1]) if wr == "at" and len(res) > 2 else rng.choice([1e6, rng.uniform(lo, hi), rng.uniform(lo, hi)])
            R = min(max(R, lo + 3 * hR), hi - 3 * hR)
        off = (-2, -1, -0.5, 0.5, 1, 2)
        v1, e1 = sample(af, [(a + t * hA, R) for t in off], cm)
        v2, e2 = sample(af, [(a, R + t * hR) for t in off], cm)
        r, err = call(af.derivatives, a, R)
        e = {"op": "Deriv", "err": err or e1 or e2, "outA": outA, "outR": outR, "h": {"alpha": d(hA), "Re": d(hR)}, "unit": {"alpha": d(1.0), "Re": d(span)}}
        if not e["err"]:
            try:
                r = num(list(r))
                e["d"] = {"cl": {"alpha": r[0], "Re": r[1]}, "cd": {"alpha": r[2], "Re": r[3]}}
                e["v"] = {f: {"alpha": v1[f], "Re": v2[f]} for f in F}
            except (Bad, TypeError, IndexError) as x:
                e["err"] = f"unusable result: {x}"
        out.line(e)
    if len(res) < 2:
        a = rng.uniform(rad[0], rad[-1])
        put("Indep", [(a, R) for R in (1e6, 1e2, 3.3e5, 2.5e7, 1e12, 1.0, 1e16)])
    for ask in (True, False) if rng.random() < 0.5 else (c["ask"],):
        r, err = call(af.evaluate, 0.1, 1e6, return_cm=True) if ask else call(af.evaluate, 0.1, 1e6)
        out.line({"op": "Ask", "ask": ask, "n": -1 if err else len(r)})


def design(out, rng, sc):
    c = dict(sc["cfg"])
    if c["nA"] < 2:
        return
    b = build(out, rng, c)
    if not b:
        return
    af, al, res, cm = b
    for _ in range(2):
        R = rng.choice(ROUND_RE + [10 ** rng.uniform(5, 7.3)] * 2)
        grid = np.deg2rad(np.linspace(-20, 40, 201))
        g, gerr = sample(af, [(a, R) for a in grid], False)
        m = rng.choice([0.0, 3.0, 5.0, 5.0, rng.uniform(0, 12)])
        for op, f, mm in (("MaxEff", lambda: af.max_eff(R), 0.0), ("Stall", lambda: af.awayfromstall(R, m), m)):
            r, err = call(f)
            e = {"op": op, "m": d(np.deg2rad(mm)), "err": err or gerr}
            if not e["err"]:
                try:
                    e["r"] = num(list(r))
                    e["g"] = {"cl": g["cl"], "cd": g["cd"]}
                    own, oerr = sample(af, [(float(np.asarray(r[1]).ravel()[0]), R)], False)
                    e["err"] = oerr
                    if own:
                        e["own"] = [own["cl"][0], own["cd"][0]]
                    if len(e["r"]) != 4:
                        e["err"] = f"{len(e['r'])} values"
                except (Bad, TypeError, IndexError) as x:
                    e["err"] = f"unusable result: {x}"
            out.line(e)


RUN = dict(table=table, design=design)


def run(mode, scen, out, seed):
    for k, sc in scen:
        RUN[mode](out, random.Random(f"{seed}/{mode}/{k}"), sc)
