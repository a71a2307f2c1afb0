"""Polars and airfoils, recorded for spec/traces/T_Polar.tla."""
import copy
import random

import numpy as np

from rec import Bad, call, ccblade_import, d, num

ccblade_import()
from ccblade.airfoilprep import Airfoil, Polar  # noqa: E402
from ccblade.ccblade import CCAirfoil  # noqa: E402


def pol(p):
    return {"Re": d(p.Re), "al": num(p.alpha), "cl": num(p.cl), "cd": num(p.cd), "cm": num(p.cm)}


def same(a, b):
    return all(float(x.Re) == float(y.Re) and all(np.array_equal(getattr(x, f), getattr(y, f)) for f in ("alpha", "cl", "cd", "cm")) for x, y in zip(a, b)) \
        and len(a) == len(b)


def spoil(p):
    """change every array of a polar in place"""
    for f in ("alpha", "cl", "cd", "cm"):
        getattr(p, f)[...] = -77.0


def clean(x):
    """decimal numbers as found in files, without negative zeros"""
    return float(np.round(x, 6)) + 0.0


def curves(rng, al):
    t = np.deg2rad(al)
    s = np.deg2rad(rng.uniform(9, 18))
    m = rng.uniform(4.5, 6.5)
    a0 = np.deg2rad(rng.uniform(-5, 2))
    cl = np.where(np.abs(t - a0) < s, m * np.sin(t - a0), np.sign(t - a0) * m * np.sin(s) * np.cos(np.clip(np.abs(t - a0) - s, 0, 1.5)))
    cd = rng.uniform(0.005, 0.02) + rng.uniform(0.5, 1.4) * np.sin(t - np.deg2rad(rng.uniform(-4, 4))) ** 2
    cm = rng.uniform(-0.1, 0.05) - rng.uniform(0, 0.2) * np.sin(t) ** 2 * np.sign(t)
    j = rng.choice([0.0, 0.0, 0.02])
    return [np.array([clean(v + j * rng.uniform(-1, 1) * k) for v in q]) for q, k in ((cl, 1), (cd, .02), (cm, .1))]


def polar(rng, al, Re, cm=True, whole=False):
    cl, cd, m = curves(rng, al)
    given = [np.array(al), cl, np.abs(cd), m if cm else m * 0.0]
    x = rng.random()
    if x < 0.1:
        given = [v.tolist() for v in given]
    elif x < 0.2:
        given = [tuple(v.tolist()) for v in given]
    elif x < 0.35 or whole:       # angles and Reynolds number in whole numbers
        Re = round(Re)
        if all(float(a).is_integer() for a in al):
            given[0] = np.array(al).astype(int)
    return Polar(Re, *given)


def angles(rng, lo, hi, n):
    """n increasing angles from lo to hi with some repeated between polars"""
    if rng.random() < 0.4:
        return np.array([clean(x) for x in np.linspace(lo, hi, n)])
    x = sorted({clean(lo), clean(hi)} | {clean(rng.uniform(lo, hi)) for _ in range(n - 2)})
    if rng.random() < 0.2 and len({round(v) for v in x}) == len(x):
        x = [float(round(v)) for v in x]
    return np.array(x)


# ---- operations of the scenarios of models/M_Polar -----------------------------
def ops(out, rng, sc):
    base = sorted(clean(x) for x in [rng.uniform(-30, -12), rng.uniform(-9, -3), rng.uniform(-1, 4), rng.uniform(6, 14), rng.uniform(18, 60)])
    whole = rng.random() < 0.25
    if whole:
        base = [float(round(v)) for v in base]
    res = sorted(rng.uniform(1e5, 9e6) for _ in range(3))
    tied = sc["name"] not in ("get", "blend", "blendaf") and rng.random() < 0.2
    close = 0.0 if whole else rng.choice([0.0, 0.0, 0.0, 1e-7, 1e-8, 1e-6, 1e-3])  # angles of different tables that nearly agree
    if tied:
        res = [res[0], res[0], res[2]]

    def mk(l):
        ps = []
        for q in l:
            al = [base[i] + close * rng.uniform(-1, 1) for i in q["al"]]
            if rng.random() < 0.5:  # more points in between
                al = sorted(set(al) | {float(round(v)) if whole else clean(v) for v in (rng.uniform(al[0], al[-1]) for _ in range(4))})
            ps.append(polar(rng, al, res[q["re"] - 1], rng.random() < 0.9, whole))
        return ps
    given = mk(sc["given"])
    keep = copy.deepcopy(given)
    arrs = [p.alpha for p in given]
    arrs = [{f: getattr(p, f).copy() for f in ("alpha", "cl", "cd", "cm")} for p in keep]
    if rng.random() < 0.3:
        given = [Polar(k.Re, a["alpha"], a["cl"], a["cd"], a["cm"]) for k, a in zip(keep, arrs)]
        own = True
    else:
        own = False
    af, err = call(Airfoil, list(given))
    e = {"op": "New", "given": [pol(p) for p in keep], "err": err, "indep": True, "same": True}
    if not err:
        e["r"] = [pol(p) for p in af.polars]
        if own:
            for a in arrs:
                for f in a:
                    a[f][...] = 99.0
            e["indep"] = same(sorted(keep, key=lambda p: p.Re), af.polars)
        e["same"] = same(keep, given)
    out.line(e)
    if err:
        return
    afk = copy.deepcopy(af.polars)
    other = Airfoil(mk(sc["other"]))
    ok = copy.deepcopy(other.polars)
    w = {0: 0.0, 1: rng.uniform(0, 1), 2: rng.choice([0.5, rng.uniform(0, 1)]), 4: 1.0}[sc["w"]]
    name = sc["name"]

    def finish(e, r):
        """r: list of polars returned"""
        if not e["err"]:
            try:
                R = [pol(p) for p in r]
                e["same"] = same(afk, af.polars) and same(ok, other.polars)
                for p in r:
                    spoil(p)
                e["indep"] = same(afk, af.polars) and same(ok, other.polars)
                e["r"] = R[0] if e["op"] in ("Blend", "Get") else R
            except (Bad, AttributeError, TypeError) as x:
                e["err"] = f"unusable result: {x}"
        out.line(e)
    if name == "get":
        re = sc["re"] / 4.0
        Re = res[0] / 2 if re < 1 else res[2] * 2 if re > 3 else res[int(re) - 1] if re == int(re) else \
            res[int(re) - 1] + rng.uniform(0.05, 0.95) * (res[int(re)] - res[int(re) - 1])
        r, err = call(af.getPolar, Re)
        finish({"op": "Get", "af": [pol(p) for p in afk], "Re": d(Re), "err": err}, [r])
    elif name == "blend":
        r, err = call(af.polars[0].blend, other.polars[0], w)
        finish({"op": "Blend", "p": pol(afk[0]), "q": pol(ok[0]), "w": d(w), "err": err}, [r])
    elif name == "blendaf":
        r, err = call(af.blend, other, w)
        finish({"op": "BlendAf", "af": [pol(p) for p in afk], "bf": [pol(p) for p in ok], "w": d(w), "err": err}, r.polars if r else None)
    else:
        al = None if rng.random() < 0.6 else np.array(sorted({clean(rng.uniform(-40, 70)) for _ in range(6)}))
        r, err = call(af.interpToCommonAlpha, al) if al is not None else call(af.interpToCommonAlpha)
        finish({"op": "Common", "af": [pol(p) for p in afk], "al": [] if al is None else num(al), "err": err}, r.polars if r else None)
        r, err = call(af.createDataGrid)
        e = {"op": "Grid", "af": [pol(p) for p in afk], "err": err, "same": same(afk, af.polars)}
        if not err:
            try:
                e.update(al=num(r[0]), Re=num(r[1]), g={f: [num(row) for row in np.asarray(r[2 + k])] for k, f in enumerate(("cl", "cd", "cm"))})
            except (Bad, TypeError, IndexError) as x:
                e["err"] = f"unusable result: {x}"
        out.line(e)


def polars(rng, k, lo, hi, cm=True):
    """several polars with a linear range inside the data"""
    ps = []
    for i in range(k):
        al = sorted(set(angles(rng, lo, hi, rng.randint(8, 22))) | {clean(rng.uniform(-4.9, 4.9)) for _ in range(4)})
        al = [a for a in al if lo <= a <= hi]
        ps.append(polar(rng, al, rng.uniform(1e5, 9e6), cm))
    return ps


def record(out, e, af, f, single):
    keep = copy.deepcopy(af.polars)
    e["af"] = [pol(p) for p in keep]
    r, e["err"] = call(f)
    if not e["err"]:
        try:
            rp = [r] if single else r.polars
            R = [pol(p) for p in rp]
            e["same"] = same(keep, af.polars)
            for p in rp:
                spoil(p)
            e["indep"] = same(keep, af.polars)
            e["r"] = R
        except (Bad, AttributeError, TypeError) as x:
            e["err"] = f"unusable result: {x}"
    out.line(e)


def correct(out, rng, sc):
    k = rng.choice([1, 1, 2, 3])
    lo, hi = rng.choice([(-30, 40), (-60, 90), (-10, 25), (-180, 90)])
    af = Airfoil(polars(rng, k, lo, hi))
    a = [rng.uniform(0.1, 1.0), rng.uniform(0.02, 0.5), rng.uniform(0.5, 12.0)]
    kw = {}
    full = dict(alpha_max_corr=30, alpha_linear_min=-5, alpha_linear_max=5)
    if rng.random() < 0.6:
        kw = dict(alpha_max_corr=rng.choice([30, 10.0, 25.5, 60.0]), alpha_linear_min=rng.choice([-5, -8.0, -6]), alpha_linear_max=rng.choice([5, 8.0, 6.5]))
        kw = {q: v for q, v in kw.items() if rng.random() < 0.7}
    full.update(kw)
    e = {"op": "Correct", "a": dict(rR=d(a[0]), cr=d(a[1]), tsr=d(a[2]), amax=d(full["alpha_max_corr"]), lmin=d(full["alpha_linear_min"]), lmax=d(full["alpha_linear_max"]))}
    if k == 1 and rng.random() < 0.5:
        record(out, e, af, lambda: af.polars[0].correction3D(*a, **kw), True)
    else:
        record(out, e, af, lambda: af.correction3D(*a, **kw), False)


def extrap(out, rng, sc):
    hi, lo = float(sc["hi"]), float(sc["lo"])
    if rng.random() < 0.5:
        hi, lo = clean(hi + rng.uniform(-2, 2)), clean(lo + rng.uniform(-2, 2))
        if not lo < hi:
            lo = hi - 8.0
    k = rng.choice([1, 1, 2, 3])
    cm = rng.random() < 0.75
    ps = []
    for i in range(k):
        al = angles(rng, lo, hi, rng.randint(3, 14))
        p = polar(rng, al, rng.uniform(1e5, 9e6), cm)
        if rng.random() < 0.15:  # mounted upside down
            p.cl = -p.cl
        if cm and rng.random() < 0.1:  # a moment at a single angle
            j = rng.randrange(len(al))
            p.cm = np.array([c if m == j else 0.0 for m, c in enumerate(p.cm)])
        ps.append(p)
    af = Airfoil(ps)
    x = dict(cdmax=rng.choice([0.3, 1.3, rng.uniform(1, 2)]), useAR=rng.random() < 0.4, AR=rng.choice([rng.uniform(5, 30), rng.uniform(0.5, 120)]), cdmin=0.001, n=15)
    kw = {}
    if x["useAR"]:
        kw["AR"] = x["AR"]
    if rng.random() < 0.4:
        kw["cdmin"] = x["cdmin"] = rng.choice([0.0, 0.01, 0.02])
    single = k == 1 and rng.random() < 0.5
    if single and rng.random() < 0.6:
        kw["nalpha"] = x["n"] = rng.choice([5, 10, 20])
    e = {"op": "Extrap", "x": {q: (v if q in ("useAR", "n") else d(v)) for q, v in x.items()}}
    record(out, e, af, (lambda: af.polars[0].extrapolate(x["cdmax"], **kw)) if single else (lambda: af.extrapolate(x["cdmax"], **kw)), single)
    if rng.random() < 0.3:
        p = polar(rng, angles(rng, -100, 40, 8), 1e6)
        q = polar(rng, angles(rng, -40, 100, 8), 1e6)
        for what, f in (("data below -90", lambda: p.extrapolate(1.3)), ("data above 90", lambda: q.extrapolate(1.3)),
                        ("negative minimum drag", lambda: af.polars[0].extrapolate(1.3, cdmin=-0.01))):
            out.line({"op": "Refuse", "what": what, "err": call(f)[1]})


def unsteady(out, rng, sc):
    kind = rng.choice(["normal", "normal", "wide", "short", "cylinder", "stall", "stall", "stall"])
    if kind == "cylinder":
        al = angles(rng, -180, 180, 20)
        p = Polar(1e6, al, al * 0.0, al * 0.0 + 0.4, al * 0.0)
    elif kind == "short":
        p = polar(rng, angles(rng, -8, 12, 8), 1e6)
    elif kind == "stall":
        # departures from the linear range as in the scenario (upwards) and in its mirror image (downwards)
        x = sorted({clean(rng.uniform(-5, 5)) for _ in range(8)})
        dev = sc["dev"]
        up = np.linspace(rng.uniform(5.5, 8), rng.uniform(30, 39), len(dev))
        dn = -np.linspace(rng.uniform(5.5, 8), rng.uniform(30, 39), len(dev))
        m, a0 = rng.uniform(4.5, 6.5), rng.uniform(-3, 2)

        def short(q):
            return rng.uniform(0.06, 0.4) if q else rng.uniform(-0.1, 0.045)
        pts = [(a, m * np.deg2rad(a - a0)) for a in x] + [(clean(a), m * np.deg2rad(a - a0) - short(q)) for a, q in zip(up, dev)] \
            + [(clean(a), m * np.deg2rad(a - a0) + short(q)) for a, q in zip(dn, rng.choice([dev, dev[::-1], [not q for q in dev]]))]
        pts = sorted(dict(pts).items())
        al = np.array([a for a, _ in pts])
        p = Polar(1e6, al, np.array([clean(c) for _, c in pts]), np.array([clean(0.01 + 1e-4 * a * a * rng.uniform(.8, 1.2)) for a in al]), al * 0.0)
    else:
        lo, hi = (-180, 180) if kind == "wide" else (rng.uniform(-40, -10), rng.uniform(12, 45))
        p = polars(rng, 1, clean(lo), clean(hi))[0]
    keep = copy.deepcopy(p)
    kw = {}
    full = dict(alpha_linear_min=-5, alpha_linear_max=5)
    if rng.random() < 0.4:
        kw = dict(alpha_linear_min=rng.choice([-6.0, -5]), alpha_linear_max=rng.choice([5, 7.0]))
        full.update(kw)
    r, err = call(p.unsteadyparam, **kw)
    e = {"op": "Unsteady", "p": pol(keep), "lmin": d(full["alpha_linear_min"]), "lmax": d(full["alpha_linear_max"]), "err": err, "same": same([keep], [p])}
    if not err:
        try:
            e["r"] = num(list(r))
            if len(e["r"]) != 8:
                e["err"] = f"{len(e['r'])} values"
        except (Bad, TypeError) as x:
            e["err"] = f"unusable result: {x}"
    out.line(e)


STD = ("eta_e T_f0 T_V0 T_p T_VL b1 b2 b5 A1 A2 A5 S1 S2 S3 S4 St_sh k0 k1 k2 k3 k1_hat x_cp_bar UACutout filtCutOff").split()


def table(out, rng, sc):
    """CCAirfoil.eval_unsteady"""
    kind = rng.choice(["normal", "normal", "normal", "nomoment", "cylinder", "coarse"])
    n = rng.randint(60, 120) if kind != "coarse" else rng.randint(12, 25)
    al = angles(rng, -180, 180, n)
    if rng.random() < 0.3:
        al = np.array([clean(x) for x in np.r_[np.linspace(-180, -40, 15)[:-1], np.linspace(-40, 40, rng.choice([41, 81])), np.linspace(40, 180, 15)[1:]]])
    cl, cd, cm = curves(rng, al)
    # a moment that breaks near stall
    b = rng.uniform(6, 16)
    cm = np.array([clean(c - 0.1 * max(0.0, np.sin(np.deg2rad(a - b))) + rng.uniform(-1, 1) * 1e-3) for a, c in zip(al, cm)])
    cd = np.array([clean(abs(c) + rng.uniform(0, 1) * 1e-4) for c in cd])
    if kind == "nomoment":
        cm = cm * 0.0 + rng.choice([0.0, -0.05])
    if kind == "cylinder":
        cl, cd, cm = cl * 0.0, cd * rng.choice([0.0, 1.0]) + 0.4, cm * 0.0
    arr = [al, cl, cd, cm]
    keep = [x.copy() for x in arr]
    af, err = call(CCAirfoil, al, [1e6], cl, cd, cm)
    if err:  # smoothing does not converge: see C14
        return
    _, err = call(af.eval_unsteady, *arr)
    e = {"op": "Table", "p": dict(Re=d(1e6), al=num(keep[0]), cl=num(keep[1]), cd=num(keep[2]), cm=num(keep[3])), "err": err}
    if not err:
        e["same"] = all(np.array_equal(a, b) for a, b in zip(keep, arr))
        try:
            u = af.unsteady
            e["u"] = {k: num(u[k])[0] for k in ("alpha0", "Cd0", "Cm0", "Cn1", "Cn2", "C_nalpha", "alpha1", "alpha2")}
            e["u"].update({k: num(u[k]) for k in ("Alpha", "Cl", "Cd", "Cm")})
            e["u"]["std"] = {k: v if isinstance(v, str) else "%g" % v for k, v in ((k, u[k]) for k in STD)}
        except (Bad, KeyError, TypeError, AttributeError) as x:
            e["err"] = f"unusable result: {x}"
    out.line(e)


RUN = dict(table=table, ops=ops, correct=correct, extrap=extrap, unsteady=unsteady)


def run(mode, scen, out, seed):
    for k, sc in scen:
        RUN[mode](out, random.Random(f"{seed}/{mode}/{k}"), sc)
