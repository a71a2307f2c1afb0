"""Plots of polars and airfoils, drawn on a stand-in for matplotlib and recorded for spec/traces/T_Plot.tla."""
import copy
import random

import mpl_stub

mpl_stub.install()
from drv_polar import Airfoil, angles, clean, pol, polar, same  # noqa: E402
from rec import Bad, call  # noqa: E402


def plots(out, rng, sc):
    mpl_stub.reset()
    n = sc["n"]
    res = [clean(rng.uniform(1e5, 9e6)) for _ in range(n)]
    if rng.random() < 0.3:
        res = [rng.choice([1e6, 2e6, 5e5, 1e7, 123456.789]) * (k + 1) for k in range(n)]
        rng.shuffle(res)
    ps = [polar(rng, angles(rng, *rng.choice([(-20, 30), (-180, 180), (-9, 12)]), rng.randint(2, 9)), R, rng.random() < 0.7) for R in res]
    af = Airfoil(ps)
    keep = copy.deepcopy(af.polars)
    af_rec = [dict(pol(p), mil=str(p.Re / 1e6)) for p in keep]
    out.line({"op": "Start", "af": af_rec})
    for s in sc["steps"]:
        e = {"op": "Plot", "do": s["do"], "i": s["i"], "err": "", "ret": []}
        if s["do"] == "user":
            ax = mpl_stub.Fig().add_subplot(111)
            ax.plot([0.0, 1.0], [rng.uniform(-1, 1), 2.0], label="mine")
            f = None
        elif s["do"] == "polar":
            f = af.polars[s["i"] - 1].plot
            r, e["err"] = call(f)
        elif s["do"] == "single":
            r, e["err"] = call(af.plot) if rng.random() < 0.5 else call(af.plot, True) if rng.random() < 0.5 else call(af.plot, single_figure=True)
        else:
            r, e["err"] = call(af.plot, False) if rng.random() < 0.5 else call(af.plot, single_figure=False)
        if s["do"] != "user" and not e["err"]:
            try:
                e["ret"] = [mpl_stub.FIGS.index(x) + 1 for x in r]
            except (ValueError, TypeError) as x:
                e["err"] = f"unusable result: {x}"
        try:
            e["figs"] = mpl_stub.shot()
        except (Bad, TypeError) as x:
            e["err"], e["figs"] = f"unusable figure: {x}", []
        e["same"] = same(keep, af.polars)
        out.line(e)


def run(mode, scen, out, seed):
    for k, sc in scen:
        plots(out, random.Random(f"{seed}/{mode}/{k}"), sc)
