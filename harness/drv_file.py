"""AeroDyn airfoil files and the preprocessor command line, recorded for spec/traces/T_File.tla."""
import copy
import hashlib
import os
import random
import runpy
import shutil
import sys
import tempfile

import numpy as np

import mpl_stub
from rec import Bad, call, ccblade_import, d, num

ccblade_import()
from ccblade.airfoilprep import Airfoil, Polar  # noqa: E402
from ccblade.ccblade import CCAirfoil  # noqa: E402
from drv_polar import angles, clean, pol, polar, polars, same  # noqa: E402

PREP = os.environ.get("VERIF_REPO", "/repo") + "/ccblade/airfoilprep.py"


def tokens(path):
    """every line as its leading numbers and whether it has the end-of-table mark"""
    out = []
    with open(path, errors="replace") as f:
        for line in f:
            n = []
            for t in line.split()[:5]:
                try:
                    n.append(d(float(t)))
                except ValueError:
                    break
            out.append({"n": n, "eot": "EOT" in line})
    return out


def snap(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def tree(root):
    r = {}
    for base, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(base, f)
            r[os.path.relpath(p, root)] = {"hash": snap(p), "lines": tokens(p)}
    return r


# ---- well-formed files in many styles ---------------------------------------------
def number(rng, x, style):
    x = float(x)
    if style == "e":
        return "%.6e" % x
    if style == "f":
        return "%.6f" % x
    if style == "r":
        return repr(x)
    s = "%.4f" % x
    return "+" + s if rng.random() < 0.2 and x >= 0 else s


def write(rng, path, af, damage="none", at=0, shuffle=False):
    """af: list of polars; the writer of spec/models/M_File, with free layout"""
    style, sep = rng.choice(["e", "f", "r", "g"]), rng.choice(["\t", "   ", " ", " \t "])
    rem = rng.choice(["", "   comment", "\t! 3 numbers", " Reynolds number 12.0"])
    ind = rng.choice(["", " ", "\t"])
    ls = [rng.choice(["AeroDyn airfoil file", "", "1 2 3", "# EO"]), "Compatible with AeroDyn v13.0.", "one more line"]
    ls.append(f"{ind}{len(af) + (damage == 'announce')}{sep}Number of airfoil tables in this file")
    for p in af:
        ls.append(ind + number(rng, p.Re / 1e6, "f") + rem)
        ls += [ind + number(rng, rng.uniform(-3, 9), style) + rem for _ in range(8)]
        for k in range(len(p.alpha)):
            row = [number(rng, v, style) for v in (p.alpha[k], p.cl[k], p.cd[k], p.cm[k])]
            ls.append(ind + sep.join(row) + rng.choice(["", "", " ", sep + "0.123"]))
        ls.append(rng.choice(["EOT", "EOT ", " EOT", "EOT !end"]))
    if damage == "cut":
        ls = ls[:at]
    elif damage == "narrow":
        ls[at - 1] = sep.join(ls[at - 1].split()[:3])
    with open(path, "w", newline="") as f:
        nl = rng.choice(["\n", "\n", "\r\n"])
        f.write(nl.join(ls) + (nl if ls and rng.random() < 0.8 else ""))
        if damage == "none" and rng.random() < 0.2:
            f.write(nl + nl)


def result(e, r):
    if not e["err"]:
        try:
            e["r"] = [pol(p) for p in r.polars]
        except (Bad, AttributeError, TypeError) as x:
            e["err"] = f"unusable result: {x}"


def sets(rng, cm=True, one=False):
    k = 1 if one else rng.choice([1, 1, 2, 3])
    lo, hi = rng.choice([(-30, 40), (-60, 85), (-15, 25), (-180, 180)])
    if rng.random() < 0.03:  # a long table
        al = np.linspace(-180, 180, rng.choice([361, 541, 721]))
        return [polar(rng, al, rng.uniform(1e5, 9e6), cm) for _ in range(min(k, 2))]
    return polars(rng, k, lo, hi, cm)


def read(out, rng, sc):
    af = []
    for n in sc["rows"]:
        al = angles(rng, -20, 30, max(n, 2))[:n]
        af.append(Polar(rng.uniform(1e5, 9e6), al, *[np.array([clean(rng.uniform(-1, 1)) for _ in al]) for _ in range(3)]))
    if sc["damage"] == "none" and rng.random() < 0.1:  # many tables
        af += [Polar(rng.uniform(1e5, 9e6), p.alpha, p.cl, p.cd, p.cm) for p in af * 6][:rng.randint(5, 14)]
    write(rng, "f.dat", af, sc["damage"], sc["at"])
    h = snap("f.dat")
    r, err = call(Airfoil.initFromAerodynFile, "f.dat")
    e = {"op": "Read", "lines": tokens("f.dat"), "err": err, "same": True}
    result(e, r)
    e["same"] = snap("f.dat") == h
    out.line(e)


def roundtrip(out, rng, sc):
    kind = rng.choice(["normal", "normal", "nomoment", "cylinder"])
    ps = sets(rng, kind != "nomoment")
    if kind == "cylinder":
        al = angles(rng, -180, 180, 12)
        ps = [Polar(rng.uniform(1e5, 9e6), al, al * 0.0, al * 0.0 + 0.35, al * 0.0) for _ in ps]
    rng.shuffle(ps)
    af = Airfoil(ps)
    keep = copy.deepcopy(af.polars)
    with open("other.dat", "w") as f:
        f.write("leave me alone\n")
    name = rng.choice(["f.dat", "./f.dat", "sub/f.txt"])
    os.makedirs("sub")
    if rng.random() < 0.3:
        with open(name, "w") as f:
            f.write("old\n" * 500)
    _, err = call(af.writeToAerodynFile, name)
    e = {"op": "Write", "af": [pol(p) for p in keep], "err": err}
    if not err and not os.path.exists(name):
        e["err"] = "no file"
    if not e["err"]:
        e["lines"] = tokens(name)
        files = {f for f in tree(".")}
        e["same"] = same(keep, af.polars) and files == {"other.dat", os.path.normpath(name)} and open("other.dat").read() == "leave me alone\n"
        r, berr = call(Airfoil.initFromAerodynFile, name)
        e["back"] = {"err": berr}
        result(e["back"], r)
        com, cerr = call(af.interpToCommonAlpha)
        e["par"] = []
        if not cerr:
            try:
                for p in com.polars:
                    v, verr = call(p.unsteadyparam)
                    e["par"].append(num(list(v)))
            except (Bad, TypeError):
                e["par"] = []
    out.line(e)
    if e["err"]:
        return
    ft, err = call(CCAirfoil.initFromAerodynFile, name)
    e = {"op": "Table", "err": err}

    def build():
        al, Re, cl, cd, cm = Airfoil.initFromAerodynFile(name).createDataGrid()
        return CCAirfoil(al, Re, cl, cd, cm=cm)
    fw, e["want"] = call(build)
    if not err and not e["want"]:
        pts = [(rng.uniform(-0.3, 0.5), rng.uniform(1e5, 9e6)) for _ in range(6)]
        try:
            e["v"] = sum([num(list(ft.evaluate(a, Re, return_cm=True))) for a, Re in pts], [])
            e["w"] = sum([num(list(fw.evaluate(a, Re, return_cm=True))) for a, Re in pts], [])
        except (Exception,) as x:  # noqa
            e["err"] = f"evaluation: {type(x).__name__}: {x}"[:200]
    out.line(e)


def cli(out, rng, sc):
    mpl_stub.install()
    os.makedirs("sub")
    write(rng, "a.dat", polars(rng, rng.choice([1, 2, 3]), clean(rng.uniform(-30, -12)), clean(rng.uniform(20, 45))))
    write(rng, "sub/b.txt", polars(rng, rng.choice([1, 1, 2]), clean(rng.uniform(-30, -12)), clean(rng.uniform(20, 45))))
    for step, s in enumerate(sc["steps"]):
        src, other = "".join(s["src"]), "".join(s["other"])
        before = tree(".")
        if src not in before or other not in before:
            return  # an earlier command went wrong and has been recorded
        # other names and weights only where no later command refers to the result
        last = step == len(sc["steps"]) - 1
        given = rng.choice(["out.dat", "sub/out.af", "o.x.dat"]) if last else "out.dat"
        if s["cmd"] == "stall3D":
            a = ["%.4f" % rng.uniform(0.15, 0.95), "%.4f" % rng.uniform(0.03, 0.4), "%.3f" % rng.uniform(2, 10)]
        elif s["cmd"] == "extrap":
            a = ["%.3f" % rng.uniform(0.8, 1.8)]
        else:
            a = [s["w"] if not last or rng.random() < 0.5 else rng.choice(["0.25", "0.75", "0", "1", "0.5"])]
        argv = [PREP, src, "--" + s["cmd"]] + ([other] if s["cmd"] == "blend" else []) + a
        tgt = given if s["out"] == "given" else src
        opts = ([["--out", tgt]] if s["out"] != "default" else []) + ([["--common"]] if s["common"] else [])
        for o in opts:
            argv += o
        plot = rng.random() < 0.3
        if plot:
            argv.insert(rng.choice([2, len(argv)]), "--plot")
        mpl_stub.reset()
        old = sys.argv
        sys.argv = argv
        try:
            _, err = call(runpy.run_path, PREP, run_name="__main__", seconds=60)
        finally:
            sys.argv = old
        after = tree(".")
        try:
            figs = mpl_stub.shot()
        except Bad as x:
            figs, err = [], err or f"unusable figure: {x}"
        # only the output's contents are looked at
        out.line({"op": "Cli", "cmd": s["cmd"], "src": s["src"], "other": s["other"], "out": s["out"], "common": s["common"], "given": given,
                  "wtext": a[0], "a": [d(float(x)) for x in a], "step": step + 1, "err": err,
                  "plot": plot, "shown": list(mpl_stub.SHOWN), "figs": figs,
                  "before": {k: (v if k in (src, other) else {"hash": v["hash"]}) for k, v in before.items()},
                  "after": {k: (v if before.get(k, {}).get("hash") != v["hash"] or k == tgt else {"hash": v["hash"], "lines": v["lines"]}) for k, v in after.items()}})


RUN = dict(read=read, roundtrip=roundtrip, cli=cli)


def run(mode, scen, out, seed):
    home = os.getcwd()
    for k, sc in scen:
        w = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
        os.chdir(w)
        try:
            RUN[mode](out, random.Random(f"{seed}/{mode}/{k}"), sc)
        finally:
            os.chdir(home)
            shutil.rmtree(w, ignore_errors=True)
