"""Flap-coordinate runs of forked processes around a stand-in for the panel code, recorded for spec/traces/T_Flap.tla.
Everything happens in a scratch directory; the only processes ended are children of this driver."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import socket
import stat
import struct
import sys
import tempfile

import numpy as np

from rec import call, ccblade_import, d, da

ccblade_import()
from ccblade.ccblade import CCAirfoil  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


def tree():
    out = {}
    for f in sorted(os.listdir(".")):
        s = os.stat(f)
        out[f] = f"{s.st_ino} {hashlib.sha1(open(f, 'rb').read()).hexdigest()}"
    return out


def send(path, **e):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.connect(path)
    b = json.dumps(e).encode()
    s.sendall(struct.pack(">I", len(b)) + b)
    s.recv(1)
    s.close()


def worker(p, pid, sock, xfoil, runs, afs, multi):
    """the runs of one process, one after another"""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    # process numbers that differ in any one digit only (beyond those of the system)
    os.getpid = lambda: pid
    for r in runs:
        os.environ.update(STUB_SOCK=sock, STUB_P=str(p), STUB_KIND=r["kind"], STUB_TOKEN=r["token"])
        af = afs[r["af"]]
        send(sock, p=p, w="ready")
        a = r["args"]
        _, err = call(af.af_flap_coords, xfoil, a["delta"], a["xc"], a["yt"], a["n"], seconds=60, **multi)
        e = dict(p=p, w="end", err=err)
        if not err:
            try:
                e.update(x=[float(v) for v in af.af_flap_xcoords], y=[float(v) for v in af.af_flap_ycoords], ctrl=float(af.ctrl))
            except (TypeError, ValueError, AttributeError) as x:
                e["err"] = f"unusable result: {x}"
        send(sock, **e)
    os._exit(0)


class Control:
    def __init__(self, path):
        self.path = path
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.bind(path)
        self.s.listen(8)
        self.s.settimeout(45)
        self.held = {}

    def wait(self):
        c, _ = self.s.accept()
        c.settimeout(45)

        def read(n):
            b = b""
            while len(b) < n:
                x = c.recv(n - len(b))
                if not x:
                    raise OSError("connection ended")
                b += x
            return b
        e = json.loads(read(struct.unpack(">I", read(4))[0]))
        self.held[e["p"]] = c
        return e

    def go(self, p):
        c = self.held.pop(p, None)
        if c:
            try:
                c.send(b"g")
            except OSError:
                pass
            c.close()


def arguments(rng, last):
    if last and rng.random() < 0.5:
        return dict(last)
    return dict(delta=rng.choice([0.0, 12, -8.5, 5.0, 10.0, round(rng.uniform(-15, 15), 2)]), xc=round(rng.uniform(0.6, 0.9), 3),
                yt=round(rng.uniform(0, 1), 2), n=rng.choice([60, 160, 250]))


def profile(rng):
    n = rng.randint(8, 20)
    t = np.linspace(0, 2 * np.pi, n)
    return 0.5 + 0.5 * np.cos(t) + np.array([rng.uniform(-1e-3, 1e-3) for _ in t]), 0.1 * np.sin(t) + np.array([rng.uniform(-1e-3, 1e-3) for _ in t])


def case(out, rng, sc, root):
    al = np.linspace(-180, 180, 37)
    afs, xy = {}, {}
    for k in (1, 2):
        x, y = profile(rng)
        xy[k] = (x, y)
        t = np.deg2rad(al)
        afs[k] = CCAirfoil(al, [1e6], 5 * np.sin(t) * np.cos(t), 0.01 + np.sin(t) ** 2, 0 * t, x, y, rng.choice(["AF%d", "DU_%d-W", "naca%d"]) % k)
    xfoil = root + "/xfoil"
    with open(xfoil, "w") as f:
        f.write("#!" + sys.executable + " -SEs\n" + open(HERE + "/xfoil_stub.py").read())
    os.chmod(xfoil, os.stat(xfoil).st_mode | stat.S_IXUSR)
    os.makedirs(root + "/cwd")
    os.chdir(root + "/cwd")
    for f in ("bystander.txt", "Polar_kept.dat", "xfoil.def"):
        open(f, "w").write("kept " + f)
    ctl = Control(root + "/ctl")
    multi = {} if not sc["multi"] else rng.choice([dict(multi_run=True), dict(MPI_run=True), dict(multi_run=True, MPI_run=True)])
    progs = {}
    for p in (1, 2):
        last = {}
        progs[p] = []
        for k, r in enumerate(sc["prog"][p - 1]):
            a = arguments(rng, last.get(r["af"]) or (progs[1][0]["args"] if p == 2 else None))
            last[r["af"]] = a
            progs[p].append(dict(kind=r["kind"], af=r["af"], args=a, token=f"{rng.random()}"))
    at = {1: 0, 2: 0}
    procs = {}
    fresh = {1: True, 2: True}
    pid0, stride, forked = 5000000 + rng.randrange(10000), 10 ** rng.randrange(6), 0
    out.line({"op": "Start", "files": tree()})
    try:
        for s in sc["log"]:
            p, want = s["p"], s["w"]
            r = progs[p][at[p]]
            got = {"w": "nothing"}
            try:
                if want == "started":
                    if fresh[p]:
                        procs[p] = mp.get_context("fork").Process(target=worker, args=(p, pid0 + stride * forked, ctl.path, xfoil, progs[p][at[p]:], afs, multi))
                        procs[p].start()
                        forked += 1
                        fresh[p] = False
                    else:
                        ctl.go(p)  # the end of the run before
                    got = ctl.wait()
                    if got["w"] == "ready":
                        ctl.go(p)
                        got = ctl.wait()
                elif want == "killed":
                    os.kill(procs[p].pid, signal.SIGKILL)
                    procs[p].join()
                    ctl.go(p)
                    fresh[p] = True
                    got = {"w": "killed"}
                else:
                    ctl.go(p)
                    got = ctl.wait()
            except OSError as x:
                got = {"w": f"nothing: {x}"}
            a = r["args"]
            e = {"op": "Step", "p": p, "w": want, "got": got["w"], "files": tree(), "kind": r["kind"], "err": got.get("err", ""),
                 "want": {"x": da(xy[r["af"]][0]), "y": da(xy[r["af"]][1]), "delta": d(a["delta"]), "xc": d(a["xc"]), "yt": d(a["yt"]), "n": a["n"]}}
            if got["w"] == "loaded":
                e["coords"] = [[d(v) for v in row] for row in got["coords"]]
            elif got["w"] == "saved":
                f = got["flap"]
                e["flap"] = [] if f is None else [d(f[0]), d(f[1]), d(f[3])]
                e["mode"] = "" if f is None else f[2]
                e["n"] = got["n"] if got["n"] is not None else -1
                e["out"] = {"x": [d(v[0]) for v in got["out"]], "y": [d(v[1]) for v in got["out"]]}
                e["wrote"] = got["wrote"]
            elif got["w"] == "end" and not got["err"]:
                e["x"], e["y"], e["ctrl"] = da(got["x"]), da(got["y"]), d(got["ctrl"])
            out.line(e)
            if got["w"] != want:
                return
            if want in ("end", "killed"):
                at[p] += 1
    finally:
        for q in procs.values():
            if q.is_alive():
                q.kill()
            q.join()
        for p in list(ctl.held):
            ctl.go(p)
        ctl.s.close()


def run(mode, scen, out, seed):
    home = os.getcwd()
    for k, sc in scen:
        w = tempfile.mkdtemp(prefix="f", dir=os.environ["VERIF_WORK"])
        try:
            case(out, random.Random(f"{seed}/{mode}/{k}"), sc, w)
        finally:
            os.chdir(home)
            shutil.rmtree(w, ignore_errors=True)
