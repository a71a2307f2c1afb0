"""Direction vectors under transformations and arithmetic, recorded for spec/traces/T_Frames.tla."""
import random

import numpy as np

from rec import Bad, call, ccblade_import, da

ccblade_import()
from ccblade.csystem import DirectionVector  # noqa: E402

TRANS = {"inertialToWind": 1, "windToInertial": 1, "windToYaw": 1, "yawToWind": 1, "yawToHub": 1, "hubToYaw": 1, "hubToAzimuth": 1,
         "azimuthToHub": 1, "azimuthToBlade": 1, "bladeToAzimuth": 1, "bladeToAirfoil": 1, "airfoilToBlade": 1, "airfoilToProfile": 0,
         "profileToAirfoil": 0}


def comps(x, m):
    """a component, or a derivative, for all m members of the batch"""
    a = np.asarray(x, dtype=float)
    try:
        return da(np.broadcast_to(a, (m,)))
    except ValueError:
        raise Bad(f"shape {a.shape}")


def snap(v, m):
    J = {k: [comps(v.dx[k], m), comps(v.dy[k], m), comps(v.dz[k], m)] for k in sorted(v.dx)}
    return {"c": [comps(v.x, m), comps(v.y, m), comps(v.z, m)], "J": J}


def component(rng, m):
    def one():
        return rng.choice([rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-5, 5), 0.0, 1.0, -1e3])
    if rng.random() < .2:      # whole numbers, given as such
        return rng.randint(-9, 9) if m == 1 else np.array([rng.randint(-9, 9) for _ in range(m)])
    return one() if m == 1 else np.array([one() for _ in range(m)])


def angle(rng, m, arrays):
    def one():
        return rng.choice([rng.uniform(-180, 180), rng.uniform(-720, 720), rng.uniform(-5, 5), 0.0, 90.0, -90.0, 180.0])
    return np.array([one() for _ in range(m)]) if arrays else one()


class Heap:
    def __init__(self, out, rng, m):
        self.out, self.m, self.rng = out, m, rng
        self.src = [component(rng, m) for _ in range(6)]
        self.keep = [np.array(x, copy=True) for x in self.src]
        if m > 1 and rng.random() < 0.3:
            v = [DirectionVector.fromArray(self.src[:3]), DirectionVector.fromArray(np.array(self.src[3:]))]
        else:
            v = [DirectionVector(*self.src[:3]), DirectionVector(*self.src[3:])]
        self.v = v
        self.out.line({"op": "Start", "m": m, "src": [comps(x, m) for x in self.src], "heap": [snap(x, m) for x in v], "arr": self.arrays()})

    def arrays(self):
        """toArray of every vector whose components are of one size"""
        r = []
        for v in self.v:
            try:
                a = v.toArray()
            except Exception:
                r.append([])
                continue
            r.append([da(np.asarray(row, dtype=float)) for row in a])
        return r

    def record(self, e, f, dst):
        """f() returns the new vector (or the written one)"""
        r, err = call(f)
        e.update(op="Do", err=err, dst=dst)
        same = True
        if not err and isinstance(r, DirectionVector):
            if dst > len(self.v):
                self.v.append(r)
            else:
                self.v[dst - 1] = r
        elif not err:
            e["err"] = f"returned a {type(r).__name__}"
        try:
            e["heap"] = [snap(x, self.m) for x in self.v]
        except (Bad, KeyError, AttributeError, TypeError, ValueError) as x:
            e["err"] = f"unusable vector: {x}"
        e["arr"] = self.arrays()
        for a, b in zip(self.src, self.keep):
            same = same and np.array_equal(np.asarray(a), b)
        e["srcsame"] = bool(same)
        self.out.line(e)


def spoil(h):
    """the caller reuses the arrays the vectors were made from"""
    if h.m < 2:
        return
    for a in h.src:
        if isinstance(a, np.ndarray):
            a[...] = 55
    e = {"op": "Reuse", "err": ""}
    try:
        e["heap"] = [snap(x, h.m) for x in h.v]
    except (Bad, KeyError, AttributeError, TypeError, ValueError) as x:
        e["err"] = f"unusable vector: {x}"
    h.out.line(e)


def chain(out, rng, sc):
    m = rng.choice([1, 1, 2, 3])
    h = Heap(out, rng, m)
    arr = m > 1 and rng.random() < 0.5
    ang = {}
    fresh = rng.random() < 0.2     # a new angle on every passage, otherwise one angle per transformation pair
    cur = 1
    for name in sc["path"]:
        src = h.v[cur - 1]
        key = name.replace("To", " ").split()
        key = tuple(sorted(x.lower() for x in key))
        if TRANS[name]:
            if fresh or key not in ang:
                ang[key] = angle(rng, m, arr)
            a = ang[key]
            dst = len(h.v) + 1
            h.record({"do": name, "a": cur, "ang": comps(a, m)}, lambda: getattr(src, name)(a), dst)
        else:
            dst = len(h.v) + 1
            h.record({"do": name, "a": cur, "ang": comps(0.0, m)}, lambda: getattr(src, name)(), dst)
        if len(h.v) < dst:
            return
        cur = dst
    spoil(h)


PY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def inplace(op, a, b):
    if op == "iadd":
        a += b
    elif op == "isub":
        a -= b
    else:
        a *= b
    return a


def ops(out, rng, sc):
    m = rng.choice([1, 1, 3])
    h = Heap(out, rng, m)
    for o in sc["ops"]:
        op, i, j = o["op"], o["a"], o["b"]
        if max(i, j) > len(h.v):
            return
        a, b = h.v[i - 1], h.v[j - 1]
        new = len(h.v) + 1
        e = {"do": op, "a": i, "b": j}
        if op == "turn":
            name = rng.choice([k for k in TRANS if TRANS[k]])
            t = angle(rng, m, m > 1 and rng.random() < .3)
            e.update(do=name, ang=comps(t, m))
            h.record(e, lambda: getattr(a, name)(t), new)
        elif op == "exchange":
            name = rng.choice(["airfoilToProfile", "profileToAirfoil"])
            e.update(do=name, ang=comps(0.0, m))
            h.record(e, lambda: getattr(a, name)(), new)
        elif op == "copy":
            h.record(e, lambda: DirectionVector(a.x, a.y, a.z), new)
        elif op == "neg":
            h.record(e, lambda: -a, new)
        elif op == "cross":
            h.record(e, lambda: a.cross(b), new)
        elif op in PY:
            h.record(e, lambda: PY[op](a, b), new)
        elif op in ("adds", "subs", "muls", "divs"):
            s = rng.choice([rng.uniform(-3, 3), 2.0, -1.0, 2])
            e["s"] = comps(s, m)
            h.record(e, lambda: PY[op[:-1]](a, s), new)
        elif op in ("iadd", "isub", "imul"):
            h.record(e, lambda: inplace(op, a, b), i)
        else:
            s = rng.choice([rng.uniform(-3, 3), 2.0, -1.0, 2])
            e["s"] = comps(s, m)
            h.record(e, lambda: inplace(op[:-1], a, s), i)
    spoil(h)
    # derivatives of the cross product of the first two
    a, b = h.v[0], h.v[1]
    na, nb = rng.choice([("a", "b"), ("p", "w")])
    forms = ["array"] if m > 1 else ["array", "float"]
    for form in forms:
        e = {"op": "CrossDeriv", "m": m, "err": ""}
        r, e["err"] = call(a.cross_deriv_array if form == "array" else a.cross_deriv, b, na, nb)
        if form == "array" and m > 1:      # what was returned does not change with the vectors afterwards
            a, b = DirectionVector(a.x, a.y, a.z), DirectionVector(b.x, b.y, b.z)
            h.v[0] += 1.5
            h.v[1] *= h.v[0]
        if not e["err"]:
            try:
                D = []
                for q in r:
                    if form == "array":
                        D.append([[comps(q[f"d{n}{c}"], m) for c in "xyz"] for n in (na, nb)])
                    else:
                        D.append([[comps(np.ravel(q[n])[k], m) for k in range(3)] for n in (na, nb)])
                e["D"] = D
            except (KeyError, Bad, IndexError, TypeError) as x:
                e["err"] = f"unusable result {x}"
        out.line(e)


def run(mode, scen, out, seed):
    for k, sc in scen:
        rng = random.Random(f"{seed}/{mode}/{k}")
        (chain if mode == "chain" else ops)(out, rng, sc)
