"""The airfoil families of spec/lib/Airfoils.tla, as objects the code under test accepts."""
import math

import numpy as np

from rec import d


class AnalyticAF:
    asked = 0    # how often coefficients were asked for

    def __init__(self, kind, p):
        self.kind, self.p = kind, [float(x) for x in p]

    def desc(self):
        return {"kind": self.kind, "p": [d(x) for x in self.p]}

    def evaluate(self, alpha, Re, return_cm=False):
        AnalyticAF.asked += 1
        p = self.p
        if self.kind == "const":
            return p[0], p[1]
        t = alpha - p[2]
        cl = p[0] * math.sin(t) * math.cos(t)
        if p[4] != 0.0:
            cl *= 1.0 + p[4] * math.log(abs(Re) / 1e6)
        cd = p[1] + p[3] * math.sin(t) ** 2
        if p[5] != 0.0:
            cd += p[5] * math.log(abs(Re) / 1e6)
        return cl, cd

    def derivatives(self, alpha, Re):
        p = self.p
        if self.kind == "const":
            return 0.0, 0.0, 0.0, 0.0
        t = alpha - p[2]
        f = 1.0 + (p[4] * math.log(abs(Re) / 1e6) if p[4] != 0.0 else 0.0)
        b = p[0] * math.sin(t) * math.cos(t)
        return p[0] * math.cos(2 * t) * f, b * p[4] / Re, p[3] * math.sin(2 * t), p[5] / Re


class TableAF:
    """A real CCAirfoil; the specification is told its values at the angles of attack it needs."""

    def __init__(self, cc):
        self.cc = cc

    def desc(self):
        return {"kind": "table", "p": []}

    def evaluate(self, *a, **k):
        return self.cc.evaluate(*a, **k)

    def derivatives(self, *a, **k):
        return self.cc.derivatives(*a, **k)
