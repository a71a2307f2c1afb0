"""Stand-in for matplotlib (which is not installed): figures, axes and curves, as data."""
import re
import sys
import types

import numpy as np

from rec import d, num

FIGS = []          # open figures, in the order they were opened
SHOWN = []         # how many figures were open at every show()
cur = {"fig": None}


class Quiet:
    """everything that is only decoration"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Quiet()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def __iter__(self):
        return iter(())


class Line(Quiet):
    def __init__(self, c):
        self.c = c

    def set_label(self, s):
        self.c["label"] = str(s)

    def get_label(self):
        return self.c["label"]

    def get_xdata(self, *_, **__):
        return self.c["x"]

    def get_ydata(self, *_, **__):
        return self.c["y"]

    def set_data(self, x, y):
        self.c["x"], self.c["y"] = np.array(x, dtype=float), np.array(y, dtype=float)


class Ax(Quiet):
    def __init__(self, fig):
        self.figure, self.curves, self.xl, self.yl = fig, [], "", ""
        self.transAxes = self.place = None

    def plot(self, *a, **k):
        lines = []
        a = list(a)
        while a:
            x = np.array(a.pop(0), dtype=float)
            if a and not isinstance(a[0], str):
                y = np.array(a.pop(0), dtype=float)
            else:
                x, y = np.arange(len(x)) * 1.0, x
            if a and isinstance(a[0], str):
                a.pop(0)
            if x.shape != y.shape:
                raise ValueError("x and y must have same first dimension")
            c = {"x": x, "y": y, "label": str(k.get("label", ""))}
            self.curves.append(c)
            lines.append(Line(c))
        return lines

    @property
    def lines(self):
        return [Line(c) for c in self.curves]

    def get_lines(self):
        return self.lines

    def get_figure(self, *_, **__):
        return self.figure

    def get_xlabel(self):
        return self.xl

    def get_ylabel(self):
        return self.yl

    def legend(self, *a, **k):
        a = [x for x in a] + ([k["labels"]] if "labels" in k else [])
        names = a[-1] if a and len(a[-1]) and isinstance(a[-1][0], str) else []
        lines = a[0] if len(a) == 2 else k.get("handles", self.lines)
        for x, t in zip(lines, names):
            x.set_label(t)
        return Quiet()

    def set_xlabel(self, s, **_):
        self.xl = str(s)

    def text(self, *a, **k):
        self.figure.texts += [str(s) for s in list(a) + list(k.values()) if isinstance(s, str)]
        return Quiet()

    annotate = set_title = text

    def set_ylabel(self, s, **_):
        self.yl = str(s)

    def set(self, **k):
        self.xl, self.yl = str(k.get("xlabel", self.xl)), str(k.get("ylabel", self.yl))


class Fig(Quiet):
    def __init__(self):
        self.axes, self.number, self.name = [], 1 + max([f.number for f in FIGS], default=0), None
        self.now, self.texts = None, []
        FIGS.append(self)
        cur["fig"] = self

    def clf(self, *_, **__):
        del self.axes[:]

    clear = clf

    def add_subplot(self, *_, **__):
        self.axes.append(Ax(self))
        self.now = self.axes[-1]
        return self.now

    add_axes = add_subplot

    def at(self, *place):
        """pyplot.subplot: the axes at this place, new only when there are none"""
        place = tuple(int(x) for x in str(place[0])) if len(place) == 1 and isinstance(place[0], int) else place or (1, 1, 1)
        for a in self.axes:
            if a.place == place:
                self.now = a
                return a
        a = self.add_subplot()
        a.place = place
        return a

    def subplots(self, nrows=1, ncols=1, squeeze=True, **_):
        a = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                a[i, j] = self.add_subplot()
                a[i, j].place = (nrows, ncols, i * ncols + j + 1)
        return a if not squeeze else a[0, 0] if a.size == 1 else a.ravel() if 1 in a.shape else a

    def sca(self, a):
        self.now = a

    def gca(self, *_, **__):
        return self.now if self.now in self.axes else self.axes[-1] if self.axes else self.add_subplot()

    def text(self, *a, **k):
        return self.gca().text(*a, **k)

    suptitle = text

    def get_axes(self):
        return list(self.axes)


def gcf():
    return cur["fig"] or Fig()


def reset():
    del FIGS[:], SHOWN[:]
    cur["fig"] = None


def shot():
    """the open figures as recorded"""
    return [{"axes": len(f.axes), "xl": "|".join(a.xl for a in f.axes), "yl": "|".join(a.yl for a in f.axes),
             # Reynolds numbers written into the figure
             "re": [d(float(x)) for t in f.texts for x in re.findall(r"Re\s*=\s*([-+0-9.e]+)\s*million", t)],
             "curves": [{"x": num(c["x"]), "y": num(c["y"]), "label": c["label"]} for a in f.axes for c in a.curves]} for f in FIGS]


def install():
    m, p = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")

    def figure(num=None, **_):
        if isinstance(num, Fig):
            cur["fig"] = num
            return num
        f = next((f for f in FIGS if num is not None and num in (f.name, f.number)), None) or Fig()
        if isinstance(num, int):
            f.number = num
        elif num is not None:
            f.name = num
        cur["fig"] = f
        return f

    def close(what=None):
        gone = FIGS[:] if what == "all" else [f for f in FIGS if f is (cur["fig"] if what is None else what) or f.number == what or f.name == what and what is not None]
        FIGS[:] = [f for f in FIGS if f not in gone]
        cur["fig"] = FIGS[-1] if FIGS else None

    def subplots(nrows=1, ncols=1, squeeze=True, num=None, **_):
        f = figure(num)
        return f, f.subplots(nrows, ncols, squeeze)

    def sca(a):
        cur["fig"] = a.figure
        a.figure.sca(a)
    p.figure, p.subplots, p.gcf, p.gca, p.close = figure, subplots, gcf, lambda: gcf().gca(), close
    p.clf = lambda: gcf().clf()
    p.plot = lambda *a, **k: gcf().gca().plot(*a, **k)
    p.xlabel = lambda s, **k: gcf().gca().set_xlabel(s)
    p.ylabel = lambda s, **k: gcf().gca().set_ylabel(s)
    p.subplot = lambda *a, **k: gcf().at(*a)
    p.text = p.title = p.annotate = p.figtext = p.suptitle = lambda *a, **k: gcf().gca().text(*a, **k)
    p.legend = lambda *a, **k: gcf().gca().legend(*a, **k)
    p.sca, p.axes = sca, lambda *a, **k: gcf().add_subplot()
    p.get_fignums = lambda: [f.number for f in FIGS]
    p.fignum_exists = lambda n: any(n in (f.number, f.name) for f in FIGS)
    p.show = lambda *a, **k: SHOWN.append(len(FIGS))
    p.__getattr__ = lambda name: (lambda *a, **k: Quiet())
    m.pyplot = p
    m.__getattr__ = lambda name: (lambda *a, **k: Quiet())
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, p
