"""Recording of public calls of the code under test as trace lines (no judgement is made here)."""
import io
import json
import os
import signal
import struct
import sys
import contextlib
import warnings

import numpy as np


class Bad(Exception):
    """a value that cannot be recorded as a number"""


def d(x):
    """a double as its two 32-bit halves"""
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def da(x):
    """array of doubles (any dimension), nested lists of pairs"""
    a = np.asarray(x, dtype=float)
    if a.ndim == 0:
        return d(a)
    if a.ndim == 1:
        v = np.ascontiguousarray(a, dtype=">f8").view(">i4").reshape(-1, 2)
        return v.tolist()
    return [da(r) for r in a]


def num(x):
    """result of a call as doubles; raises Bad when it is not numeric"""
    try:
        a = np.asarray(x)
        if a.dtype == object or np.iscomplexobj(a):
            raise Bad(f"{type(x)}")
        return da(np.atleast_1d(a.astype(float)).ravel())
    except (TypeError, ValueError) as e:
        raise Bad(str(e))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("call did not return in time")


def call(f, *a, seconds=20, **k):
    """(result, '') or (None, 'ErrorType: text') of a call of the code under test"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(*a, **k), ""
    except (SystemExit, Exception) as e:  # noqa
        return None, f"{type(e).__name__}: {e}"[:200]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Rec:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def line(self, e):
        self.f.write(json.dumps(e, separators=(",", ":")) + "\n")
        self.f.flush()
        self.n += 1

    def mark(self, what):
        """name of the call about to be made, for a driver that dies in it"""
        self.what = what


def ccblade_import():
    """import ccblade from /repo with _bem freshly built from its source"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    import glob
    import importlib.util

    so = glob.glob(os.environ["VERIF_BEM"] + "/_bem*.so")[0]
    spec = importlib.util.spec_from_file_location("ccblade._bem", so)
    sys.modules["ccblade._bem"] = m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    import ccblade
    import ccblade.ccblade as cc

    assert os.path.realpath(ccblade.__file__).startswith(os.path.realpath(repo) + "/"), ccblade.__file__
    assert sys.modules["ccblade._bem"] is m and m.__file__ == so
    return ccblade
