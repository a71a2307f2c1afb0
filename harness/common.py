"""Building, running drivers and TLC, verdicts and evidence."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """the check itself failed: neither pass nor violation"""


def env_for_code():
    e = dict(os.environ)
    e.update(
        PATH="/opt/venv/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
        OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI="0", CC="gcc", FC="gfortran", MPLBACKEND="Agg",
        LANG="C.UTF-8", HOME=e.get("HOME", "/root"), VERIF_REPO=REPO,
    )
    return e


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build_java(work):
    cls = os.path.join(work, "cls")
    os.makedirs(cls)
    r = sh(["javac", "-nowarn", "-cp", CP, "-d", cls] + sorted(glob.glob(VERIF + "/spec/java/*.java")))
    if r.returncode:
        raise Machinery("javac failed\n" + r.stdout)


def build_bem(work):
    """build ccblade/_bem from /repo's working tree, out of tree"""
    src = os.path.join(work, "bemsrc")
    os.makedirs(src + "/ccblade/src")
    for f in ("meson.build", "meson_options.txt", "ccblade/meson.build", "ccblade/src/bem.f90"):
        shutil.copyfile(f"{REPO}/{f}", f"{src}/{f}")
    for f in glob.glob(REPO + "/ccblade/*.py"):
        shutil.copy(f, src + "/ccblade/")
    b = os.path.join(work, "bembuild")
    env = env_for_code()
    r = sh(["meson", "setup", b, src, f"-Dpython_target={PY}", "-Dpython.purelibdir=.", "-Dpython.platlibdir=.",
            f"--prefix={work}/inst"], env=env, cwd=src)
    if r.returncode == 0:
        r = sh(["meson", "compile", "-C", b], env=env)
    so = glob.glob(b + "/ccblade/_bem*.so")
    if r.returncode or not so:
        raise Machinery("the Fortran extension does not build\n" + r.stdout[-3000:])
    out = os.path.join(work, "bem")
    os.makedirs(out)
    shutil.copy(so[0], out)
    return out


def tlc(work, module, cfg, env=None, workers=1, heap="1500m", timeout=850, extra=(), stack="64m"):
    """run TLC on a module of spec/; returns its output"""
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    path = os.path.join(VERIF, "spec", module + ".tla")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides",
           f"-DTLA-Library={VERIF}/spec/lib:{VERIF}/spec/traces:{VERIF}/spec/models",
           "-cp", f"{CP}:{work}/cls", "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(VERIF, "spec", cfg), *extra, path]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        raise Machinery(f"TLC on {module} did not finish in {timeout} s\n" + (x.stdout or b"")[-1500:].decode(errors="replace"))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_stats(out):
    m = RE_STATES.findall(out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)  # distinct states, transitions


def tlc_error(out):
    ls = [l for l in out.splitlines() if l.strip() and not re.match(r"Parsing file|Semantic proc|Linting|TLC2 Ver", l)]
    k = next((i for i, l in enumerate(ls) if "rror" in l), max(0, len(ls) - 40))
    pos = [l for l in ls if re.match(r"\d+\. Line", l)]
    return "\n".join([l[:300] for l in ls[k:k + 25]] + pos[-8:] + ls[-4:])


def run_model(work, module, cfg, workers=4, timeout=600, env=None):
    """exhaustive run of a design model; returns (states, transitions, scenarios)"""
    rc, out = tlc(work, module, cfg, workers=workers, timeout=timeout, env=env)
    if rc != 0 or "Model checking completed. No error has been found." not in out and "Finished in" not in out or "Error:" in out:
        raise Machinery(f"model {module} {cfg}: rc={rc}\n" + tlc_error(out))
    scen = []
    for line in sorted(out.splitlines()):   # TLC's workers print in any order
        if line.startswith('"SCENARIO '):
            scen.append(json.loads(json.loads(line)[len("SCENARIO "):]))
    s, t = tlc_stats(out)
    if s == 0:
        raise Machinery(f"model {module} {cfg} explored no states\n" + out[-2000:])
    return s, t, scen


RE_FAIL = re.compile(r'^<<"FAIL", (\d+), <<([0-9, ]*)>>, "((?:[^"\\]|\\.)*)", (.*)>>$')
RE_KNOWN = re.compile(r'^<<"KNOWN", (\d+), (\d+), "((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)">>$')
RE_COUNT = re.compile(r'^<<"COUNT", (\d+), (\d+)>>$')


STUCK = re.compile(r"The behavior up to this point|The error occurred when TLC was evaluating|Attempted to|is violated|Deadlock reached|exception was", re.I)
BROKEN = re.compile(r"OutOfMemory|heap space|StackOverflow|Parsing or semantic analysis failed|Unknown operator|TLC_TIMEOUT|Insufficient memory", re.I)


def validate(work, module, trace, env=None, timeout=850):
    """trace validation; returns dict(fails, known, counts, states, transitions)"""
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(work, module, "traces/trace.cfg", env=e, timeout=timeout, heap="2500m")
    fails, known, counts = [], [], {}
    text = out
    # PrintT wraps long values over several lines: join continuation lines of <<...>> values
    buf = None
    lines = []
    for ln in text.splitlines():
        if buf is None and ln.startswith("<<") and not ln.rstrip().endswith(">>"):
            buf = ln
        elif buf is not None:
            buf += " " + ln.strip()
            if ln.rstrip().endswith(">>") and buf.count("<<") == buf.count(">>"):
                lines.append(buf)
                buf = None
        else:
            lines.append(ln)
    for ln in lines:
        ln = re.sub(r"^<<\s+", "<<", ln.strip())
        ln = re.sub(r"\s+>>$", ">>", ln)
        m = RE_FAIL.match(ln)
        if m:
            fails.append(dict(line=int(m.group(1)), ids=[int(x) for x in m.group(2).split(",") if x.strip()],
                              clause=m.group(3), ctx=m.group(4)))
            continue
        m = RE_KNOWN.match(ln)
        if m:
            known.append(dict(line=int(m.group(1)), id=int(m.group(2)), name=m.group(3), ctx=m.group(4)))
            continue
        m = RE_COUNT.match(ln)
        if m:
            counts[int(m.group(1))] = int(m.group(2))
        elif ln.startswith('<<"FAIL"') or ln.startswith('<<"KNOWN"'):
            raise Machinery("unparsed verdict: " + ln[:500])
    if rc != 0 or not counts:
        # an event whose recorded values are outside the domain of the specification's operators, or that no action
        # accepts, is no behaviour of the specification; anything else (time, memory, a broken module) is our problem
        if STUCK.search(out) and not BROKEN.search(out):
            st = re.findall(r"\bl = (\d+)", out)
            ctx = re.sub(r"\s+", " ", tlc_error(out))[:300]
            fails.append(dict(line=int(st[-1]) if st else 0, ids=None, clause="the recorded event is no behaviour of the specification", ctx=ctx))
            return dict(fails=fails, known=known, counts=counts, states=0, transitions=0)
        raise Machinery(f"trace validation {module} of {trace} did not complete: rc={rc}\n" + tlc_error(out))
    s, t = tlc_stats(out)
    return dict(fails=fails, known=known, counts=counts, states=s, transitions=t)
