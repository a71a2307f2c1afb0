#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

TLC explores the design models of the property exhaustively and prints scenarios, the scenarios are run on the real
code, and TLC validates the recorded trace against the specification. See DESIGN.md.
"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/harness")
import common  # noqa: E402
from common import Machinery, NCPU, PY  # noqa: E402
from plans import PLANS, COVER  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def select(scenarios, n, seed):
    """a seeded sample without replacement, repeated when fewer scenarios exist than wanted"""
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        s = list(scenarios)
        rng.shuffle(s)
        out += s[: n - len(out)]
    return out


def drive(work, k, job):
    """run one driver process; returns (job, returncode, text)"""
    path = f"{work}/job{k}.json"
    job["out"] = f"{work}/trace{k}.ndjson"
    json.dump(job, open(path, "w"))
    env = common.env_for_code()
    env["VERIF_BEM"] = work + "/bem"
    env["VERIF_WORK"] = f"{work}/d{k}"
    os.makedirs(env["VERIF_WORK"])
    try:
        r = common.sh([PY, VERIF + "/harness/driver.py", path], env=env, timeout=job["timeout"], cwd=env["VERIF_WORK"])
        return job, r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return job, "timeout", ""


def main(pid):
    t0 = time.time()
    num = int(pid[1:])
    plan = PLANS[pid]
    thorough = TIER == "thorough"
    work = tempfile.mkdtemp(prefix=f"verif_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(pid, num, plan, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, num, plan, thorough, work, t0):
    common.build_java(work)
    models = plan["models"]
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(common.build_bem, work)
        fm = [ex.submit(common.run_model, work, m, m + ("_t.cfg" if thorough and os.path.exists(f"{VERIF}/spec/{m}_t.cfg") else ".cfg"),
                        4 if len(models) > 1 else 6) for m in models]
        fb.result()
        mres = [f.result() for f in fm]
    states = sum(r[0] for r in mres)
    trans = sum(r[1] for r in mres)
    scen_by_model = {m: r[2] for m, r in zip(models, mres)}
    t_models = time.time() - t0

    # jobs: scenarios split over processes
    jobs = []
    nscen = 0
    for p in plan["runs"]:
        n = p["n"] * (p.get("deep", 12) if thorough else 1)
        if p.get("model"):
            src = scen_by_model[p["model"]]
            if p.get("filter"):
                src = [s for s in src if p["filter"](s)]
            if not src:
                raise Machinery(f"no scenarios for {p}")
            sc = list(src) if p.get("all") else select(src, n, f"{SEED}/{p['mode']}")
        else:
            sc = [{} for _ in range(n)]
        sc = list(enumerate(sc))
        nscen += len(sc)
        parts = min(p.get("parts", NCPU), max(1, len(sc)))
        for i in range(parts):
            jobs.append(dict(driver=p["driver"], mode=p["mode"], scenarios=sc[i::parts], seed=SEED, trace=p["trace"], tier=TIER,
                             timeout=700 if not thorough else 6000))
    res = []
    with ThreadPoolExecutor(NCPU) as ex:
        def both(kj):
            k, j = kj
            job, rc, txt = drive(work, k, j)
            if rc == 0:
                try:
                    v = common.validate(work, job["trace"], job["out"], timeout=800 if not thorough else 7000)
                except Machinery as e:
                    return job, dict(rc=2, txt=str(e))
                v["rc"] = 0
                v["lines"] = sum(1 for _ in open(job["out"]))
            else:
                v = dict(rc=rc, txt=txt)
            return job, v
        res = list(ex.map(both, enumerate(jobs)))

    fails, known, counts, samples, lines, broken = [], {}, {}, [], 0, []
    for job, v in res:
        if v["rc"] != 0:
            if v["rc"] == "timeout" or (isinstance(v["rc"], int) and v["rc"] < 0):
                # the code under test killed or hung the process
                fails.append(dict(clause=f"process ended by {v['rc']}", ctx=v.get("txt", "")[-500:], line=0, job=job))
                continue
            tail = (v["txt"] or "").rsplit("Traceback (most recent call last)", 1)[-1]
            if f"{common.REPO}/ccblade/" in tail and "ImportError" not in tail and "ModuleNotFoundError" not in tail:
                # an exception the code raised where the specification has none
                fails.append(dict(clause="raises where the specification has a result", ctx=tail[-300:].replace("\n", " "), line=0, job=job))
            else:
                broken.append(f"driver {job['driver']} {job['mode']} failed: rc={v['rc']}\n{v['txt'][-3000:]}")
            continue
        states += v["states"]
        trans += v["transitions"]
        lines += v["lines"]
        for c, n in v["counts"].items():
            counts[c] = counts.get(c, 0) + n
        for f in v["fails"]:
            if f["ids"] is None or num in f["ids"]:
                fails.append(dict(f, job=job))
        for f in v["known"]:
            if f["id"] == num:
                known.setdefault(f["name"], []).append(dict(f, job=job))

    kf = json.load(open(VERIF + "/known_findings.json"))
    listed = {e["name"]: e for e in kf["findings"] if e["property"] == pid}
    if broken and not fails:
        raise Machinery("\n".join(broken[:3]))
    viol = list(fails)
    for name, fs in known.items():
        if name in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[name]['what']}")
        else:
            viol += [dict(f, clause=f"unlisted finding {name}") for f in fs]
    evaluated = counts.get(num, 0)
    # sample cases of this run: scenario and first trace lines
    for job, v in res[:: max(1, len(res) // 3)][:3]:
        try:
            with open(job["out"]) as f:
                head = [next(f)[:600] for _ in range(2)]
        except (OSError, StopIteration):
            head = []
        samples.append({"mode": job["mode"], "scenario": job["scenarios"][0][1], "trace_head": head})

    ok = not viol
    if ok and evaluated == 0:
        raise Machinery(f"no clause of {pid} was evaluated (vacuous run)")
    missing = [COVER[c] for c in plan.get("cover", []) if counts.get(c, 0) == 0]
    if ok and missing:
        raise Machinery(f"situations never met: {missing}")
    ev = dict(
        property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
        coverage=dict(
            states=states, transitions=trans, traces_validated_against_impl=nscen, samples=samples,
            trace_lines=lines, clause_evaluations=evaluated,
            situations={COVER[c]: counts.get(c, 0) for c in sorted(counts) if c in COVER},
            model_states={m: r[0] for m, r in zip(models, mres)}, scenarios_available={m: len(r[2]) for m, r in zip(models, mres)},
        ),
        assumptions=plan.get("assumptions", []) + [
            "TLC and the Java double arithmetic of spec/lib/IEEE.tla (libm results of java.lang.Math within 1 ulp)",
            "the code is judged on the executions that were recorded"],
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {evaluated} clause evaluations on {lines} events of {nscen} scenarios, {states} states, "
          f"{len(viol)} violations, {ev['wall_s']} s (models {t_models:.1f} s)")
    if viol:
        rep = f"{VERIF}/evidence/replay_{pid}.json"
        seen, out = set(), []
        for f in viol:
            if f["clause"] in seen:
                continue
            seen.add(f["clause"])
            ctxlines = []
            if f["line"]:
                with open(f["job"]["out"]) as fh:
                    ls = fh.readlines()
                # the construction the line refers to, and the line
                last_new = max([i for i in range(f["line"]) if '"op":"New"' in ls[i]] or [f["line"] - 1])
                ctxlines = [json.loads(ls[i]) for i in sorted({last_new, f["line"] - 1})]
            out.append(dict(clause=f["clause"], context=f["ctx"], line=f["line"], driver=f["job"]["driver"], mode=f["job"]["mode"],
                            trace=f["job"]["trace"], seed=SEED, tier=TIER, events=ctxlines,
                            again=f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {pid}"))
            if len(out) >= 10:
                break
        json.dump(out, open(rep, "w"), indent=1)
        for o in out:
            print(f"  {o['mode']}: {o['clause']} [{str(o['context'])[:160]}]")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except Machinery as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
