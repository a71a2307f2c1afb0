"""dbg.py MODE N [seed] : run one driver mode on random scenarios and validate in one process, printing verdicts"""
import sys, os, json, random, re, shutil
sys.path.insert(0, "/verif/harness")
import common
from plans import COVER
W = os.environ.get("DBG", "/tmp/dbg")
if not os.path.exists(W + "/bem") or "-b" in sys.argv:
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    common.build_java(W); common.build_bem(W)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
if "-j" in sys.argv:
    shutil.rmtree(W + "/cls"); common.build_java(W)
driver, mode, n, trace, model = args[0], args[1], int(args[2]), args[3], args[4] if len(args) > 4 else None
seed = int(args[5]) if len(args) > 5 else 1
if model and model != "-":
    f = W + "/" + model.replace("/", "_") + ".json"
    if not os.path.exists(f) or "-m" in sys.argv:
        s, t, sc = common.run_model(W, model, model + ".cfg", workers=8)
        print("model", s, t, len(sc)); json.dump(sc, open(f, "w"))
    sc = json.load(open(f)); random.Random(seed).shuffle(sc); sc = sc[:n]
else:
    sc = [{}] * n
job = dict(driver=driver, mode=mode, scenarios=list(enumerate(sc)), seed=seed, out=W + "/t.ndjson", tier="quick")
json.dump(job, open(W + "/job.json", "w"))
env = common.env_for_code(); env["VERIF_BEM"] = W + "/bem"; env["VERIF_WORK"] = W + "/d"; os.makedirs(W + "/d", exist_ok=True)
import time
t = time.time()
r = common.sh([common.PY, "/verif/harness/driver.py", W + "/job.json"], env=env, cwd=W + "/d")
print("driver", r.returncode, round(time.time() - t, 1)); print(r.stdout[-3000:])
if r.returncode: sys.exit(1)
t = time.time()
v = common.validate(W, trace, W + "/t.ndjson")
print("validated", v["states"], round(time.time() - t, 1))
print({COVER.get(k, f"C{k:02d}"): c for k, c in v["counts"].items()})
from collections import Counter
cnt = Counter(f["clause"] for f in v["fails"]); print(len(v["fails"]), "FAILS", cnt.most_common(30)); 
for f in v["fails"][:12]: print(f)
print(Counter(f["name"] for f in v["known"]))
