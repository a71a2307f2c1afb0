"""driver.py JOB.json: run scenarios on the real code and record a trace."""
import importlib
import json
import sys

from rec import Rec

job = json.load(open(sys.argv[1]))
out = Rec(job["out"])
m = importlib.import_module(job["driver"])
m.run(job["mode"], [tuple(x) for x in job["scenarios"]], out, job["seed"])
out.line({"op": "End"})
