#!/usr/bin/env python3
"""Fill the generated lists of DESIGN.md from known_findings.json and seeded/ (caught: tools/caught.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
fx = [x.split(" ", 3) for x in json.load(open(V + "/known_findings.json"))["fixed"]]
t = "| property | commit | what failed |\n|---|---|---|\n" + "".join(f"| {a[1].split('=')[1]} | {a[2]} | {a[3]} |\n" for a in fx)
s = re.sub(r"<!-- fixed -->.*<!-- /fixed -->", lambda m: "<!-- fixed -->\n" + t + "<!-- /fixed -->", s, flags=re.S)
c = json.load(open(V + "/tools/caught.json"))
b = "| change | needs | caught by |\n|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    b += f"| {d} | {m['needs']} | {c.get(d, 'not run')} |\n"
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n" + b + "<!-- /bugs -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
