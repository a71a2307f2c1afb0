#!/usr/bin/env python3
"""Nothing persistent is built: every check builds what it needs. This verifies that the tools are there and parses the specification."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import common
w = tempfile.mkdtemp()
try:
    common.build_java(w)
    r = subprocess.run(["bash", V + "/tools/sany.sh"])
    sys.exit(r.returncode)
finally:
    shutil.rmtree(w)
