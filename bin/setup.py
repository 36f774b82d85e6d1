#!/usr/bin/env python3
"""setup_cmd: nothing needs building; verify that the tools the checks need are present and the specifications parse."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", jars, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f), capture_output=True, text=True)
    if p.returncode != 0:
        bad += 1
        print(p.stdout[-2000:])
p = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, numba, networkx, igl"], capture_output=True, text=True)
if p.returncode:
    bad += 1
    print(p.stderr)
print("setup:", "failed" if bad else "ok")
sys.exit(1 if bad else 0)
