#!/usr/bin/env python3
"""Checks that the toolchain is there and that every specification module parses."""
import glob, os, subprocess, sys, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core
for c in (["java", "-version"], ["cargo", "--version"], ["gcc", "--version"]):
    subprocess.run(c, check=True, capture_output=True)
def sany(f):
    p = subprocess.run(["java", "-cp", core.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=core.SPEC,
                       capture_output=True, text=True)
    ok = p.returncode == 0 and "rror" not in p.stdout
    return f, ok, p.stdout[-1500:]
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for f, ok, out in ex.map(sany, sorted(glob.glob(os.path.join(core.SPEC, "*.tla")))):
        if not ok:
            bad = 1
            print(f, out)
sys.exit(bad)
