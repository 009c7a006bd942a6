#!/usr/bin/env python3
"""setup_cmd: nothing needs installing; checks that the tools are there and that every specification parses."""
import os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def sany(f):
    r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], cwd=V + "/spec", text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return f, r.returncode, r.stdout
fs = sorted(f for f in os.listdir(V + "/spec") if f.endswith(".tla"))
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for f, rc, out in ex.map(sany, fs):
        if rc or "*** Errors" in out or "Fatal errors" in out:
            bad = 1
            print(f, out[-2000:])
subprocess.check_call(["g++", "--version"], stdout=subprocess.DEVNULL)
print("parsed %d modules" % len(fs))
sys.exit(bad)
