#!/usr/bin/env python3
"""Run the check of each planted bug against a scratch copy of /repo with it.

usage: trybugs.py [ID...]"""
import json, os, shutil, subprocess, sys
S = "/tmp/trybugs"
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
subprocess.run(f"cp -a /repo {S}/repo", shell=True, check=True)
for i in ids:
    d = f"/verif/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run("git checkout -q -- .", shell=True, cwd=S + "/repo")
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=S + "/repo", capture_output=True, text=True)
    if a.returncode:
        print(i, prop, "DOES NOT APPLY", a.stderr[:200], flush=True)
        continue
    env = dict(os.environ, VERIF_REPO=S + "/repo", PYTHONPATH=S + "/repo", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", VERIF_TIER="quick")
    r = subprocess.run(["./check", prop, "--tier", "quick"], cwd="/verif", env=env, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, len(v), flush=True)
shutil.rmtree(S, ignore_errors=True)
