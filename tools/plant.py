#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of /repo and keep those which are genuine.

usage: plant.py FILE.py...   (each file defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])

A bug is kept under /verif/seeded/<id>/ when its demonstration exits 0 without
and non-zero with the change, and the stable tests pass with it."""
import json, os, shutil, subprocess, sys, tempfile

SHARD, SHARDS = (int(x) for x in os.environ.get("SHARD", "0/1").split("/"))
SCR = "/tmp/plant%d" % SHARD
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def demo(d):
    env = dict(os.environ, PYTHONPATH=SCR + "/repo", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(["bash", d + "/demo.sh"], cwd=SCR + "/repo", env=env, text=True, capture_output=True, timeout=300)


def main():
    shutil.rmtree(SCR, ignore_errors=True)
    os.makedirs(SCR)
    sh(f"cp -a /repo {SCR}/repo")
    test = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {SCR}/repo").replace("export HOME", f"export PYTHONPATH={SCR}/repo HOME")
    open(SCR + "/test.sh", "w").write(test)
    base = sh("git rev-list --max-parents=0 HEAD", cwd=SCR + "/repo").stdout.strip()[:7]
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for k, b in enumerate(ns["BUGS"]):
            if k % SHARDS != SHARD:
                continue
            dst = f"/verif/seeded/{b['id']}"
            if os.path.exists(dst):
                print(b["id"], "exists"); continue
            tmp = tempfile.mkdtemp(dir=SCR)
            open(tmp + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exits 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            sh("git checkout -q -- .", cwd=SCR + "/repo")
            r = demo(tmp)
            if r.returncode:
                print(b["id"], "DEMO FAILS ON THE ORIGINAL", r.stdout[-300:], r.stderr[-800:]); continue
            ok = True
            for path, old, new in b["edits"]:
                p = f"{SCR}/repo/{path}"
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "TEXT FOUND", s.count(old), "TIMES", old[:80]); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = sh("git diff", cwd=SCR + "/repo").stdout
            r = demo(tmp)
            if not r.returncode:
                print(b["id"], "DEMO PASSES WITH THE CHANGE"); continue
            print(b["id"], "demo:", (r.stderr.strip().splitlines() or [""])[-1][:150], flush=True)
            orig = set(sh(f"git show {base}:" + b["edits"][0][0], cwd=SCR + "/repo").stdout.splitlines())
            own = [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:] not in orig]
            if own and len(b["edits"]) == 1:
                print(b["id"], "CHANGES OWN LINES", own)
                continue
            if os.environ.get("NOTEST"):
                continue
            t = sh(f"bash {SCR}/test.sh {SCR}/out.json")
            o = json.load(open(SCR + "/out.json"))
            bad = sorted(STABLE - set(o["passed"]))
            if bad:
                print(b["id"], "TESTS FAIL", bad[:5]); continue
            os.makedirs(dst)
            for x in ("demo.py", "demo.sh"):
                shutil.copy(f"{tmp}/{x}", dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            print(b["id"], "KEPT", flush=True)
    shutil.rmtree(SCR, ignore_errors=True)


main()
