#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl: the known findings of tools/findings.py plus one
entry per fix: commit of /repo (what each repaired is in FIXED below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("adjacency_matrix must count the active", "C07", "adjacency_matrix misread the activity of branch components"),
 ("inactive branches must not form cycles", "C15", "cycles were built over inactive branches, constraining active flows"),
 ("the first link with a new port", "C11", "the first link added with a new port got no defaults for that port"),
 ("a spill cost without any inflow", "C18", "create_model raised for a spill cost without inflow"),
 ("standing losses apply to the initial", "C12", "the initial storage level suffered no standing loss in the first snapshot"),
 ("read the state of a unit before the optimised", "C13", "status before the optimised snapshots ignored unless min up/down times were set; history cut"),
 ("time-dependent ramp limits must apply to committable", "C14", "time-dependent ramp limits of committable units were not applied"),
 ("ramp limits of one bind", "C14", "ramp limits of 1 were dropped although they bind for units that start, stop or absorb power"),
 ("technology capacity limits without an investment period", "C17", "technology capacity limits without a period were silently not applied"),
 ("technology capacity limits may mix", "C17", "technology capacity limits with and without a bus could not be mixed"),
 ("storage out of service must not enter", "C17", "out-of-service storage entered primary-energy and operational limits"),
 ("skip operational limits of investment periods", "C17", "operational limits of periods not optimised raised an error"),
 ("the growth limit must count capacity only", "C17", "the growth limit counted capacity in every active period"),
 ("expansion cost limits with multi-indexed snapshots", "C17", "expansion cost limits raised NameError with multi-indexed snapshots"),
 ("technology capacity limits per bus must align", "C17", "technology capacity limits per bus dropped components at other buses"),
 ("the growth limit must align the carriers", "C17", "the growth limit dropped carriers of other components"),
 ("add the losses of all passive branches", "C16", "losses were added to lines only, for all snapshots, failing for snapshot selections and periods"),
 ("networks without sub-networks must not break", "C21", "post-processing failed for networks without sub-networks"),
 ("global constraints without a bus are consistent", "C17", "optimise refused global constraints without a bus when another had one"),
 ("start-up and shut-down costs of opposite sign", "C18", "start-up costs summing to zero were dropped from the objective"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
kf = os.path.join(V, "tools", "findings.jsonl")
if os.path.exists(kf):
    out += [json.loads(l) for l in open(kf) if l.strip()]
ns = {}
extra = os.path.join(V, "tools", "fixed_more.py")
if os.path.exists(extra):
    exec(open(extra).read(), ns)
done = set()
for key, prop, what in FIXED + ns.get("MORE", []):
    c = [l for l in log if ("fix: " + key) in l]
    if len(c) != 1:
        print("no unique commit for", key, len(c)); continue
    h = c[0].split()[0]
    done.add(h)
    out.append(dict(property=prop, status="fixed", commit=h, entry="fixed: property=%s %s %s" % (prop, h, what)))
for l in log:
    if " fix: " in l and l.split()[0] not in done:
        print("unrecorded", l)
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
