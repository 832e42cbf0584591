"""Edit histories of component tables."""
import random
import vlib
from histories import Editor, perform

KINDS = ["add"] * 5 + ["remove", "rename", "rename", "snapshots", "set"]


def history(job):
    seed, i, length = job
    r = random.Random("%s/%s" % (seed, i))
    e = Editor(r)
    for _ in range(r.randint(0, 2)):
        e.op_snapshots()
    for _ in range(length):
        e.step(KINDS)
    return e.event()


def replayed(job):
    """A behaviour of spec/ContainerDesign.tla, carried out on a real network."""
    seed, i, ops = job
    r = random.Random("%s/%s" % (seed, i))
    e = Editor(r)
    for op in ops:
        perform(e, op, r)
    return e.event()


FEW = "SPECIFICATION Spec\nCONSTANTS MaxLen=%d Emit=%s Rich=%s\nCONSTANT StaticDefaults <- FewAttributes\nCHECK_DEADLOCK FALSE\n"


def design(ctx):
    """The state machine itself: exhaustively to a small depth, and simulated behaviours for the real code."""
    if ctx.prop == "C01":
        ctx.mc("ContainerDesign", FEW % (ctx.n(2, 3), "FALSE", "FALSE") + "VIEW View\nCONSTRAINT Short\nINVARIANTS Sane AddRemove ThereAndBack Keeps WiderAndBack Repeats\nPROPERTIES Frame\n", timeout=600)
    k = ctx.n(10, 16)
    got, gen = vlib.simulate("ContainerDesign", FEW % (k, "TRUE", "TRUE") + "INVARIANTS Sane Out\n", ctx.n(120, 1500), k + 2, ctx.seed, timeout=600)
    ctx.add_states(gen, gen)
    behaviours = list({str(b[:-1]): b for b in got}.values())
    jobs = [("%s/%d/design" % (ctx.prop, ctx.seed), i, b) for i, b in enumerate(behaviours)]
    evs = [e for e in ctx.run(replayed, jobs, label="behaviour of ContainerDesign") if e is not None]
    ctx.judge("Container", evs, cases=[[s["op"] for s in e["steps"]] for e in evs], op="HistoryFails", label="behaviour of ContainerDesign")
    ctx.cov["simulated behaviours replayed"] = len(evs)


def run(ctx):
    design(ctx)
    explore(ctx, history)


def explore(ctx, history):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 10 if i % 4 else 25) for i in range(ctx.n(240, 400))]
        evs = [e for e in ctx.run(history, jobs, label="edit history") if e is not None]
        ctx.judge("Container", evs, cases=[[s["op"] for s in e["steps"]] for e in evs], op="HistoryFails", label="edit history")
        for e in evs:
            for s in e["steps"]:
                d = ctx.cov.setdefault("operations", {})
                key = s["op"]["kind"] + (" refused" if s["out"] == "refused" else "")
                d[key] = d.get(key, 0) + 1
        k += 1
    ctx.samples.append(evs[0]["steps"][:2])
