from optcheck import standard


def run(ctx):
    ctx.mc("LossDesign", "SPECIFICATION Spec\nCONSTANTS MaxR=%d Steps_=4\nINVARIANTS Physics Symmetric Upward Capped Exact Close NoLoss\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 4), override=True)
    standard(ctx, "loss")
