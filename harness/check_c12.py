from optcheck import standard


def run(ctx):
    # rules over whole series = a transition system; levels are determined, energy is conserved
    ctx.mc("HorizonDesign", "SPECIFICATION Spec\nCONSTANTS T=%d What=\"level\"\nINVARIANTS Same Splits Determined\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 5), timeout=600)
    standard(ctx, "storage", kinds=["periods"])
