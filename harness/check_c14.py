from optcheck import standard


def run(ctx):
    # rules over whole series = a transition system; cutting the horizon anywhere does not matter
    ctx.mc("HorizonDesign", "SPECIFICATION Spec\nCONSTANTS T=%d What=\"unit\"\nINVARIANTS Same Splits\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 3), timeout=600)
    standard(ctx, "ramp", kinds=["window"])
