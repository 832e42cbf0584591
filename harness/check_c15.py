from optcheck import standard


def run(ctx):
    # existence of angles = every cycle sums to zero; injections determine the flows
    for size in [(3, 3, 2, 2)] + ([] if ctx.quick else [(4, 4, 2, 1)]):
        ctx.mc("GridDesign", "SPECIFICATION Spec\nCONSTANTS NB=%d MaxE=%d MaxF=%d MaxX=%d\nINVARIANTS Angular Cyclic Unique Radial\nCHECK_DEADLOCK FALSE\n" % size, override=True, timeout=600)
    standard(ctx, "kvl", kinds=["dc"])
