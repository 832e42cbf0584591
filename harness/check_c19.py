from optcheck import standard


def run(ctx):
    standard(ctx, "invest")
