from optcheck import standard


def run(ctx):
    standard(ctx, "glc", kinds=["growth"])
