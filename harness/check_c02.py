"""Edit histories dominated by re-indexing of snapshots, periods and weightings."""
import random
import check_c01
from histories import Editor

KINDS = ["snapshots"] * 5 + ["periods"] * 4 + ["weights"] * 2 + ["pweights"] * 2 + ["add", "set", "remove"]
CLASSES = ["Bus", "Generator", "Load", "Line", "Link", "Store", "StorageUnit"]


def history(job):
    seed, i, length = job
    r = random.Random("%s/%s" % (seed, i))
    e = Editor(r, classes=CLASSES)
    if r.random() < 0.7:
        e.op_snapshots()
    for _ in range(r.randint(2, 7)):
        e.op_add()
    for _ in range(length):
        e.step(KINDS)
    return e.event()


def run(ctx):
    check_c01.design(ctx)
    check_c01.explore(ctx, history)
