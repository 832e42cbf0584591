"""Options: TLC explores the state machine, and its simulated behaviours are replayed into pypsa.options."""
import contextlib, io, random
import vlib

VALUES = [True, False, 7, None, 0, "", "x", 2.5, [1]]


class Boom(Exception):
    pass


def tree(node, prefix=""):
    from pypsa._options import OptionsNode
    leaves, groups = [], {prefix.rstrip("."): []}
    for name in list(node._children):
        child = node._children[name]
        if isinstance(child, OptionsNode):
            l, g = tree(child, prefix + name + ".")
            leaves += l
            groups.update(g)
        else:
            leaves.append(prefix + name)
    groups[prefix.rstrip(".")] = list(leaves)
    return leaves, groups


def by_attr(options, path):
    x = options
    for p in path.split("."):
        x = getattr(x, p)
    return x


def split(r, path):
    """a path as a node below which the rest is looked up"""
    parts = path.split(".")
    i = r.randint(0, len(parts) - 1)
    return parts[:i], parts[i:]


def walk(options, parts):
    for p in parts:
        options = getattr(options, p)
    return options


def replay(job):
    """job: abstract operations (from TLC or random) -> recorded steps"""
    import pypsa
    seed, ops = job
    r = random.Random(seed)
    options = pypsa.options
    options.reset_all()
    names, groups = tree(options)
    key = lambda v: "%s:%r" % (type(v).__name__, v)
    read = lambda: {n: key(by_attr(options, n)) for n in names}
    ask = lambda: {n: key(options.get_option(n)) for n in names}
    # a translation of the abstract names and values, a fresh one for every behaviour
    real = r.sample(names, min(3, len(names)))
    while len(real) < 3:
        real.append(r.choice(names))
    cats = [g for g in groups if g]
    m = {"a": real[0], "c.b": real[1], "c.d": real[2], "c": r.choice(cats), "z": r.choice(["nope", "params.nope", "params.statistics.nope", "nope.round", real[0] + ".more", "", real[0].split(".")[-1]])}
    vmap = dict(enumerate(r.sample(VALUES, 3)))
    ev = dict(names=names, groups=groups, defaults=read(), start=read(), steps=[])
    open_ = []
    for op in ops:
        op = dict(op)
        out, got, raised = "ok", "", False
        try:
            if "path" in op and op["k"] != "reset":
                op["path"] = m[op["path"]]
            if op["k"] == "set":
                v, op["v"] = vmap[op["v"]], key(vmap[op["v"]])
                how = r.random()
                if how < 0.4:
                    options.set_option(op["path"], v)
                elif how < 0.6:
                    a, b = split(r, op["path"])
                    walk(options, a).set_option(".".join(b), v)
                else:
                    *a, b = op["path"].split(".")
                    node = walk(options, a)
                    if not hasattr(type(node), "_add_option"):
                        raise AttributeError("an option is no category")
                    setattr(node, b, v)
            elif op["k"] == "get":
                how = r.random()
                if how < 0.4:
                    got = options.get_option(op["path"])
                elif how < 0.6:
                    a, b = split(r, op["path"])
                    got = walk(options, a).get_option(".".join(b))
                else:
                    got = by_attr(options, op["path"])
                    if type(got) is type(options):
                        raise AttributeError("a category")
                got = key(got)
            elif op["k"] == "reset":
                g = r.choice(list(groups)) if op["path"] else ""
                op["path"] = g
                walk(options, g.split(".") if g else []).reset_all()
            elif op["k"] == "enter":
                args = [x for p, v in op["pairs"] for x in (m[p], vmap[v])]
                op["pairs"] = [[m[p], key(vmap[v])] for p, v in op["pairs"]]
                c = pypsa.option_context(*args)
                c.__enter__()
                open_.append(c)
            elif op["k"] == "odd":
                c = pypsa.option_context(op["path"], vmap[1], op["path"])
                c.__enter__()
                open_.append(c)
            elif op["k"] == "exit":
                c = open_.pop()
                if op["exc"]:
                    x = Boom("in the context")
                    try:
                        raised = not c.__exit__(Boom, x, None)
                    except Boom as y:
                        raised = y is x
                else:
                    c.__exit__(None, None, None)
        except Exception as x:
            if op["k"] == "exit":
                return dict(ev, steps=ev["steps"] + [dict(op=op, out="refused", vals=read(), got=ask(), read="", raised=True)])
            got = ""
            out = "refused" if isinstance(x, (AttributeError, ValueError)) else type(x).__name__
        if r.random() < 0.1:
            with contextlib.redirect_stdout(io.StringIO()):
                options.describe_options() if r.random() < 0.5 else options.describe()
        ev["steps"].append(dict(op=op, out=out, vals=read(), got=ask(), read=got, raised=raised))
    while open_:
        with contextlib.suppress(Exception):
            open_.pop().__exit__(None, None, None)
    options.reset_all()
    return ev


CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxDepth = %d\n MaxLen = %d\n MaxVal = %d\n Emit = %s\nINVARIANT Type\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.mc("OptionsDesign", CFG % (2, 0, ctx.n(1, 2), "FALSE") + "PROPERTY Restores\nPROPERTY RefusedIsNoop\nPROPERTY ResetAll\nVIEW View\n")
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        sims, gen = vlib.simulate("OptionsDesign", CFG % (4, ctx.n(25, 40), 2, "TRUE") + "INVARIANT Out\n", ctx.n(250, 2000), ctx.n(27, 42), ctx.seed * 1000 + k)
        sims = list({str(o[:-1]): o for o in sims}.values())      # TLC prints every last step of a behaviour
        ctx.cov["behaviours simulated by TLC"] = ctx.cov.get("behaviours simulated by TLC", 0) + len(sims)
        jobs = [("%d/%d/%d" % (ctx.seed, k, i), ops) for i, ops in enumerate(sims)]
        evs = [e for e in ctx.run(replay, jobs, label="options") if e]
        ctx.judge("Options", evs, op="OptionsFails", cases=[[s["op"] for s in e["steps"]] for e in evs], label="options")
        ctx.cov["operations replayed"] = ctx.cov.get("operations replayed", 0) + sum(len(e["steps"]) for e in evs)
        k += 1
    ctx.samples.append(evs[0]["steps"][:5])
