#!/usr/bin/env python
"""check <property id> [--tier quick|thorough] [--seed N]"""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import vlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    vlib.quiet()
    ctx = vlib.Ctx(a.prop, a.tier, a.seed)
    try:
        mod = importlib.import_module("check_" + a.prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
