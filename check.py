"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
a = ap.parse_args()
try:
    ctx = vlib.Ctx(a.prop, a.tier, a.seed)
    ctx.bin = vlib.build()
    rc = importlib.import_module("checks." + a.prop).check(ctx)
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
