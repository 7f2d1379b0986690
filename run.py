#!/usr/bin/env python3
"""usage: run.py CHECK [quick|thorough] [--replay FILE] [--batches N] [--seed N] [-v]"""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine


def selftest():
    """Nothing is prebuilt (every check builds from /repo): import every check and see that the tools are there."""
    import glob, shutil
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(here + "/checks/c[0-9]*.py")):
        importlib.import_module("checks." + os.path.basename(f)[:-3])
    missing = [t for t in ("gcc", "clang", "as", "ld", "nm", "readelf", "objdump") if not shutil.which(t)]
    print("missing tools: %s" % missing if missing else "ok")
    return 1 if missing else 0


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i] in ("--replay", "--batches", "--seed"):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        elif a[i] == "-v":
            opt["v"] = True
            i += 1
        else:
            pos.append(a[i])
            i += 1
    if "--selftest" in a:
        sys.exit(selftest())
    cid = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    chk = importlib.import_module("checks." + cid.lower()).CHECK
    sys.exit(engine.run_check(chk, tier, seed, opt.get("replay"),
                              int(opt["batches"]) if "batches" in opt else None, opt.get("v", False)))


main()
