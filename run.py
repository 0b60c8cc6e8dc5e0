#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))

    from vf import boot, core

    name = f"vf.checks.{args.property.lower()}"
    with core.quiet():
        root = None
        if args.property in ("C13",):
            from vf import mirror

            root = mirror.make()
        try:
            boot.install(root)
        except BaseException:
            import traceback

            tb = traceback.format_exc()
            sys.__stderr__.write(tb)
            return 3
        mod = importlib.import_module(name)
    try:
        if args.replay:
            return core.replay(args.property, mod, args.replay)
        return core.run_check(args.property, mod, args.tier, seed)
    finally:
        if root:
            mirror.drop(root)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
