"""Entry point: run.py --property C03 --tier quick [--replay FILE]"""

import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if os.environ.get("PYTHONHASHSEED") is None:
    # hash order is a source of nondeterminism: the harness owns it
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--property", required=True)
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--only", nargs="*")
    parser.add_argument("--procs", type=int)
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import comb_spec_searcher

    where = os.path.abspath(comb_spec_searcher.__file__)
    assert where.startswith(os.path.abspath(REPO) + os.sep), where
    from mc import common

    module = importlib.import_module(f"mc.{args.property.lower()}")
    if args.replay:
        return common.replay(args.property, module, args.replay)
    return common.run_check(
        args.property, module, args.tier, seed, args.only, args.v, args.procs
    )


if __name__ == "__main__":
    sys.exit(main())
