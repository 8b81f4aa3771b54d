#!/usr/bin/env python3
"""python3 check.py <property id> [quick|thorough] [--replay FILE]"""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/lib", V + "/checks"]


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    tier = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid)
    sys.exit(mod.Check(tier, seed).main(replay))


if __name__ == "__main__":
    main()
