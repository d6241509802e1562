#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]  run the check of one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE         execute a replay file
check.py determinism [N]     run N seeds of every property twice, compare event logs
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sim import runner

    cmd = sys.argv[1]
    if cmd == "replay":
        return runner.replay(sys.argv[2])
    if cmd == "determinism":
        from sim import determinism

        return determinism.main(sys.argv[2:])
    if cmd == "setup":
        return runner.setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.Check(cmd.upper(), tier if tier in ("quick", "thorough") else "quick", seed).run()


if __name__ == "__main__":
    sys.exit(main())
