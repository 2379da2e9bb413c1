#!/usr/bin/env python3
"""check.py ID [quick|thorough] : run the check of one property."""
import glob
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    fs = glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", pid.lower() + "_*.py"))
    if len(fs) != 1:
        print("no check for", pid)
        return 3
    mod = importlib.import_module("checks." + os.path.basename(fs[0])[:-3])
    from vlib.build import CompileError
    from vlib.report import Check
    try:
        return mod.main()
    except CompileError as e:
        # the tree builds, but its compiler cannot compile a program every correct compiler accepts
        ck = Check(pid)
        ck.violate("compile", str(e))
        ck.add(states=0, transitions=0, traces_validated_against_impl=0)
        return ck.finish(exhaustive=False)


if __name__ == "__main__":
    sys.exit(main())
