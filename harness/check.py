#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (exit 0 / 1 + VIOLATION line / 2 machinery)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    mod = importlib.import_module('checks.' + prop)
    ck = lib.Check(prop)
    try:
        mod.run(ck)
        return ck.finish()
    except lib.Machinery as e:
        if ck.violations:      # a violation already established stands
            return ck.finish()
        print(f'ERROR property={prop} {e}')
        ck.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        ck.cleanup()
        return 2

if __name__ == '__main__':
    sys.exit(main())
