#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vx import run
    mod = importlib.import_module('props.' + pid.lower())
    c = run.Check(pid, tier, seed)
    try:
        rc = mod.check(c)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.exit(rc)
main()
