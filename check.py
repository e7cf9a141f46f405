#!/usr/bin/env python3
"""usage: check.py <property-id> [quick|thorough]"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import harness
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = harness.Ctx(prop, tier if tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        importlib.import_module(prop).run(c)
    except harness.Broken as e:
        c.broken(str(e))
    except Exception:
        c.broken('internal error\n' + traceback.format_exc())
    return c.finish()
sys.exit(main())
