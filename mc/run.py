"""Usage: run.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# Run as a file of package mc: do not let this directory shadow anything.
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.dirname(os.path.abspath(__file__))]


def run():
    from mc import core
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = importlib.import_module('mc.props.' + prop.lower())
    return core.main(mod, tier, seed)


if __name__ == '__main__':
    rc = run()
    sys.stdout.flush()
    os._exit(rc)
