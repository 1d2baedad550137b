#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys
VT = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('VERIF_VT'):
    os.environ['VERIF_VT'] = '1'
    os.execv(VT, [VT] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'irvc'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.dont_write_bytecode = True
import importlib
import suite
if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    sys.stdout.flush()
    rc = suite.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
