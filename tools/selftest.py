#!/opt/venv/bin/python
"""Setup: nothing has to be built; make sure that all parts are importable."""
import glob
import importlib
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
for path in sorted(glob.glob(os.path.join(VERIF, 'mon', 'checks', 'c*.py'))):
    importlib.import_module('mon.checks.' + os.path.basename(path)[:-3])
print('ok')
