#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--replay file]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONUTF8') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mon.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main())
