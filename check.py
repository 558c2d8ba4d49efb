#!/usr/bin/env python3
"""python check.py C01 [--tier quick|thorough] [--replay FILE]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':      # set-iteration order of the code under test: pinned
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:])
from mc import rt  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    sys.exit(rt.main(mod, sys.argv[2:]))
