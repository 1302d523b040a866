#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property (see DESIGN.md)."""
import os
import sys
import traceback

PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])

ROOT = os.path.dirname(os.path.abspath(__file__))
os.chdir(ROOT)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sim import runner  # noqa: E402

if __name__ == '__main__':
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            sys.exit(runner.main(['replay', sys.argv[1], sys.argv[3]]))
        sys.exit(runner.main(['check', sys.argv[1]]))
    except Exception:
        traceback.print_exc()
        sys.exit(runner.EXIT_ERROR)      # an error of the check, never a verdict
