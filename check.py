#!/opt/venv/bin/python
"""Run the check of one property:  check.py C05 [--tier quick|thorough]
[--seed N] [--jobs N] [--limit N] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mon import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
