#!/opt/venv/bin/python
"""python run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv':
  os.execv(PY, [PY] + sys.argv)
from lib import harness
sys.exit(harness.main(sys.argv[1:]))
