"""python3 replay.py evidence/replay/<id>/<file>.json: runs a recorded counterexample against the current tree."""
import os
import sys
os.execv(sys.executable, [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'run_check.py'), '--replay', sys.argv[1]])
