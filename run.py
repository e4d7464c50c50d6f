#!/usr/bin/env python3
"""run.py <property> [--replay FILE | --suite NAME]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import engine
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        m = importlib.import_module("checks." + pid.lower().replace("-", "_"))
        rc = engine.main(pid, m.SUITES, m.build, m.RULE, getattr(m, "ASSUMPTIONS", ()), argv=sys.argv[2:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
