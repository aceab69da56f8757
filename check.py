#!/usr/bin/env python3
"""check.py <property id>...: decide properties of the current /repo tree"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.build import AnalysisBroken


def main():
    rc = 0
    for p in sys.argv[1:]:
        try:
            m = importlib.import_module("sa.checks." + p.lower())
            r = m.run()
            rc = max(rc, r)
        except AnalysisBroken as e:
            print("%s: analysis error: %s" % (p, str(e)[:2000])); rc = max(rc, 2)
    return rc


sys.exit(main())
