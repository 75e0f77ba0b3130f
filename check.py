#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mp import report
def main():
    pid = sys.argv[1]
    m = importlib.import_module('rules.' + pid)
    return report.main(pid, m.run, getattr(m, 'LEVEL', 'other'), getattr(m, 'TRUSTED', []) + [
        'clang 18 front end and CFG', 'tool/mpdump.cpp (lowering)', 'mp/*.py (analysis engine)',
        'stubs/yazpp/*.h (declarations of the absent yazpp library)'], m.TECHNIQUE)
if __name__ == '__main__':
    sys.exit(main())
