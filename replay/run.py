#!/usr/bin/env python3
"""Build the harness of a property from /repo's current sources and run it: run.py ID SEED SECONDS"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from cv import props
pid, seed, secs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 10
tmp = tempfile.mkdtemp(prefix='cv-run-', dir='/tmp')
try:
    s, t = check.Harness(props.PROPS[pid]['harness'], tmp).run(pid, seed, secs)
    print(t); print(s)
finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(0 if s == 'ok' else 1)
