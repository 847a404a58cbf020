#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's current sources"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)
import run, table
def go():
    pid = sys.argv[1]
    meta, obs = table.P[pid]
    try: run.main(pid, meta, obs, table.INDEX, sys.argv[2:])
    except SystemExit as e: code.append(e.code)
code = []
t = threading.Thread(target=go); t.start(); t.join()
sys.stdout.flush()
sys.exit(code[0] if code else 2)
