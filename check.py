#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)

from sa.run import main

if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    m = importlib.import_module('props.' + pid.lower())
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(pid, m.check, tier, getattr(m, 'LEVEL', 'other'))))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
