#!/usr/bin/env python3
"""run one property check: run.py <property id>"""
import importlib, os, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(1000000)
threading.stack_size(512 * 1024 * 1024)
rc = [2]


def go():
    try:
        m = importlib.import_module(sys.argv[1].lower())
        m.main()
        rc[0] = 0
    except SystemExit as e:
        rc[0] = e.code if isinstance(e.code, int) else 1
    except BaseException:
        import traceback
        traceback.print_exc()
        rc[0] = 2


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
