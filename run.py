#!/usr/bin/env python3
"""run.py <property id> [--thorough]: decide one property on the current source of /repo"""
import os, sys, threading, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)
def go():
    from engine import framework
    global rc
    try:
        rc = framework.main(sys.argv)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
rc = 2
threading.stack_size(1024 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc)
