"""Setup: nothing to build; checks that a worker starts against /repo."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import runner
pool = runner.Pool(1)
try:
    pool.workers[0].start()
    print("worker started")
finally:
    pool.close()
