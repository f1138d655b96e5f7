"""Nothing is built: checks that the package and the libraries load."""
import os
import sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/mc-pycache"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402
env.load()
import scipy.optimize  # noqa: E402,F401
print("ok")
