"""Nothing is built: checks that the interpreter sees the library and the generator package."""
import os
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/repo"]
import numpy, scipy, numba, skimage, lmfit, matplotlib      # noqa: F401,E401
from vlib import hyp                                        # noqa: F401
print("ok: numpy %s, python %s" % (numpy.__version__, sys.version.split()[0]))
