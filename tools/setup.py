"""Nothing has to be built: says whether the interpreter and the program are there."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env  # noqa
import numba
import numpy
import pandas
print("python", sys.version.split()[0], "numpy", numpy.__version__, "numba", numba.__version__, "pandas",
      pandas.__version__, "program at", env.REPO)
