"""setup_cmd: nothing is compiled; checks that the interpreter, Hypothesis and bmi are usable."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402

bmi = boot.import_bmi()
import hypothesis  # noqa: E402
import numpy  # noqa: E402

assert numpy.__file__.startswith(sys.prefix), numpy.__file__
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "bmi", bmi.__file__)
