#!/usr/bin/env python3
"""setup_cmd: checks the tools are there and builds the five standard configurations once."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
import hypothesis, numpy, scipy
from pbt import build as B
B.build(list(B.OFFICIAL), ("so",))
print("ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
