#!/bin/bash
# Nothing to build: the checks import /repo's sources directly. This only
# confirms that the interpreter and Hypothesis are where the checks expect them.
/opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import hypothesis, numpy, scipy; print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)'
