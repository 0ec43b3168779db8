#!/opt/venv/bin/python
"""Nothing to build: the framework is Python.  Shows that it can start."""
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim import native  # noqa: E402
print("extensions in /repo are up to date:", native.built())
rc = subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, scipy, sys; "
                      "print(sys.version)"])
sys.exit(rc)
