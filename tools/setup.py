"""setup_cmd: nothing to build; checks that the tools the checks use are there"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nx.pool import PY

subprocess.run([PY, "-c", "import clingo, starlette; print('clingo', clingo.__version__)"], check=True)
subprocess.run(["node", "--version"], check=False)
