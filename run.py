"""python run.py PROPERTY: run the check of one property (VERIF_SEED, VERIF_TIER)."""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"                     # the interpreter the repository's build uses

if __name__ == "__main__":
    if os.path.exists(PY) and os.environ.get("NX_REEXEC") != "1":
        os.environ.update(NX_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    importlib.import_module("nx.checks").run(sys.argv[1])
