import importlib
import os


def load_all():
    for f in ("shade", "loop", "region", "num", "var"):
        if os.path.exists(os.path.join(os.path.dirname(__file__), f + ".py")):
            importlib.import_module("nx.specs." + f)
    from nx.spec import SPECS
    return SPECS
