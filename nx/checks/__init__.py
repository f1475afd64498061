import importlib

FAMILY = {"C01": "shade", "C02": "loop", "C03": "region", "C04": "num", "C05": "var", "C06": "option"}


def run(pid):
    if pid in FAMILY:
        from nx.checks import exact
        exact.run(pid, FAMILY[pid])
    else:
        importlib.import_module("nx.checks." + pid.lower()).run(pid)
