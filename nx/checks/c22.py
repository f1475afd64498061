"""C22: see nx/checks/rules.py"""

from nx.checks.rules import run  # noqa: F401
