"""rewrite baseline_hashes.json from /repo (development helper)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nx.checks.exact import BASE, fingerprint

json.dump(fingerprint("/repo"), open(BASE, "w"), indent=0, sort_keys=True)
