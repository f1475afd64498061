"""development helper: make a planted bug from edits, and a demonstration from a board on which it shows"""
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import seed  # noqa

DEMO_SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
RUN = '''"""solve recorded boards with the code in the current directory and compare with the known answers"""
import json
import logging
import os
import sys

sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
from noqx import manager
from noqx.clingo import Config, run_solver

manager.load_solvers("solver")
Config.max_solutions_to_find = 300
here = os.path.dirname(os.path.abspath(__file__))
'''
COUNT = RUN + '''
for case in json.load(open(os.path.join(here, "cases.json"))):
    params = {k: v["default"] for k, v in manager.modules[case["puzzle"]].parameters.items()}
    params.update(case["params"])
    got = len(run_solver(case["puzzle"], case["url"], params)["url"])
    if got != case["answers"]:
        print("%s: %d answers instead of %d for %s" % (case["puzzle"], got, case["answers"], case["url"]))
        sys.exit(1)
print("ok")
'''
PROBE = RUN.replace('here = ', 'here0 = ') + '''
out = []
for case in json.load(sys.stdin):
    params = {k: v["default"] for k, v in manager.modules[case["puzzle"]].parameters.items()}
    params.update(case["params"])
    try:
        out.append(len(run_solver(case["puzzle"], case["url"], params)["url"]))
    except Exception as e:
        out.append(repr(e))
print(json.dumps(out))
'''


def probe(repo, cases):
    p = subprocess.run([seed.os.environ.get("PYX", "/opt/venv/bin/python"), "-B", "-c", PROBE.replace("__file__", "'x'")], cwd=repo,
                       input=json.dumps(cases), capture_output=True, text=True)
    return json.loads(p.stdout.strip().split("\n")[-1])


def edit(i, edits):
    d = seed.fresh(i)
    for f, a, b in edits:
        p = os.path.join(d, f)
        s = open(p, encoding="utf-8").read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w", encoding="utf-8").write(s.replace(a, b))
    return d


def boards(spec, n, rs=5):
    os.environ.setdefault("NOQX_REPO", "/repo")
    from nx import engine
    from nx.specs import load_all
    from nx.spec import Retry
    s = load_all()[spec]
    rng = random.Random(rs)
    out = []
    while len(out) < n:
        try:
            c = s.make(rng, oracle=engine.answers)
            if c.accept is None:
                s.trim(c, rng)
            out.append({"puzzle": s.solver, "url": c.board.url(), "params": c.params})
        except Retry:
            pass
        except Exception as e:
            print("skip", repr(e)[:100])
    return out


def plant(i, prop, needs, breaks, edits, spec=None, n=150, cases=None, files=None, keep=2, rs=5):
    d = edit(i, edits)
    out = os.path.join(HERE, "seeded", i)
    os.makedirs(out, exist_ok=True)
    rc, diff = seed.sh("git diff", d)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    if files:
        for name, text in files.items():
            open(os.path.join(out, name), "w").write(text)
    else:
        bs = cases or boards(spec, n, rs)
        a, b = probe("/repo", bs), probe(d, bs)
        diffs = sorted((len(x["url"]), k) for k, x in enumerate(bs) if a[k] != b[k] and isinstance(a[k], int) and a[k] < 300)
        print(i, "boards that differ: %d of %d" % (len(diffs), len(bs)))
        if not diffs:
            return
        cs = [dict(bs[k], answers=a[k]) for _, k in diffs[:keep]]
        json.dump(cs, open(os.path.join(out, "cases.json"), "w"), indent=1)
        open(os.path.join(out, "demo.py"), "w").write(COUNT)
    seed.verify(i)


sys.path.insert(0, "/tmp/w")
