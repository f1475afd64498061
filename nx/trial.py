"""development helper: python -m nx.trial NAME[,NAME] [cases] [seed]"""
import importlib
import random
import sys
import time

from nx import engine, spec

from nx.specs import load_all
load_all()

names = sys.argv[1].split(",") if sys.argv[1] != "all" else sorted(spec.SPECS)
if names[0].startswith("@"):
    names = sorted(n for n, s in spec.SPECS.items() if s.family == names[0][1:])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
seed = sys.argv[3] if len(sys.argv) > 3 else "0"
verbose = len(sys.argv) > 4
for name in names:
    s = spec.SPECS[name]
    rng = random.Random(name + seed)
    t = time.time()
    cnt, shown, exp, kinds, multi = {}, 0, 0, {}, 0
    worst = dup = 0
    for k in range(n):
        t1 = time.time()
        st, info, case = engine.one(s, rng)
        worst = max(worst, time.time() - t1)
        dup += info.get("dup", 0) > 0
        cnt[st] = cnt.get(st, 0) + 1
        if case is not None:
            kinds[case.kind] = kinds.get(case.kind, 0) + 1
            exp += len(case.expected or ())
            multi += len(case.expected or ()) > 0
        if st != "ok" and shown < (3 if verbose else 1):
            shown += 1
            print("   ", st, info.get("why"), info.get("case", {}).get("size"), info.get("case", {}).get("kind"), info.get("case", {}).get("params"))
            print("      data", info.get("data"))
            print("      missing", info.get("missing"), "extra", info.get("extra"))
            if verbose:
                print(info.get("case", {}).get("url"), info.get("why"))
    print("%-20s %5.1fs worst %.2f %s %s nonempty %d, total expected %d%s" % (name, time.time() - t, worst, cnt, kinds, multi, exp, " DUP %d" % dup if dup else ""), flush=True)
