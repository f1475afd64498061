"""C01-C06: the fillings the solver returns are exactly the permitted ones, on randomly drawn boards."""

import hashlib
import json
import os
import random
import time

from nx.check import Check
from nx.pool import HERE, Pool

BASE = os.path.join(HERE, "baseline_hashes.json")


def batch(name, seed, first, count):
    """worker side: cases first .. first+count-1 of a rule set"""
    from nx import engine
    from nx.specs import load_all
    spec = load_all()[name]
    out = {"n": 0, "nontrivial": 0, "expected": 0, "bad": [], "inc": [], "hashes": [], "kinds": {}, "sample": None,
           "empty": 0}
    t0 = time.time()
    for k in range(first, first + count):
        rng = random.Random("%s/%s/%d" % (seed, name, k))
        st, info, case = engine.one(spec, rng)
        if st == "inconclusive":
            out["inc"].append("%s: %s" % (name, info.get("why")))
            continue
        out["n"] += 1
        n = len(case.expected or ()) if case is not None else 0
        if case is not None:
            out["kinds"][case.kind] = out["kinds"].get(case.kind, 0) + 1
            url = case.board.url()
            if n:
                out["nontrivial"] += 1
                out["expected"] += n
                out["hashes"].append(hashlib.md5((url + repr(case.params)).encode()).hexdigest()[:12])
            else:
                out["empty"] += 1
            if out["sample"] is None and n > 1 and st == "ok":
                s = sorted(case.expected, key=repr)[0]
                out["sample"] = {"puzzle": spec.solver, "params": case.params, "size": [case.G.R, case.G.C], "url": url,
                                 "permitted_fillings": n, "returned": info.get("got"), "one_of_them": spec.show(case, s)}
        if st == "violation":
            info.update(name=name, seed=seed, k=k)
            out["bad"].append(info)
            if len(out["bad"]) >= 3:
                break
        if time.time() - t0 > 40:
            break
    return out


def fingerprint(repo):
    """content hashes of the solver and rule files, only used to decide where to look longest"""
    out = {}
    for d in ("solver", "noqx", "noqx/puzzle", "noqx/rule"):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if f.endswith(".py"):
                with open(os.path.join(p, f), "rb") as h:
                    out[d + "/" + f] = hashlib.sha256(h.read()).hexdigest()[:16]
    return out


def focus(repo):
    """names of solvers whose file differs from the one this was developed against"""
    try:
        with open(BASE, encoding="utf-8") as f:
            base = json.load(f)
    except OSError:
        return set(), set()
    now = fingerprint(repo)
    ch = {f for f in set(base) | set(now) if base.get(f) != now.get(f)}
    return ({os.path.basename(f)[:-3] for f in ch if f.startswith("solver/")},
            {f for f in ch if not f.startswith("solver/")})


def attention(quick):
    """(solvers that differ, how many times the usual boards for these, the same for every type, seconds on top)"""
    from nx import engine
    hot, libs = focus(engine.REPO)
    if not quick:
        return hot, 4, 1, 0
    return hot, 16, 3 if libs else 1, min(120, 40 * len(hot)) if not libs else 150


def run(pid, family):
    from nx import engine
    from nx.specs import load_all
    chk = Check(pid)
    specs = {n: s for n, s in load_all().items() if s.family == family}
    changed, libs = focus(engine.REPO)
    hot = sorted(n for n, s in specs.items() if s.solver in changed)
    wall = 75 if chk.quick else 780
    per = 160 if chk.quick else 2500
    most = 1500 if chk.quick else 4000      # cases for each type whose file differs from the one developed against
    if hot and chk.quick:
        wall = 75 + min(120, 60 * len(hot))
    if libs and chk.quick:
        per, wall = 500, 220
    size = 20 if chk.quick else 50
    names = sorted(specs)
    order = random.Random(chk.seed)

    def jobs():
        for n in sorted(names, key=lambda n: n not in hot):      # every type once, before anything else
            yield mk(n, 0)
        for k in range(size, most, size):      # files that differ from the ones developed against get looked at longer
            for n in hot:
                yield mk(n, k // size * step(n))
        for k in range(size, per, size):
            ns = [n for n in names if n not in hot or k >= most]
            order.shuffle(ns)
            for n in ns:
                if k < per * max(1, specs[n].weight):
                    yield mk(n, k // size * step(n))

    def mk(n, k):
        return {"mod": "nx.checks.exact", "fn": "batch", "args": {"name": n, "seed": chk.seed, "first": k, "count": step(n)}}

    def step(n):
        return max(4, int(size * min(1, specs[n].weight)))

    seen, per_name, kinds, bad = set(), {}, {}, []
    exp = empty = 0
    pool = chk.pool()
    stop = {}
    for job, res in pool.run((j for j in jobs() if stop.get(j["args"]["name"], 0) < 2), chk.t0 + wall, limit=150):
        n = job["args"]["name"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % (n, res.get("lost") or res["crash"][-300:]))
            stop[n] = stop.get(n, 0) + 1
            continue
        chk.evals += res["n"]
        per_name[n] = per_name.get(n, 0) + res["n"]
        exp += res["expected"]
        empty += res["empty"]
        seen.update(res["hashes"])
        for k, v in res["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        chk.inconclusive += res["inc"]
        if res["sample"] and n not in [s.get("rule_set") for s in chk.samples]:
            res["sample"]["rule_set"] = n
            chk.sample(res["sample"], 8)
        for b in res["bad"]:
            bad.append((job, b))
            stop[n] = 9
    # every alarm is reproduced in a fresh process before it is raised
    for job, b in bad[:12]:
        fresh = Pool(1)
        a = dict(job["args"], count=b["k"] - job["args"]["first"] + 1)
        ok = False
        for _ in range(3):
            for _, res in fresh.run([dict(job, args=a)], time.time() + 100, limit=100):
                ok = ok or any(x["k"] == b["k"] for x in res.get("bad", ()))
            if ok:
                break
        fresh.close()
        if ok:
            chk.violate("%s: %s; missing %s extra %s" % (b["name"], b.get("why"), b.get("missing"), b.get("extra")), b,
                        key=b["name"])
        else:
            chk.inconclusive.append("%s: alarm not reproduced in a fresh process" % b["name"])
    chk.distinct = len(seen)
    chk.rule = ("random boards drawn in the editor's format (solution first, then a random part of its clues, a quarter "
                "with one clue altered, optional user marks and margins); all fillings permitted by the published rules are "
                "enumerated independently and compared, as sets, with everything the solver returns; a case is non-trivial "
                "when at least one filling is permitted, and distinct by board text and options")
    unreached = sorted(n for n in names if not per_name.get(n))
    chk.extra = {"rule_sets": len(names), "cases_per_rule_set": per_name, "rule_sets_not_reached": unreached,
                 "permitted_fillings_compared": exp, "boards_without_filling": empty, "case_kinds": kinds,
                 "extra_attention": hot}
    chk.assumptions = ["the reference rules in nx/specs are the published rules of each puzzle type, as the repository's own "
                       "examples use them", "boards of at most about 20 cells are decided completely; larger ones only on a "
                       "window of 9 undetermined cells"]
    if unreached:
        print("%s: inconclusive, nothing observed for %s" % (pid, ", ".join(unreached)))
    if len(unreached) > len(names) // 4 and not chk.violations:
        chk.evals = 0
    chk.finish()
