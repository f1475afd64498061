"""C10: at most ten answers, all different, and fewer than ten means all.

The answer list of every request is watched under the shipped limit and under other limits: its length, the distinctness of its
entries (as fillings, not as strings), and, when it is shorter than the limit, its completeness against an independent
enumeration and against the list obtained with a much larger limit.
"""

import random

from nx import engine, facts
from nx.check import Check
from nx.checks.exact import attention
from nx.penpa import View, parse
from nx.specs import load_all

BIG = 60


def solve(s, url, params, limit, threads=1):
    nx = engine.load()
    nx["Config"].parallel_threads = threads
    try:
        return engine.solve_urls(s.solver if hasattr(s, "solver") else s, url, params, limit, 20)
    finally:
        nx["Config"].parallel_threads = 1


def one(name, seed, k):
    from nx.spec import Retry, Unsound
    s = load_all()[name]
    rng = random.Random("c10/%s/%s/%d" % (name, seed, k))
    hashi = s.solver == "hashi"
    for _ in range(10):
        try:
            case = s.make(rng, oracle=engine.answers)
            if case.accept is not None:
                continue
            if len(case.expected) > s.cap:
                if rng.random() < 0.6:
                    continue
            elif len(case.expected) > 25 and rng.random() < 0.7 or not case.expected and rng.random() < 0.5:
                continue                    # few answers say most about completeness
            break
        except (Retry, Unsound, engine.Inconclusive):
            continue
    else:
        return "none", {}
    url, params = case.board.url(), case.params
    info = {"url": url, "params": params, "expected": len(case.expected)}
    try:
        many = solve(s, url, params, BIG)
    except Exception:
        return "none", {}

    def views(us):
        return [s.view(case, View(parse(u))) for u in us]
    V = views(many)
    kept = {v for v in V if isinstance(v, str) or not s.skip(case, v)}
    if len(set(map(repr, V))) < len(V) or len({facts.facts(u, hashi=hashi) for u in many}) < len(many):
        return "bad", dict(info, why="%d answers of which only %d are different fillings" % (len(V), len(set(map(repr, V)))))
    whole = case.expected
    if len(many) < BIG:
        lost = [] if s.sound_only else whole - kept
        if lost:
            return "bad", dict(info, why="%d answers (limit %d) although %d fillings are permitted: %d are missing" % (
                len(many), BIG, len(whole), len(lost)), lost=[s.show(case, x) for x in sorted(lost, key=repr)[:2]])
    limits = [10, rng.choice([1, 2, 3, 5, 7, 11])]
    for lim in limits:
        threads = 4 if k % 8 == 3 and lim == 10 else 1
        try:
            few = solve(s, url, params, lim, threads)
        except Exception as e:
            return "bad", dict(info, why="with a limit of %d: %s: %s" % (lim, type(e).__name__, e))
        W = views(few)
        if len(few) > lim:
            return "bad", dict(info, why="%d answers returned with a limit of %d" % (len(few), lim))
        if len(few) != min(lim, len(many)):
            return "bad", dict(info, why="%d answers returned with a limit of %d and %d with a limit of %d" % (len(few), lim, len(many), BIG))
        if len(set(map(repr, W))) < len(W):
            return "bad", dict(info, why="%d answers (limit %d) of which only %d are different fillings" % (len(W), lim, len(set(map(repr, W)))))
        if len(many) < BIG and not set(map(repr, W)) <= set(map(repr, V)):
            return "bad", dict(info, why="the answers with a limit of %d are not among those with a limit of %d" % (lim, BIG))
    return "ok", {"count": len(many), "url": url}


def one_example(j, seed, k):
    solver, i, url, cfg = facts.examples()[j]
    try:
        us = engine.solve_urls(solver, url, cfg, 10, 25)
    except Exception:
        return "none", {}
    if len(us) != 1:
        return "bad", {"why": "the shipped example %d of %s, which has one answer, gives %d" % (i, solver, len(us)), "url": url, "params": cfg}
    return "ok", {"count": 1, "url": url}


def batch(kind, name, seed, first, count):
    out = {"n": 0, "bad": [], "none": 0, "counts": {}, "sample": None}
    for k in range(first, first + count):
        st, info = (one if kind == "board" else one_example)(name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        c = info["count"]
        b = "0" if c == 0 else "1" if c == 1 else "2-9" if c < 10 else "10" if c == 10 else "11-59" if c < BIG else "60+"
        out["counts"][b] = out["counts"].get(b, 0) + 1
        if out["sample"] is None and 1 < c < 10:
            out["sample"] = {"link": info["url"], "answers": c}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    jobs = []

    def add(kind, name, first, count):
        jobs.append({"mod": "nx.checks.c10", "fn": "batch", "args": {"kind": kind, "name": name, "seed": chk.seed, "first": first, "count": count}})
    for j, e in enumerate(facts.examples()):
        if not (q and e[0] in ("anglers", "symmarea")):
            add("example", j, 0, 1)
    per, size = (24, 12) if q else (700, 50)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(specs):
            if k < per * (times if specs[n].solver in hot else 1) * min(1, specs[n].weight * 2):
                add("board", n, k, max(2, int(size * min(1, specs[n].weight))))
    counts, bad, none, per_name = {}, [], 0, {}
    for job, res in chk.pool().run(jobs, chk.t0 + (75 if q else 800) + extra, limit=150):
        a = job["args"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (a["kind"], a["name"], res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        none += res["none"]
        if a["kind"] == "board":
            per_name[a["name"]] = per_name.get(a["name"], 0) + res["n"]
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], what=str(a["name"])))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s" % (job["args"]["name"], b["why"]), dict(b, job=job["args"]), key=str(job["args"]["name"]))
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["name"])
    chk.distinct = sum(v for k, v in counts.items() if k != "0")
    chk.rule = "answer lists of generated boards and of the shipped examples under several limits; non-trivial = at least one answer"
    chk.extra = {"boards_by_number_of_answers": counts, "boards_without_use": none,
                 "rule_sets_not_reached": sorted(set(specs) - set(n for n, v in per_name.items() if v))}
    chk.assumptions = ["two answers are the same filling when the rule model reads the same abstract filling from both"]
    chk.finish()
