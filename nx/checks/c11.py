"""C11: a request's answers do not depend on earlier requests.

Every request of a random history (one process, as in the server) is answered a second time by a process that has answered
nothing before; the two answer sets must agree.  Histories mix puzzle types, options, refused, damaged, failing and timed-out
requests, and come back to the same board.  The offered metadata must also be the same before and after.
"""

import hashlib
import json
import os
import random
import signal

from nx import engine, facts
from nx.check import Check
from nx.checks.exact import focus
from nx.specs import load_all

LIMIT = 140


def answer(req):
    """answer one request; returns a JSON-able outcome"""
    nx = engine.load()
    cfg = nx["Config"]
    solver, url, params, tl = req["solver"], req["url"], json.loads(json.dumps(req["params"])), req.get("time_limit", 25)
    cfg.max_solutions_to_find, cfg.time_limit = LIMIT, tl
    before = json.dumps(params, sort_keys=True)
    try:
        us = nx["run_solver"](solver, url, params)["url"]
        if len(us) >= LIMIT:
            out = ["many"]
        else:
            h = sorted(hashlib.sha1(repr(sorted(facts.facts(u, hashi=solver == "hashi"), key=repr)).encode()).hexdigest()[:12] for u in us)
            out = ["answers", h]
    except TimeoutError:
        out = ["timeout"]
    except ValueError as e:
        out = ["refused", str(e)]
    except Exception as e:
        out = ["error", type(e).__name__]
    if json.dumps(params, sort_keys=True) != before:
        out.append("the request's own options were changed to %r" % params)
    return out


def in_child(fn):
    """run fn in a forked copy of this process, which has loaded the solvers but never solved anything"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(100)
        try:
            data = json.dumps(fn())
        except BaseException as e:
            data = json.dumps({"crash": repr(e)})
        with os.fdopen(w, "w") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"crash": "no answer"}


def requests_of(s, rng, n):
    from nx.spec import Retry
    out = []
    for k in range(n * 16 + 8):
        if len(out) == n:
            break
        try:
            case = s.make(rng, oracle=None if k < n * 4 else engine.answers)
            if case.accept is not None and case.secret is None:
                continue
            if case.accept is None:
                s.trim(case, rng)
        except Retry:
            continue
        except Exception:
            continue
        nx = engine.load()
        params = {k: v["default"] for k, v in nx["manager"].modules[s.solver].parameters.items()}
        params.update(case.params)
        out.append({"solver": s.solver, "url": case.board.url(), "params": params})
    return out


def spoil(req, rng):
    """a request that does not end with answers"""
    q = json.loads(json.dumps(req))
    t = rng.randrange(6)
    if t == 0:
        q["url"] = q["url"][:rng.randint(0, len(q["url"]) - 1)]
    elif t == 1:
        q["params"] = {k: rng.choice(["x", -1, None, [], "99999"]) for k in q["params"]}
    elif t == 2:
        q["solver"] = rng.choice(["unknown", "", q["solver"] + "x"])
    elif t == 3:
        q["time_limit"] = 0
    elif t == 4:
        q["params"] = {}
    else:
        from nx.penpa import parse
        try:
            b = parse(q["url"])
            b.num(rng.randrange(b.rows), rng.randrange(b.cols), rng.choice(["$", "ab", -5]), cat=rng.randrange(4), sub=rng.choice(["1", "4"]))
            q["url"] = b.url()
        except Exception:
            pass
    return q


def late(req, rng):
    """the same board with one more element that most puzzle types refuse when they come to it, after all the good ones"""
    from nx.penpa import parse
    q = json.loads(json.dumps(req))
    try:
        b = parse(q["url"])
        r, c = rng.randrange(b.rows), rng.randrange(b.cols)
        for t in rng.sample(range(4), 2):
            if t == 0:
                b.num(r, c, rng.choice(["1", "5", "?"]), cat=rng.choice([1, 2, 3]))
            elif t == 1:
                b.num(r, c, rng.choice(["Q", "12x", "!", "1_9", "_"]))
            elif t == 2:
                b.sym(r, c, rng.choice(["star", "nothing", "circle_M"]), rng.choice([77, 9]), cat=rng.choice([0, 1, 2]))
            else:
                b.surf(r, c, rng.choice([2, 4]))
        q["url"] = b.url()
    except Exception:
        pass
    return q


def one(names, seed, k, length):
    rng = random.Random("c11/%s/%s/%d" % ("+".join(names), seed, k))
    specs = load_all()
    pool = []
    for n in names:
        pool += requests_of(specs[n], rng, 3)
    if len(names) <= 3:
        ex = [e for e in facts.examples() if e[0] in {specs[n].solver for n in names} and e[0] not in ("anglers", "symmarea")]
        for solver, i, url, cfg in ex[:2]:
            p = {a: v["default"] for a, v in engine.load()["manager"].modules[solver].parameters.items()}
            p.update(cfg)
            pool.append({"solver": solver, "url": url, "params": p})
    if not pool:
        return "none", {}
    good = list(pool)
    for r in rng.sample(pool, max(1, len(pool) // 3)):
        pool.append(spoil(r, rng))
    hist = [rng.choice(pool) for _ in range(length)]
    if len(names) <= 3:
        # a request between two spoiled copies of itself, and another one right after
        a, b = rng.choice(good), rng.choice(good)
        hist = [a, late(a, rng), a, b, late(b, rng), late(a, rng), b, a] + hist[:max(0, length - 8)]
    hist += hist[:2]
    meta = engine.load()["manager"].list_solver_metadata

    def run_history():
        m0 = json.dumps(meta(), sort_keys=True)
        out = [answer(r) for r in hist]
        if json.dumps(meta(), sort_keys=True) != m0:
            out.append(["metadata changed"])
        return out
    got = in_child(run_history)
    if isinstance(got, dict):
        return "none", {"why": got["crash"]}
    ref = {}
    for i, r in enumerate(hist):
        key = json.dumps(r, sort_keys=True)
        if key not in ref:
            ref[key] = in_child(lambda: answer(r))
        if isinstance(ref[key], dict):
            return "none", {"why": ref[key]["crash"]}
        if "many" in (ref[key][0], got[i][0]) and "timeout" not in (ref[key][0], got[i][0]) and ref[key][0] == got[i][0]:
            continue
        if "timeout" in (ref[key][0], got[i][0]) and r.get("time_limit", 25) > 0:
            continue
        if ref[key] != got[i]:
            if ref[key][0] == got[i][0] == "refused":
                continue                        # the wording may name any of several faults
            def short(x):
                return "%s %d" % (x[0], len(x[1])) if x[0] == "answers" else str(x)[:150]
            return "bad", {"why": "request %d of a history (%s) gives %s after %d earlier requests and %s in a fresh process" % (
                i + 1, r["solver"], short(got[i]), i, short(ref[key])), "history": hist[:i + 1]}
    if len(got) > len(hist):
        return "bad", {"why": "the offered metadata changed during the history", "history": hist}
    kinds = {}
    for g in got:
        kinds[g[0]] = kinds.get(g[0], 0) + 1
    return "ok", {"requests": len(hist), "distinct": len(ref), "kinds": kinds, "links": [r["url"] for r in hist[:3]]}


def batch(names, seed, first, count, length):
    out = {"n": 0, "bad": [], "none": 0, "kinds": {}, "distinct": 0, "sample": None, "requests": 0}
    for k in range(first, first + count):
        st, info = one(names, seed, k, length)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        out["requests"] += info["requests"]
        out["distinct"] += info["distinct"]
        for a, v in info["kinds"].items():
            out["kinds"][a] = out["kinds"].get(a, 0) + v
        if out["sample"] is None:
            out["sample"] = {"outcomes": info["kinds"], "first_links": info["links"]}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    hot, _ = focus(engine.REPO)
    q = chk.quick
    by = {}
    for n, s in specs.items():
        by.setdefault(s.solver, []).append(n)
    jobs = []

    def add(names, first, count, length):
        jobs.append({"mod": "nx.checks.c11", "fn": "batch", "args": {"names": names, "seed": chk.seed, "first": first, "count": count, "length": length}})
    order = random.Random("c11/%s" % chk.seed)
    # a process started anew for every batch: what an earlier batch left behind cannot hide anything, since it never solves itself
    solvers = sorted(by, key=lambda x: (x not in hot, x))
    rounds = 1 if q else 14
    for k in range(rounds):
        for sv in solvers:
            add(sorted(by[sv]), k * 10, 3 if sv in hot else 1, 12 if q else 30)
    for k in range(14 if q else 300):
        add(order.sample(sorted(specs), 12), 1000 + k, 1, 40 if q else 120)
    for k in range(30 if q else 600):
        add(order.sample(sorted(specs), 3), 2000 + k, 1, 14)
    kinds, bad, none, reqs, per = {}, [], 0, 0, {}
    for job, res in chk.pool().run(jobs, chk.t0 + (60 if q else 800), limit=200):
        a = job["args"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % ("+".join(a["names"][:3]), res.get("lost") or res["crash"][-300:]))
            continue
        reqs += res["requests"]
        chk.distinct += res["distinct"]
        none += res["none"]
        chk.evals += res["n"]
        for n in a["names"]:
            per[specs[n].solver] = per.get(specs[n].solver, 0) + res["n"]
        for k, v in res["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], rule_sets=a["names"][:4]))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:8]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate(b["why"], dict(b, job=job["args"]), key=b["history"][-1]["solver"])
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["names"][:3])
    chk.rule = ("histories of requests in one process against the same requests each in a process that never answered before; "
                "distinct = requests answered both ways")
    chk.extra = {"requests": reqs, "outcomes": kinds, "histories_without_use": none,
                 "solvers_not_reached": sorted(set(by) - set(k for k, v in per.items() if v))}
    chk.assumptions = ["a forked copy of a process that has loaded the solvers but never solved is as good as a fresh server"]
    chk.finish()
