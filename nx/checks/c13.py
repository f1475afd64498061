"""C13: the time limit is honoured and never misreported.

A monitor is hooked under the solving library (Control.ground, Control.solve and its callbacks): it records when the search began,
every answer found, and whether the search ended by itself or was broken off.  Boards that need no time, some time and far too much
time are solved under limits around the time they need, with delays injected before, during and after the search and with one or
several threads; the reply and its moment are judged against the recorded time line.
"""

import json
import os
import random
import time

from nx import engine, facts
from nx.check import Check
from nx.penpa import Board
from nx.specs import load_all

SLACK = 3.0


class Line:
    """what the monitor saw of one request"""

    def __init__(self):
        self.ground = self.begin = self.finish = None
        self.models = 0
        self.limit = None
        self.interrupted = self.exhausted = None
        self.delay = {}


LINE = Line()
_hooked = []


def hook():
    if _hooked:
        return
    _hooked.append(1)
    from clingo.control import Control
    ground, solve = Control.ground, Control.solve

    def ground2(self, *a, **k):
        if LINE.delay.get("ground"):
            time.sleep(LINE.delay["ground"])
        out = ground(self, *a, **k)
        LINE.ground = time.perf_counter()
        return out

    def solve2(self, *a, **k):
        line = LINE
        on_model, on_finish = k.get("on_model"), k.get("on_finish")

        def model(m):
            line.models += 1
            if line.delay.get("model"):
                time.sleep(line.delay["model"])
            return on_model(m) if on_model else None

        def finish(res):
            line.finish = time.perf_counter()
            line.interrupted, line.exhausted = res.interrupted, res.exhausted
            return on_finish(res) if on_finish else None
        if len(a) < 5:
            k["on_finish"] = finish
        if len(a) < 2:
            k["on_model"] = model
        line.begin = time.perf_counter()
        return solve(self, *a, **k)
    Control.ground, Control.solve = ground2, solve2


def hook_store():
    from noqx.puzzle.penpa import PenpaPuzzle
    encode = PenpaPuzzle.encode

    def encode2(self, *a, **k):
        if LINE.delay.get("store"):
            time.sleep(LINE.delay["store"])
        return encode(self, *a, **k)
    PenpaPuzzle.encode = encode2


def run_one(req, tl, most, threads, delay):
    """returns (why or None, facts about the run)"""
    global LINE
    nx = engine.load()
    if not _hooked:
        hook()
        hook_store()
    LINE = Line()
    LINE.delay = delay
    cfg = nx["Config"]
    cfg.time_limit, cfg.max_solutions_to_find, cfg.parallel_threads = tl, most, threads
    t0 = time.perf_counter()
    try:
        out = ("answers", len(nx["run_solver"](req["solver"], req["url"], dict(req["params"]))["url"]))
    except TimeoutError as e:
        out = ("timeout", str(e))
    except Exception as e:
        out = ("error", "%s: %s" % (type(e).__name__, e))
    finally:
        t1 = time.perf_counter()
        cfg.time_limit, cfg.max_solutions_to_find, cfg.parallel_threads = 30, 10, 1
    L = LINE
    total = t1 - t0
    d = {"limit": tl, "total": round(total, 3), "models": L.models, "interrupted": L.interrupted, "exhausted": L.exhausted, "reply": out,
         "delay": delay, "threads": threads, "most": most, "search": L.finish and L.begin and round(L.finish - L.begin, 3)}
    if out[0] == "error":
        return "neither answers nor a time-out, but %s" % out[1], d
    if L.begin is None:
        return None, dict(d, unseen=True)
    if L.finish is None:
        return "a reply (%s) was made while the search was still going on" % out[0], d
    complete = not L.interrupted and (L.exhausted or L.models >= most)
    d["complete"] = complete
    if not complete and out[0] == "answers":
        return "the search was broken off after %.2f s of %s s with %d answers, and they were returned as the list" % (L.finish - L.begin, tl, L.models), d
    if complete and out[0] == "answers" and out[1] != L.models:
        return "the search found %d answers, %d were returned" % (L.models, out[1]), d
    if out[0] == "timeout" and total < tl - 0.02:
        return "a time-out after %.2f s, the limit is %s s" % (total, tl), d
    if out[0] == "answers" and L.finish - L.begin > tl + SLACK + delay.get("model", 0):
        return "the search went on for %.2f s, the limit is %s s" % (L.finish - L.begin, tl), d
    late = t1 - max(L.begin, min(L.finish, L.begin + tl))
    allowed = SLACK + delay.get("model", 0) * 2 + (delay.get("store", 0) + 0.05) * (L.models + 1)
    if late > allowed:
        return "the reply came %.2f s after the limit of %s s had passed in the search" % (late, tl), d
    return None, d


# --- boards -----------------------------------------------------------------------------------------------------------------

def hard(rng):
    """boards that need far more than a few seconds"""
    t = rng.randrange(2)
    if t == 0:
        b = Board(17, 17)
        cells = [(1, 1), (4, 12), (9, 3), (15, 15), (8, 8), (12, 5), (3, 6), (14, 9), (6, 15)]
        for (r, c), v in zip(cells, rng.sample(range(7, 16), 9)):
            b.sym(r, c, "circle_L", 1)
            b.num(r, c, str(v))
        return {"solver": "kurotto", "url": b.url(), "params": {}}
    n = rng.choice([10, 11, 12])
    b = Board(n, n)
    for r in range(0, n, 3):
        for c in range(0, n, 3):
            b.num(r, c, str(rng.choice([7, 7, 8])))
    return {"solver": "fillomino", "url": b.url(), "params": {"fast_mode": True}}


def easy(rng, names):
    from nx.checks.c11 import requests_of
    for _ in range(10):
        q = requests_of(load_all()[rng.choice(names)], rng, 1)
        if q:
            return q[0]
    return None


MEDIUM = ["anglers", "symmarea", "statuepark", "ncells", "pentominous", "araf", "fivecells", "heteromino", "numrope", "mochinyoro", "fillomino"]


def medium(rng):
    ex = [e for e in facts.examples() if e[0] in MEDIUM]
    solver, i, url, cfg = rng.choice(ex)
    p = {a: v["default"] for a, v in engine.load()["manager"].modules[solver].parameters.items()}
    p.update(cfg)
    return {"solver": solver, "url": url, "params": p}


def one(seed, k):
    """one board under one set of circumstances; returns (kind, why, facts)"""
    rng = random.Random("c13/%s/%d" % (seed, k))
    kind = ["easy", "easy", "many", "medium", "hard", "easy"][k % 6]
    names = sorted(load_all())
    threads = rng.choice([1, 1, 1, 2, 4])
    delay = {}
    if kind == "easy":
        req, tl, most = easy(rng, names), rng.choice([0.4, 0.8, 1, 2]), rng.choice([1, 2, 10, 40])
        if rng.random() < 0.7:
            delay[rng.choice(["ground", "model", "store"])] = rng.choice([0.02, 0.1, 0.3, tl * 0.6, tl * 1.2])
            delay = {a: min(x, 0.15 if a != "ground" else 2) if most > 10 else x for a, x in delay.items()}
    elif kind == "many":                                 # an early answer is there long before the list is complete
        req, tl, most = easy(rng, names), rng.choice([0.3, 0.6, 1]), rng.choice([10, 30, 60])
        delay["model"] = rng.choice([0.5, 0.8, 1.5]) * tl / rng.choice([1, 2, 3, 5])
    elif kind == "medium":
        req, tl, most = medium(rng), rng.choice([0.02, 0.1, 0.3, 0.6, 1, 2, 4, 15]), rng.choice([1, 2, 10])
    else:
        req, tl, most = hard(rng), rng.choice([0.1, 0.5, 1, 2]), rng.choice([1, 10])
        if rng.random() < 0.3:
            delay["ground"] = tl * 1.2
    if req is None:
        return kind, None, None
    why, d = run_one(req, tl, most, threads, delay)
    d.update(kind=kind, url=req["url"], puzzle=req["solver"], params=req["params"])
    return kind, why, d


def batch(seed, first, count):
    out = {"n": 0, "bad": [], "kinds": {}, "unseen": 0, "sample": None}
    for k in range(first, first + count):
        kind, why, d = one(seed, k)
        if d is None:
            continue
        out["n"] += 1
        out["unseen"] += bool(d.get("unseen"))
        s = "%s: %s, %s" % (kind, "search complete" if d.get("complete") else "search broken off", d["reply"][0])
        out["kinds"][s] = out["kinds"].get(s, 0) + 1
        out["sample"] = d
        if why:
            out["bad"].append(dict(d, why=why, k=k))
            break
    return out


def run(pid):
    chk = Check(pid)
    q = chk.quick
    jobs = [{"mod": "nx.checks.c13", "fn": "batch", "args": {"seed": chk.seed, "first": k, "count": 6}} for k in range(0, 420 if q else 6000, 6)]
    bad, kinds, unseen = [], {}, 0
    for job, res in chk.pool(6).run(jobs, chk.t0 + (70 if q else 780), limit=150):
        if "lost" in res:                                # a request that never came back
            bad.append((job, {"why": "no reply at all: " + res["lost"], "k": job["args"]["first"], "hang": True}))
            continue
        if "crash" in res:
            chk.inconclusive.append(res["crash"][-300:])
            continue
        chk.evals += res["n"]
        unseen += res["unseen"]
        for s, n in res["kinds"].items():
            kinds[s] = kinds.get(s, 0) + n
        if res["sample"]:
            chk.sample(res["sample"])
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:6]:
        n = 6 if b.get("hang") else 1
        j = dict(job, args=dict(job["args"], first=b["k"], count=n))
        if chk.confirm(j, lambda r: bool(r.get("bad")) or "lost" in r, times=4, limit=60):
            chk.violate("%s: %s" % (b.get("puzzle"), b["why"]), dict(b, job=job["args"]), key=str(b.get("puzzle")))
        else:
            chk.inconclusive.append("not reproduced: " + b["why"])
    chk.distinct = sum(n for s, n in kinds.items() if "broken off" in s or "easy" not in s)
    chk.rule = "requests whose reply was judged against the recorded time line of their search; non-trivial = broken off, or not easy"
    chk.extra = {"outcomes": kinds, "requests_whose_search_was_not_seen": unseen}
    chk.assumptions = ["the limit is about the search; preparing the rule program is not interrupted",
                       "soon afterwards means within %s seconds on a loaded machine" % SLACK]
    chk.finish(20)
