"""C15: turning or mirroring a board turns or mirrors its answers.

Every board is laid down in other ways (turned, mirrored, with its directions turned along) and solved again; the answers must be
the turned answers.  Boards: the full-size examples of the repository, the same with a clue or a border piece more or less, and
boards of every rule set drawn at random, small and large.
"""

import random

from nx import engine, facts
from nx.check import Check
from nx.checks.c08 import KINDS, place, project
from nx.checks.exact import attention
from nx.penpa import Board, parse
from nx.specs import load_all
from nx.turn import turn, words

SLOW = ("anglers", "symmarea")


def clean(url):
    raw = parse(url)
    b = Board(raw.rows, raw.cols, raw.margin, raw.shape)
    for name in "pa":
        for kind in KINDS:
            b.layers[name][kind] = raw.layers[name].get(kind, {})
    return b


def answers(solver, board, params, limit, tl, word=""):
    """the answers of a board, laid down by `word`, without what the board shows itself"""
    hashi = solver == "hashi"
    given = {place(f) for f in facts.facts_of(turn(board, word, solver), hashi=hashi) if solver != "nondango" or f[4:] != ("circle_M", "4")}
    urls = engine.solve_urls(solver, board.url(), params, limit, tl)
    return urls, {project(turn(clean(u), word, solver).url(), given, hashi) for u in urls}


def compare(solver, board, params, rng, times, limit, tl):
    ws = [w for w in words(solver, board.rows, board.cols) if w]
    try:
        urls, plain = answers(solver, board, params, limit, tl)
    except Exception as e:
        plain, why = None, e
        if isinstance(e, engine.Inconclusive):
            return "none", {}
    if plain is not None and len(urls) >= limit:
        return "none", {}
    used = []
    for w in rng.sample(ws, min(times, len(ws))):
        b = turn(board, w, solver)
        info = {"laid down": w, "url": board.url(), "turned_url": b.url(), "params": params, "size": [board.rows, board.cols]}
        if plain is None:
            try:
                engine.solve_urls(solver, b.url(), params, limit, tl)
            except engine.Inconclusive:
                continue
            except Exception as e:
                if type(e) is type(why):
                    used.append(w)
                    continue
                return "bad", dict(info, why="fails with %s as drawn and with %s when turned" % (type(why).__name__, type(e).__name__))
            return "bad", dict(info, why="fails as drawn (%s: %s), but not when turned" % (type(why).__name__, why))
        try:
            _, got = answers(solver, b, params, limit, tl)
        except engine.Inconclusive:
            continue
        except Exception as e:
            return "bad", dict(info, why="the turned board fails: %s: %s" % (type(e).__name__, e))
        given = {place(f) for f in facts.facts_of(b, hashi=solver == "hashi") if solver != "nondango" or f[4:] != ("circle_M", "4")}
        want = {project(turn(clean(u), w, solver).url(), given, solver == "hashi") for u in urls}
        if got != want:
            return "bad", dict(info, why="%d answers, but %d when turned by %s: %d lost, %d new" % (
                len(want), len(got), w, len(want - got), len(got - want)),
                lost=[sorted(x, key=repr)[:20] for x in list(want - got)[:1]], new=[sorted(x, key=repr)[:20] for x in list(got - want)[:1]])
        used.append(w)
    if not used:
        return "none", {}
    return "ok", {"turns": used, "answers": len(plain or ()), "refused": plain is None, "url": board.url(),
                  "size": (board.rows, board.cols)}


def changed(rng, b):
    """a piece of the drawing more or less"""
    b = b.copy()
    pool = [(lay, kind, k) for lay in "pa" for kind in ("number", "sudoku", "symbol", "edge", "surface") for k in b.layers[lay][kind]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if pool:
            lay, kind, k = pool.pop(rng.randrange(len(pool)))
            del b.layers[lay][kind][k]
    return b


def one_example(j, seed, k):
    solver, i, url, cfg = facts.examples()[j]
    rng = random.Random("c15/example/%s/%d/%d" % (seed, j, k))
    b = clean(url)
    if k % 2:
        return compare(solver, changed(rng, b), cfg, rng, 2, 24, 20)
    return compare(solver, b, cfg, rng, 7 if k else 3, 3, 25)


def one_board(name, seed, k):
    from nx.spec import Retry, Unsound
    s = load_all()[name]
    rng = random.Random("c15/%s/%s/%d" % (name, seed, k))
    for _ in range(8):
        try:
            case = s.make(rng, oracle=engine.answers)
            if case.accept is None:
                s.trim(case, rng)
            if not case.expected and rng.random() < 0.7 and case.accept is None:
                continue
            return compare(s.solver, case.board, case.params, rng, 3, 160 if case.accept is None else 24, 20)
        except (Retry, Unsound, engine.Inconclusive):
            continue
    return "none", {}


def batch(kind, name, seed, first, count):
    out = {"n": 0, "bad": [], "none": 0, "turns": {}, "sample": None, "hit": 0, "big": 0, "oblong": 0, "refused": 0}
    for k in range(first, first + count):
        st, info = {"board": one_board, "example": one_example}[kind](name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        out["hit"] += info["answers"] > 0
        out["refused"] += info["refused"]
        R, C = info["size"]
        out["big"] += R * C >= 64
        out["oblong"] += R != C
        for v in info["turns"]:
            out["turns"][v] = out["turns"].get(v, 0) + 1
        if out["sample"] is None and info["answers"]:
            out["sample"] = {"link": info["url"], "laid down": info["turns"]}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    jobs = []

    def add(kind, name, first, count):
        jobs.append({"mod": "nx.checks.c15", "fn": "batch", "args": {"kind": kind, "name": name, "seed": chk.seed, "first": first, "count": count}})
    ex = facts.examples()
    for k in range(2 if q else 12):
        for j, e in enumerate(ex):
            if not (q and e[0] in SLOW):
                add("example", j, k, 1)
    per, size = (8, 8) if q else (240, 30)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(specs):
            if not specs[n].sound_only and k < per * (times if specs[n].solver in hot else 1) * min(1, specs[n].weight * 2):
                add("board", n, k, max(2, int(size * min(1, specs[n].weight))))
    tot = {"none": 0, "hit": 0, "big": 0, "oblong": 0, "refused": 0}
    kinds, turns, per_name, bad = {}, {}, {}, []
    for job, res in chk.pool().run(jobs, chk.t0 + (85 if q else 800) + extra, limit=200):
        a = job["args"]
        what = a["name"] if a["kind"] == "board" else "%s #%d" % ex[a["name"]][:2]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (a["kind"], what, res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        kinds[a["kind"]] = kinds.get(a["kind"], 0) + res["n"]
        for x in tot:
            tot[x] += res[x]
        s = specs[a["name"]].solver if a["kind"] == "board" else ex[a["name"]][0]
        per_name[s] = per_name.get(s, 0) + res["n"]
        for w, v in res["turns"].items():
            turns[w] = turns.get(w, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], what=what))
        bad += [(job, what, b) for b in res["bad"]]
    for job, what, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad")), limit=200):
            chk.violate("%s: %s" % (what, b["why"]), dict(b, job=job["args"]), key=what)
        else:
            chk.inconclusive.append("%s: not reproduced" % what)
    chk.distinct = tot["hit"]
    chk.rule = ("answers of a board and of the same board turned or mirrored, compared as sets of drawn marks; "
                "non-trivial = a board that has at least one answer")
    chk.extra = {"observations": kinds, "turns": turns, "boards_of_64_cells_or_more": tot["big"], "oblong_boards": tot["oblong"],
                 "refused_both_ways": tot["refused"], "boards_without_use": tot["none"],
                 "types_not_reached": sorted({s.solver for s in specs.values()} - {n for n, v in per_name.items() if v})}
    chk.assumptions = ["aquarium, cojun and stostone have a lower side, the clues of kakuro, tile paint and triplace look right and down; these are only "
                       "mirrored in the one way that keeps this; boxes of a sudoku that are not squares lie"]
    chk.finish()
