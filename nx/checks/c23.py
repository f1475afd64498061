"""C23: rooms are exactly the areas enclosed by drawn borders.

Three monitors.
 rooms    random sets of borders (mazes, spirals, islands, dangling pieces, frames, crosses, margins, both layers) are decoded and divided
          by the real code; the division is compared with a union-find over an independent reading of the link, several times each,
          because the real code starts from random cells;
 noise    boards of every puzzle type with rooms, and the same boards with drawings that enclose nothing (crosses at sides without a
          border, outer frames, borders in the margin, loose ends where the type reads borders only as room limits), must have the
          same answers;
 hook     while those boards are being solved, every division made inside the real solver is compared with the independent one.
"""

import random
import sys

from nx import engine, facts
from nx.check import Check
from nx.checks.c08 import place, project
from nx.checks.exact import attention
from nx.penpa import Board, View, parse
from nx.specs import load_all

LIMIT = 160
TYPES = """aqre aquarium chocona cocktail cojun country detour dotchi doubleback factors haisu hakoiri hanare heyablock heyawake hinge
juosan kazunori lits magnets mannequin martini meander moonsun nanro news nondango norinori nothing onsen paintarea putteria railpool
ripple shimaguni starbattle stostone sukororoom tilepaint usoone yajilin_regions""".split()
# a loose end is itself something to a person in these types: a border that lines cross, a fold, or a side of a cell
READS_SIDES = {"cocktail", "country", "haisu", "heyablock", "heyawake", "hinge", "martini", "moonsun", "nothing", "onsen", "shimaguni",
               "stostone", "doubleback"}


def division(R, C, tops, lefts):
    """cell -> representative, by union-find"""
    rep = {(r, c): (r, c) for r in range(R) for c in range(C)}

    def find(x):
        while rep[x] != x:
            rep[x] = rep[rep[x]]
            x = rep[x]
        return x
    for r in range(R):
        for c in range(C):
            if r and (r, c) not in tops:
                rep[find((r, c))] = find((r - 1, c))
            if c and (r, c) not in lefts:
                rep[find((r, c))] = find((r, c - 1))
    return {x: find(x) for x in rep}


def as_sets(rep):
    out = {}
    for x, y in rep.items():
        out.setdefault(y, set()).add(x)
    return {frozenset(s) for s in out.values()}


def judge(found, want, R, C, clue_cells):
    """found: what the real code returned ({tuple of cells: clue cell}); None when it is right"""
    seen = {}
    for room, clue in found.items():
        for x in room:
            if x in seen:
                return "cell %s is listed twice" % (x,)
            seen[x] = room
    if set(seen) != {(r, c) for r in range(R) for c in range(C)}:
        return "cells %s are in no room" % sorted({(r, c) for r in range(R) for c in range(C)} ^ set(seen))[:5]
    got = {frozenset(x) for x in found}
    if got != want:
        return "%d rooms instead of %d, for example %s" % (len(got), len(want), sorted(map(sorted, got ^ want))[:2])
    if clue_cells is not None:
        for room, clue in found.items():
            inside = sorted(clue_cells & set(room))
            if (inside or [None])[0] != clue:
                return "the room of %s has the clue at %s, not at %s" % (min(room), inside, clue)
    return None


# --- the division alone -----------------------------------------------------------------------------------------------------

def random_walls(rng, R, C):
    """(tops, lefts) as sets of inner sides"""
    inner = [("t", r, c) for r in range(1, R) for c in range(C)] + [("l", r, c) for r in range(R) for c in range(1, C)]
    style = rng.randrange(7)
    if style == 0:
        p = rng.random()
        pick = {x for x in inner if rng.random() < p}
    elif style == 1:                                     # cells coloured at random: borders between colours
        k = rng.randint(2, 5)
        col = {(r, c): rng.randrange(k) for r in range(R) for c in range(C)}
        pick = {(d, r, c) for d, r, c in inner if col[r, c] != col[(r - 1, c) if d == "t" else (r, c - 1)]}
    elif style == 2:                                     # a maze: one room, as many borders as possible
        rep = {(r, c): (r, c) for r in range(R) for c in range(C)}

        def find(x):
            while rep[x] != x:
                x = rep[x]
            return x
        pick = set(inner)
        rng.shuffle(inner)
        for d, r, c in inner:
            a, b = find((r, c)), find((r - 1, c) if d == "t" else (r, c - 1))
            if a != b:
                rep[a] = b
                pick.discard((d, r, c))
        for x in rng.sample(inner, min(len(inner), rng.randint(0, 6))):
            pick.add(x)
    elif style == 3:                                     # rings
        def ring(r, c):
            return min(r, c, R - 1 - r, C - 1 - c)
        pick = {(d, r, c) for d, r, c in inner if ring(r, c) != ring(*((r - 1, c) if d == "t" else (r, c - 1)))}
        if pick and rng.random() < 0.7:
            pick.discard(rng.choice(sorted(pick)))
    elif style == 4:                                     # stripes with gaps
        pick = {(d, r, c) for d, r, c in inner if (d == "t") == (rng.random() < 0.97)}
        pick = {x for x in pick if rng.random() < 0.95}
    elif style == 5:
        pick = set(inner)
        for x in rng.sample(inner, min(len(inner), rng.randint(0, 5))):
            pick.discard(x)
    else:
        pick = set()
    return {(r, c) for d, r, c in pick if d == "t"}, {(r, c) for d, r, c in pick if d == "l"}


def draw_frame(rng, b, p):
    n = 0
    for r in range(b.rows):
        for c in (0, b.cols):
            if rng.random() < p:
                b.left(r, c, rng.choice("pa"), rng.choice([2, 3, 21]))
                n += 1
    for c in range(b.cols):
        for r in (0, b.rows):
            if rng.random() < p:
                b.top(r, c, rng.choice("pa"), rng.choice([2, 3, 21]))
                n += 1
    return n


def one_rooms(seed, k):
    from inspect import signature
    from noqx.rule.helper import full_bfs
    rng = random.Random("c23/rooms/%s/%d" % (seed, k))
    R, C = rng.choice([(1, 1), (1, rng.randint(1, 12)), (rng.randint(1, 12), 1), (rng.randint(1, 6), rng.randint(1, 6)),
                       (rng.randint(1, 20), rng.randint(1, 20)), (rng.randint(20, 45), rng.randint(20, 45))])
    b = Board(R, C, tuple(rng.choice([0, 0, 0, 1, 3]) for _ in range(4)))
    tops, lefts = random_walls(rng, R, C)
    for r, c in sorted(tops):
        b.top(r, c, rng.choice("ppa"), rng.choice([2, 2, 3, 21]))
    for r, c in sorted(lefts):
        b.left(r, c, rng.choice("ppa"), rng.choice([2, 2, 3, 21]))
    if rng.random() < 0.5:
        draw_frame(rng, b, rng.choice([0.2, 1]))
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, R + C)):
            r, c = rng.randint(0, R), rng.randint(0, C)
            if rng.random() < 0.5 and c < C and (r, c) not in tops and 0 < r < R:
                b.topx(r, c, rng.choice("pa"))
            elif r < R and (r, c) not in lefts and 0 < c < C:
                b.leftx(r, c, rng.choice("pa"))
    if rng.random() < 0.3:
        for _ in range(3):
            b.diag(rng.randrange(R), rng.randrange(C), rng.random() < 0.5)
    rep = division(R, C, tops, lefts)
    want = as_sets(rep)
    clue_cells, many = set(), False
    for s in sorted(map(sorted, want)):
        if rng.random() < 0.5:
            clue_cells.add(rng.choice(s))
    if rng.random() < 0.1:
        s = rng.choice(sorted(map(sorted, want)))
        clue_cells |= set(rng.sample(s, min(len(s), 2)))
        many = any(len(s & clue_cells) > 1 for s in want)
    for r, c in clue_cells:
        b.num(r, c, rng.choice(["0", "5", "?", 3]))
    url = b.url()
    v = View(parse(url))
    R2, C2 = v.rows, v.cols
    assert (R2, C2) == (R, C) and {x for x in v.tops if 0 < x[0] < R and 0 <= x[1] < C} == tops
    puz = engine.load()["manager"].prepare_puzzle("heyawake", url, {})
    try:
        signature(full_bfs).bind(R, C, puz.edge, puz.text)
    except TypeError:
        return "none", {}
    for _ in range(3):
        for with_clues in (False, True):
            try:
                found = full_bfs(puz.row, puz.col, puz.edge, puz.text) if with_clues else full_bfs(puz.row, puz.col, puz.edge)
            except ValueError as e:
                if with_clues and many:
                    continue
                return "bad", {"why": "dividing a %d x %d board fails: %s" % (R, C, e), "url": url}
            if with_clues and many:
                continue                                 # two clues in a room: C11 and C14 have their say
            why = judge(found, want, R, C, clue_cells if with_clues else None)
            if why:
                return "bad", {"why": "%d x %d board: %s" % (R, C, why), "url": url}
    return "ok", {"rooms": len(want), "size": (R, C)}


# --- the hook -----------------------------------------------------------------------------------------------------------------

class Watch:
    """compares every division made inside a solver with the independent one"""

    def __init__(self):
        self.calls = self.rooms = 0
        self.bad = None
        self.want = None
        self.done = set()

    def install(self, name):
        mod = sys.modules.get(type(engine.load()["manager"].modules[name]).__module__)
        real = getattr(mod, "full_bfs", None)
        if real is None or name in self.done:
            return
        self.done.add(name)

        def watched(rows, cols, *a, **k):
            out = real(rows, cols, *a, **k)
            if self.want is not None:
                self.calls += 1
                self.rooms += len(out)
                R, C, sets = self.want
                try:
                    why = judge(out, sets, R, C, None)
                except Exception:                        # another shape of result: judged by the answers only
                    why = None
                if why and self.bad is None:
                    self.bad = why
            return out
        mod.full_bfs = watched


WATCH = Watch()


def watched_solve(solver, url, params, tl=20):
    if solver != "doubleback":                           # black cells of this type are walled off before the division
        v = View(parse(url))
        WATCH.want = (v.rows, v.cols, as_sets(division(v.rows, v.cols, v.tops, v.lefts)))
        WATCH.install(solver)
    try:
        return engine.solve_urls(solver, url, params, LIMIT, tl)
    finally:
        WATCH.want = None


# --- drawings that enclose nothing ----------------------------------------------------------------------------------------------

def noise(rng, board, solver):
    b = board.copy()
    R, C = b.rows, b.cols
    v = View(b)
    used = []
    if rng.random() < 0.4 and b.margin == (0, 0, 0, 0):
        from nx.checks.c08 import reindex
        b = reindex(b, tuple(rng.choice([0, 1, 2]) for _ in range(4)))
    what = rng.choice([("crosses",), ("crosses",), ("frame",), ("outside",), ("crosses", "frame"), ("crosses", "frame", "outside"), ("loose",),
                       ("loose", "crosses")])
    tops, lefts = set(v.tops), set(v.lefts)
    if "loose" in what and solver not in READS_SIDES:
        rep = division(R, C, tops, lefts)
        inner = [("t", r, c) for r in range(1, R) for c in range(C) if (r, c) not in tops and (r, c) not in v.xtops]
        inner += [("l", r, c) for r in range(R) for c in range(1, C) if (r, c) not in lefts and (r, c) not in v.xlefts]
        rng.shuffle(inner)
        for d, r, c in inner[:rng.randint(1, 6)]:
            s = tops if d == "t" else lefts
            s.add((r, c))
            if as_sets(division(R, C, tops, lefts)) != as_sets(rep):
                s.discard((r, c))
                continue
            (b.top if d == "t" else b.left)(r, c, rng.choice("pa"))
            used.append("loose")
    if "crosses" in what:
        inner = [("t", r, c) for r in range(1, R) for c in range(C) if (r, c) not in tops]
        inner += [("l", r, c) for r in range(R) for c in range(1, C) if (r, c) not in lefts]
        rng.shuffle(inner)
        for d, r, c in inner[:rng.choice([1, 2, 6, 100])]:
            (b.topx if d == "t" else b.leftx)(r, c, rng.choice("pa"))
            used.append("cross")
    if "frame" in what:
        used += ["frame"] * draw_frame(rng, b, rng.choice([0.3, 1]))
    if "outside" in what and b.margin != (0, 0, 0, 0):
        m = b.margin
        for _ in range(4):
            r, c = rng.randint(-m[0], R + m[1] - 1), rng.randint(-m[2], C + m[3] - 1)
            if not (0 <= r < R and 0 <= c <= C):
                b.left(r, c)
                used.append("outside")
            if not (0 <= c < C and 0 <= r <= R):
                b.top(r, c)
                used.append("outside")
    return b, used


NOISE_KINDS = {"top", "left", "xtop", "xleft"}


def compare(solver, board, params, rng, times, tl=20):
    hashi = False
    WATCH.bad = None
    given = {place(f) for f in facts.facts_of(board) if solver != "nondango" or f[4:] != ("circle_M", "4")}

    def proj(u):
        return frozenset(f for f in project(u, given, hashi) if f[0] not in NOISE_KINDS)
    try:
        base = watched_solve(solver, board.url(), params, tl)
    except (engine.Inconclusive, Exception):
        base = None
    if WATCH.bad:
        return "bad", {"why": "a wrong division is used while solving: %s" % WATCH.bad, "url": board.url(), "params": params}
    if base is None or len(base) >= LIMIT:
        return "none", {}
    want = sorted(map(sorted, map(proj, base)))
    used = []
    for _ in range(times):
        b, how = noise(rng, board, solver)
        if not how:
            continue
        used += how
        info = {"variant": sorted(set(how)), "url": board.url(), "variant_url": b.url(), "params": params, "answers": len(want)}
        try:
            urls = watched_solve(solver, b.url(), params, tl)
        except engine.Inconclusive:
            continue
        except Exception as e:
            return "bad", dict(info, why="with %s added, the board fails: %s: %s" % ("/".join(sorted(set(how))), type(e).__name__, e))
        if WATCH.bad:
            return "bad", dict(info, why="with %s added, a wrong division is used while solving: %s" % ("/".join(sorted(set(how))), WATCH.bad))
        if any(f[0] in NOISE_KINDS for u in urls for f in facts.facts(u) ^ facts.facts_of(b)):
            return "bad", dict(info, why="borders were changed in the answer")
        got = sorted(map(sorted, map(proj, urls)))
        if got != want:
            return "bad", dict(info, why="with %s added, which enclose nothing, the board has %d answers instead of %d" % (
                "/".join(sorted(set(how))), len(got), len(want)))
    return "ok", {"variants": used, "answers": len(want), "url": board.url()}


def one_noise(name, seed, k):
    from nx.spec import Retry, Unsound
    s = load_all()[name]
    rng = random.Random("c23/%s/%s/%d" % (name, seed, k))
    for _ in range(8):
        try:
            case = s.make(rng, oracle=engine.answers)
            if case.accept is not None:
                continue
            s.trim(case, rng)
            if not case.expected and rng.random() < 0.7:
                continue
            return compare(s.solver, case.board, case.params, rng, 4)
        except (Retry, Unsound, engine.Inconclusive):
            continue
    return "none", {}


def one_example(j, seed, k):
    solver, i, url, cfg = facts.examples()[j]
    rng = random.Random("c23/example/%s/%d/%d" % (seed, j, k))
    raw = parse(url)
    b = Board(raw.rows, raw.cols, raw.margin, raw.shape)
    for name in "pa":
        for kind in ("surface", "number", "sudoku", "symbol", "edge", "line"):
            b.layers[name][kind] = raw.layers[name].get(kind, {})
    return compare(solver, b, cfg, rng, 2, 25)


def batch(kind, name, seed, first, count):
    engine.load()
    out = {"n": 0, "bad": [], "none": 0, "variants": {}, "rooms": 0, "sample": None, "hit": 0, "calls": 0}
    c0 = WATCH.calls
    for k in range(first, first + count):
        st, info = {"noise": one_noise, "example": one_example, "rooms": lambda _, s, i: one_rooms(s, i)}[kind](name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        out["rooms"] += info.get("rooms", 0)
        out["hit"] += info.get("answers", 1) > 0
        for v in info.get("variants", ()):
            out["variants"][v] = out["variants"].get(v, 0) + 1
        if out["sample"] is None and info.get("answers"):
            out["sample"] = {"link": info["url"], "drawn": sorted(set(info["variants"]))}
    out["calls"] = WATCH.calls - c0
    return out


def run(pid):
    chk = Check(pid)
    specs = {n: s for n, s in load_all().items() if s.solver in TYPES}
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    jobs = []

    def add(kind, name, first, count):
        jobs.append({"mod": "nx.checks.c23", "fn": "batch", "args": {"kind": kind, "name": name, "seed": chk.seed, "first": first, "count": count}})
    for k in range(0, 2400 if q else 60000, 200):
        add("rooms", None, k, 200)
    for j, e in enumerate(facts.examples()):
        if e[0] in TYPES:
            add("example", j, 0, 1 if q else 10)
    per, size = (16, 8) if q else (400, 25)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(specs):
            if k < per * (times if specs[n].solver in hot else 1):
                add("noise", n, k, size)
    variants, kinds, none, rooms, bad, hit, calls, per_name = {}, {}, 0, 0, [], 0, 0, {}
    for job, res in chk.pool().run(jobs, chk.t0 + (75 if q else 800) + extra, limit=150):
        a = job["args"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (a["kind"], a["name"], res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        kinds[a["kind"]] = kinds.get(a["kind"], 0) + res["n"]
        none += res["none"]
        rooms += res["rooms"]
        hit += res["hit"]
        calls += res["calls"]
        if a["kind"] == "noise":
            per_name[a["name"]] = per_name.get(a["name"], 0) + res["n"]
        for k, v in res["variants"].items():
            variants[k] = variants.get(k, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], what=str(a["name"])))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s" % (job["args"]["name"], b["why"]), dict(b, job=job["args"]), key=str(job["args"]["name"]))
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["name"])
    chk.distinct = hit
    chk.rule = ("divisions of random boards, and answers of room boards with and without drawings that enclose nothing; "
                "non-trivial = a division, or a board with at least one answer")
    chk.extra = {"observations": kinds, "rooms_compared": rooms, "drawn": variants, "divisions_seen_inside_solvers": calls,
                 "boards_without_use": none, "puzzle_types": len({specs[n].solver for n, v in per_name.items() if v}),
                 "rule_sets_not_reached": sorted(set(specs) - set(n for n, v in per_name.items() if v))}
    chk.assumptions = ["a loose end is not drawn on boards of %s, where a single border segment has a meaning of its own" % ", ".join(sorted(READS_SIDES))]
    chk.finish()
