"""C07: a user's own marks only narrow the answers down.

Metamorphic monitor: all answers of a board are recorded; then a mark that one of the answers shows (or a cross that
contradicts it) is drawn on top, in the problem or the answer layer, and the answers of the marked board must be exactly
those recorded answers that agree with the mark.  Marks are added one after another, so histories of marks are covered.
"""

import random

from nx import engine, facts
from nx.check import Check
from nx.checks.exact import attention
from nx.specs import load_all

# kinds of marks that a puzzle type does not read (or, for pipelink, reads as a complete clue)
UNREAD = {"haisu": {"half", "xline"}, "nagare": {"half", "xline"}, "hashi": {"xline"}, "pipelink": {"half", "xline"},
          "juosan": {"number"}, "magnets": {"symbol"}, "shakashaka": {"symbol"}, "gokigen": {"diag"}, "kakuru": {"number"}}
STEP = {"r": (0, 0, 3), "l": (0, -1, 3), "d": (0, 0, 2), "u": (-1, 0, 2)}
LIMIT = 160
# types with notes that say whether a number goes into a cell
_OX = {False: [("symbol", 0, "ox_E", "4"), ("symbol", 0, "ox_E", "7")], True: [("symbol", 0, "ox_E", "1")]}
NOTES = {"sukoro": _OX, "sukororoom": _OX, "view": _OX, "hanare": {False: [("surface", "green")]}}


def all_answers(s, board, params, hashi):
    us = engine.solve_urls(s.solver, board.url(), params, LIMIT, 20)
    return {facts.facts(u, hashi=hashi) for u in us}


def negative(f):
    """the cross or dot that rules the element out"""
    if f[0] in ("top", "left"):
        return ("x" + f[0],) + f[1:]
    if f[0] == "half":
        d = STEP[f[3]]
        return ("xline", f[1] + d[0], f[2] + d[1], d[2])
    if f[0] == "surface" and f[3] in ("gray", "black"):
        return ("surface", f[1], f[2], "green")
    return None


def place_kind(f):
    return (f[0], f[1], f[2]) + ((f[3],) if f[0] in ("number", "symbol", "sudoku", "half", "xline") else ())


def one(name, seed, k):
    """returns (status, info)"""
    s = load_all()[name]
    rng = random.Random("c07/%s/%s/%d" % (name, seed, k))
    hashi = s.solver == "hashi"
    unread = UNREAD.get(s.solver, set())
    from nx.spec import Retry, Unsound
    case = None
    for _ in range(12):
        try:
            c = s.make(rng, oracle=engine.answers)
            if c.accept is not None:
                continue
            if k % 2:
                s.trim(c, rng)
            elif len(c.expected) > s.cap:
                continue
            if len(c.expected) < 2:
                if rng.random() < 0.75:
                    continue
            case = c
            break
        except (Retry, Unsound, engine.Inconclusive):
            continue
    if case is None:
        return "none", {}
    board = case.board.copy()
    try:
        cur = all_answers(s, board, case.params, hashi)
    except engine.Inconclusive:
        return "none", {}
    except Exception:       # refused or failing boards are the business of other properties
        return "none", {}
    if not cur or len(cur) >= LIMIT:
        return "none", {}
    marks, log, narrowed = [], [], 0
    steps = rng.choice([1, 1, 2, 3, 4])
    for step in range(steps):
        if not cur:
            break
        seen = facts.facts_of(board, hashi=hashi)
        taken = {place_kind(f) for f in seen if s.solver != "nondango" or f[4:] != ("circle_M", "4")}
        whole = rng.random() < 0.15
        a = rng.choice(sorted(cur, key=lambda x: repr(sorted(x, key=repr))))
        els = sorted((f for f in a - seen if f[0] not in unread and place_kind(f) not in taken), key=repr)
        only_cross = not els
        lay = rng.choice("pa") if s.solver != "nondango" else "a"
        note = NOTES.get(s.solver) if rng.random() < 0.4 else None
        cells = []
        if note:
            held = {x: {f[1:3] for f in x if f[0] == "number"} for x in cur}
            cells = [(r, c) for r in range(board.rows) for c in range(board.cols) if not any(p[1:3] == (r, c) for p in taken)]
            differ = [p for p in cells if len({p in held[x] for x in cur}) == 2]
            cells = differ or cells
        if cells:
            p = rng.choice(cells)
            full = rng.choice(sorted(note))
            if not any((p in held[x]) == full for x in cur) and True in note:
                full = not full
            m = rng.choice(note[full])
            add = [(m[0],) + p + m[1:]]
            exp = {x for x in cur if (p in held[x]) == full}
        elif els and whole:                                       # the user takes over a whole answer, or a good part of it
            if rng.random() < 0.5:
                els = [f for f in els if rng.random() < 0.6] or els
            add = els
            exp = {x for x in cur if all(f in x for f in els)}
        else:
            # elements on which the answers differ say most
            diff = [f for f in els if not all(f in x for x in cur)]
            f = rng.choice(diff or els) if els else None
            neg = None
            if only_cross or rng.random() < 0.45:
                b = rng.choice(sorted(cur, key=lambda x: repr(sorted(x, key=repr))))
                g = sorted((g for g in b - a - seen if place_kind(g) not in taken and negative(g)
                            and negative(g)[0] not in unread and place_kind(negative(g)) not in taken), key=repr)
                if g:
                    f = rng.choice(g)
                    neg = negative(f)
                    if neg[0] == "surface" and any(h[0] != "surface" for x in cur for h in x - seen):
                        neg = None                      # a green cell has other meanings on boards that draw more than shading
            if neg:
                add = [neg]
                exp = {x for x in cur if f not in x}
            elif f is None:
                break
            else:
                add = [f]
                exp = {x for x in cur if f in x}
        for m in add:
            facts.put(board, m, lay, hashi)
        log.append((lay, add[:6]))
        try:
            got = all_answers(s, board, case.params, hashi)
        except engine.Inconclusive:
            return "none", {}
        except Exception as e:
            return "bad", {"why": "the marked board is refused or fails: %s: %s" % (type(e).__name__, e), "marks": log,
                           "url": board.url(), "params": case.params}
        added = set(add)
        cross = {m for m in added if m[0] in ("xtop", "xleft", "xline") or m[3:] == ("green",) or note and m[4:5] == ("ox_E",)}
        got = {x - cross for x in got}
        want = {x - cross for x in exp}
        if got != want and len(got) < LIMIT:
            return "bad", {"why": "%d answers agree with the marks, %d returned: %d lost, %d not agreeing" % (
                len(want), len(got), len(want - got), len(got - want)), "marks": log, "url": board.url(),
                "params": case.params, "lost": [sorted(x, key=repr)[:30] for x in list(want - got)[:1]],
                "extra": [sorted(x, key=repr)[:30] for x in list(got - want)[:1]]}
        if len(want) < len(cur):
            narrowed += 1
        marks += add
        cur = {x | cross for x in exp}
        # the crosses are part of what is seen from now on
    return "ok", {"narrowed": narrowed, "steps": len(log), "layers": [x[0] for x in log], "kinds": [m[0] for x in log for m in x[1]],
                  "url": board.url()}


def batch(name, seed, first, count):
    out = {"n": 0, "narrowed": 0, "kinds": {}, "layers": {}, "bad": [], "none": 0, "sample": None}
    for k in range(first, first + count):
        st, info = one(name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        if st == "bad":
            info["k"] = k
            out["bad"].append(info)
            out["n"] += 1
            break
        out["n"] += info["steps"]
        out["narrowed"] += info["narrowed"]
        for x in info["kinds"]:
            out["kinds"][x] = out["kinds"].get(x, 0) + 1
        for x in info["layers"]:
            out["layers"][x] = out["layers"].get(x, 0) + 1
        if info["narrowed"] and out["sample"] is None:
            out["sample"] = {"link": info["url"], "marks": info["kinds"]}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    hot, boost, all_times, extra = attention(chk.quick)
    per = (36 if chk.quick else 700) * all_times
    size = 12 if chk.quick else 35
    jobs = []
    for k in range(0, per * boost, size):
        for n in sorted(specs):
            lim = per * min(1, specs[n].weight)
            if specs[n].solver in hot:
                lim *= boost
            if k < lim:
                jobs.append({"mod": "nx.checks.c07", "fn": "batch", "args": {"name": n, "seed": chk.seed, "first": k, "count": size}})
    jobs.sort(key=lambda j: (specs[j["args"]["name"]].solver not in hot))
    kinds, layers, per_name, narrowed, none = {}, {}, {}, 0, 0
    bad = []
    for job, res in chk.pool().run(jobs, chk.t0 + (45 if chk.quick else 780) + extra, limit=150):
        n = job["args"]["name"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % (n, res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        narrowed += res["narrowed"]
        none += res["none"]
        per_name[n] = per_name.get(n, 0) + res["n"]
        for src, dst in ((res["kinds"], kinds), (res["layers"], layers)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], rule_set=n))
        for b in res["bad"]:
            bad.append((job, b))
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s; marks %s" % (job["args"]["name"], b["why"], b["marks"]), dict(b, rule_set=job["args"]["name"]),
                        key=job["args"]["name"])
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["name"])
    chk.distinct = narrowed
    chk.rule = ("boards from the generators of the rule models; the complete answer list of the unmarked board is filtered by the "
                "mark and compared with the answers of the marked board; non-trivial = the mark removed at least one answer")
    chk.extra = {"marks_by_kind": kinds, "marks_by_layer": layers, "marks_per_rule_set": per_name, "boards_without_use": none,
                 "rule_sets_not_reached": sorted(set(specs) - set(n for n, v in per_name.items() if v)), "extra_attention": sorted(hot)}
    chk.assumptions = ["kinds of marks which a puzzle type does not read are listed in nx/checks/c07.py and not tried"]
    chk.finish()
