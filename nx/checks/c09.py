"""C09: an answer link is the problem plus exactly the answer.

 links     every answer link of generated and shipped boards (with decorations, editor settings and the user's marks) is taken
           apart by an independent reader: all parts but the answer layer are the characters of the problem; every mark of the
           user's answer layer is still there; nothing is written outside the playing area or over something the problem shows;
           the link is solved again and gives back the filling it shows;
 packing   models made of every kind of answer element at known places are turned into links, which must show exactly these.
"""

import random

from nx import engine, facts
from nx.check import Check
from nx.checks.c08 import KINDS, meta_text, reindex, var_decor, var_header
from nx.checks.exact import attention
from nx.penpa import Board, View, parse, text_to_url, unpack_layer, url_to_text
from nx.specs import load_all

LIMIT = 60
UNSTABLE = {"juosan", "haisu", "nagare", "magnets", "shakashaka", "gokigen", "kakuru", "pipelink"}   # do not read their own answers


def check_link(url, ans, solver):
    """what is wrong with an answer link, or None; also returns the elements that the answer added"""
    P, A = url_to_text(url).split("\n"), url_to_text(ans).split("\n")
    if len(P) != len(A):
        return "the link has %d parts instead of %d" % (len(A), len(P)), []
    for i, (x, y) in enumerate(zip(P, A)):
        if i != 4 and x != y:
            return "part %d of the link changed: %r became %r" % (i, x[:200], y[:200]), []
    b = parse(url)
    old, new, given = b.layers["a"], unpack_layer(A[4]), b.layers["p"]
    if set(old) != set(new):
        return "the answer layer has other sections: %s" % sorted(set(old) ^ set(new)), []
    added = []
    for k in old:
        if k not in KINDS:
            if old[k] != new[k]:
                return "section %s of the answer layer changed" % k, []
            continue
        gone = [x for x in old[k] if x not in new[k]]
        if gone:
            return "marks of the user are gone from the answer layer: %s %s" % (k, gone[:5]), []
        for key, v in new[k].items():
            if old[k].get(key) != v:
                added.append((k, key, v))
    lines = set()
    for key in given["line"]:
        if "," in key:
            lines.add(frozenset(map(int, key.split(","))))
    for k, key, v in added:
        where = [b.unidx(int(x)) for x in key.split(",")] if k != "sudoku" else [b.unidx(int(key) // 4)]
        if k in ("surface", "number", "symbol"):
            r, c, cat = where[0]
            if cat != 0 or not (0 <= r < b.rows and 0 <= c < b.cols):
                return "%s written outside the playing area at %s" % (k, where), []
        elif k == "edge":
            if not all(cat == 1 and -1 <= r < b.rows and -1 <= c < b.cols for r, c, cat in where):
                return "border written outside the playing area: %s" % where, []
            (r1, c1, _), (r2, c2, _) = where
            if abs(r1 - r2) > 1 or abs(c1 - c2) > 1 or (r1, c1) == (r2, c2):
                return "border between far points: %s" % where, []
        elif k == "line":
            if len(where) != 2 or where[0][2] != 0 or not (
                    0 <= where[0][0] < b.rows and 0 <= where[0][1] < b.cols or solver == "anglers"):        # anglers stand outside
                return "line written outside the playing area: %s" % where, []
            r, c, cat = where[1]
            if cat == 0 or (r, c, cat) not in ((where[0][0], where[0][1], 2), (where[0][0], where[0][1], 3),
                                               (where[0][0] - 1, where[0][1], 2), (where[0][0], where[0][1] - 1, 3)):
                return "odd line: %s" % where, []
        else:
            return "a %s was written" % k, []
        if solver == "nondango" and k == "symbol" or solver == "hashi" and k == "line":
            continue
        if key in given[k]:
            return "%s at %s written over the problem's %r" % (k, where, given[k][key]), []
        if k == "line":
            (r, c, _), (mr, mc, cat) = where
            step = {(r, c, 3): (0, 1), (r, c, 2): (1, 0), (r, c - 1, 3): (0, -1), (r - 1, c, 2): (-1, 0)}[mr, mc, cat]
            if frozenset((b.idx(r, c), b.idx(r + step[0], c + step[1]))) in lines:
                return "line at %s written over the problem's line" % (where,), []
    return None, added


def judge(solver, url, params, limit, rng, again=2, tl=20):
    hashi = solver == "hashi"
    try:
        us = engine.solve_urls(solver, url, params, limit, tl)
    except Exception:
        return "none", {}
    if not us:
        return "none", {}
    n = 0
    info = {"url": url, "params": params}
    for u in us:
        try:
            why, added = check_link(url, u, solver)
        except Exception as e:
            why, added = "the link cannot be read: %s: %s" % (type(e).__name__, e), []
        if why:
            return "bad", dict(info, why=why, answer=u)
        n += len(added)
    for u in rng.sample(us, min(again, len(us))):
        mine = facts.facts(u, hashi=hashi)
        try:
            back = engine.solve_urls(solver, u, params, limit, tl)
        except engine.Inconclusive:
            continue
        except Exception as e:
            if solver in UNSTABLE:
                continue
            return "bad", dict(info, why="the answer link cannot be solved again: %s: %s" % (type(e).__name__, e), answer=u)
        all_ = {facts.facts(x, hashi=hashi) for x in back}
        if mine not in all_ and not (len(back) >= limit) and solver not in UNSTABLE:
            return "bad", dict(info, why="solving the answer link again gives %d answers and not the filling it shows" % len(all_), answer=u)
    return "ok", {"links": len(us), "elements": n, "url": url}


def one_link(name, seed, k):
    from nx.spec import Retry, Unsound
    s = load_all()[name]
    rng = random.Random("c09/%s/%s/%d" % (name, seed, k))
    for _ in range(8):
        try:
            case = s.make(rng, oracle=engine.answers)
            if case.accept is None:
                s.trim(case, rng)
                if not case.expected:
                    continue
            b = case.board
            for fn in (var_decor, var_header):
                if rng.random() < 0.5:
                    b, _ = fn(rng, b, s.solver)
            if rng.random() < 0.3:
                b = reindex(b, tuple(x + rng.choice([0, 1, 3]) for x in b.margin))
            url = b.url()
            if rng.random() < 0.4:
                url = text_to_url(meta_text(rng, "\n".join(b.parts())))
            return judge(s.solver, url, case.params, LIMIT if case.accept is None else 5, rng)
        except (Retry, Unsound, engine.Inconclusive):
            continue
    return "none", {}


def one_example(j, seed, k):
    solver, i, url, cfg = facts.examples()[j]
    rng = random.Random("c09/example/%s/%d/%d" % (seed, j, k))
    return judge(solver, url, cfg, 3, rng, again=1, tl=25)


# --- packing ------------------------------------------------------------------------------------------------------------------

SYM = ["circle_M__1", "circle_M__2", "ox_E__1", "ox_E__7", "star__2", "sun_moon__3", "tents__2", "math_G__2", "tri__3"]
TRI = {"ul": "1", "ur": "4", "dl": "2", "dr": "3"}


def one_pack(seed, k):
    rng = random.Random("c09/pack/%s/%d" % (seed, k))
    R, C = rng.choice([(1, 1), (rng.randint(1, 8), rng.randint(1, 8)), (rng.randint(1, 8), rng.randint(1, 8)), (rng.randint(10, 40), rng.randint(10, 40))])
    solver = rng.choice(["slitherlink", "aqre", "sudoku", "hashi", "akari"])
    hashi = solver == "hashi"
    b = Board(R, C, tuple(rng.choice([0, 0, 1, 2]) for _ in range(4)))
    atoms, want = [], set()

    def cell():
        return rng.randrange(R), rng.randrange(C)
    used = set()

    def fresh(*key):
        if key in used:
            return False
        used.add(key)
        return True
    for _ in range(rng.randint(1, min(80, 4 * R * C))):
        t = rng.randrange(7)
        r, c = cell()
        if t == 0 and fresh("surface", r, c):
            col = rng.choice(["gray", "black"])
            atoms.append("%s(%d,%d)" % (col, r, c))
            want.add(("surface", r, c, col))
        elif t == 1 and fresh("number", r, c):
            if rng.random() < 0.5:
                v = rng.choice([0, 1, 9, 10, 27, -3])
                atoms.append("%s(%d,%d,%d)" % (rng.choice(["number", "number", "numberx"]), r, c, v))
                want.add(("number", r, c, 0, str(v), ""))
            else:
                v = rng.choice(["A", "Z", "N", "×"])
                atoms.append('content(%d,%d,"%s")' % (r, c, v))
                want.add(("number", r, c, 0, v, ""))
        elif t == 2 and fresh("symbol", r, c):
            if rng.random() < 0.3:
                d = rng.choice(sorted(TRI))
                atoms.append('triangle(%d,%d,"%s")' % (r, c, d))
                want.add(("symbol", r, c, 0, "tri", TRI[d]))
            else:
                y = rng.choice(SYM)
                atoms.append("%s(%d,%d)" % (y, r, c))
                want.add(("symbol", r, c, 0, y.split("__")[0], y.split("__")[1]))
        elif t == 3:
            r, c = rng.randint(0, R), rng.randrange(C)
            if fresh("top", r, c):
                atoms.append("edge_top(%d,%d)" % (r, c))
                want.add(("top", r, c))
        elif t == 4:
            r, c = rng.randrange(R), rng.randint(0, C)
            if fresh("left", r, c):
                atoms.append("edge_left(%d,%d)" % (r, c))
                want.add(("left", r, c))
        elif t == 5 and fresh("diag", r, c):
            u = rng.random() < 0.5
            atoms.append("edge_diag_%s(%d,%d)" % ("up" if u else "down", r, c))
            want.add(("diag", r, c, "/" if u else "\\"))
        elif t == 6:
            d = rng.choice("udlr")
            if fresh("half", r, c, d):
                if hashi:
                    n = rng.choice([1, 2])
                    atoms.append('grid_direction(%d,%d,"%s",%d)' % (r, c, d, n))
                    want.add(("half", r, c, d, n))
                else:
                    atoms.append('%s(%d,%d,"%s")' % (rng.choice(["grid_direction", "grid_direction", "grid_in"]), r, c, d))
                    want.add(("half", r, c, d))
    # the problem shows some of the answer already, and other things besides
    drawn = set()
    if not hashi and not any(a.startswith("grid_in") for a in atoms):
        for f in sorted(want, key=repr):
            if rng.random() < 0.15:
                facts.put(b, f, "p", hashi)
                drawn.add(f)
    for _ in range(rng.randint(0, 4)):
        r, c = rng.randrange(R), rng.randrange(C)
        if fresh("number", r, c):
            b.num(r, c, rng.choice([3, "?", "B"]), layer="p")
        if fresh("surface", r, c):
            b.surf(r, c, rng.choice([1, 2, 4]), rng.choice("pa"))
        if fresh("mark", r, c):
            b.sud(r, c, rng.randrange(4), 5, layer=rng.choice("pa"))
    rng.shuffle(atoms)
    url = text_to_url(meta_text(rng, "\n".join(b.parts()))) if rng.random() < 0.5 else b.url()
    m = engine.load()["manager"]
    given = dict((k, v["default"]) for k, v in m.modules[solver].parameters.items())
    info = {"url": url, "model": " ".join(atoms), "solver": solver}
    try:
        p = m.prepare_puzzle(solver, url, given)
        ans = m.store_solution(p, " ".join(atoms)).encode()
        again = m.store_solution(p, " ".join(atoms)).encode()
    except Exception as e:
        return "bad", dict(info, why="the answer cannot be stored: %s: %s" % (type(e).__name__, e))
    if facts.facts(ans, hashi=hashi) != facts.facts(again, hashi=hashi):
        return "bad", dict(info, why="storing the same answer twice gives two different links")
    why, added = check_link(url, ans, solver)
    if why:
        return "bad", dict(info, why=why)
    seen = facts.facts_of(b, hashi=hashi)
    got = facts.facts(ans, hashi=hashi)
    if got != seen | want:
        return "bad", dict(info, why="the answer link shows %s too much and lacks %s" % (
            sorted(got - seen - want, key=repr)[:5], sorted((seen | want) - got, key=repr)[:5]))
    if len(added) < len(want) - len(drawn):
        return "bad", dict(info, why="fewer elements written than answered")
    return "ok", {"links": 1, "elements": len(want), "url": url}


def batch(kind, name, seed, first, count):
    out = {"n": 0, "bad": [], "none": 0, "links": 0, "elements": 0, "sample": None}
    for k in range(first, first + count):
        st, info = {"link": one_link, "example": one_example, "pack": lambda _, s, i: one_pack(s, i)}[kind](name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        out["links"] += info["links"]
        out["elements"] += info["elements"]
        if out["sample"] is None and info["elements"]:
            out["sample"] = {"link": info["url"], "answers": info["links"]}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    jobs = []

    def add(kind, name, first, count):
        jobs.append({"mod": "nx.checks.c09", "fn": "batch", "args": {"kind": kind, "name": name, "seed": chk.seed, "first": first, "count": count}})
    for k in range(0, 1600 if q else 30000, 200):
        add("pack", None, k, 200)
    for j, e in enumerate(facts.examples()):
        if not (q and e[0] in ("anglers", "symmarea")):
            add("example", j, 0, 1)
    per, size = (16, 8) if q else (400, 40)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(specs):
            if k < per * (times if specs[n].solver in hot else 1) * min(1, specs[n].weight * 2):
                add("link", n, k, max(2, int(size * min(1, specs[n].weight))))
    kinds, links, elements, bad, none, per_name = {}, 0, 0, [], 0, {}
    for job, res in chk.pool().run(jobs, chk.t0 + (75 if q else 800) + extra, limit=150):
        a = job["args"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (a["kind"], a["name"], res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        kinds[a["kind"]] = kinds.get(a["kind"], 0) + res["n"]
        links += res["links"]
        elements += res["elements"]
        none += res["none"]
        if a["kind"] == "link":
            per_name[a["name"]] = per_name.get(a["name"], 0) + res["n"]
        if res["sample"]:
            chk.sample(dict(res["sample"], what=str(a["name"])))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s" % (job["args"]["name"], b["why"]), dict(b, job=job["args"]), key=str(job["args"]["name"]))
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["name"])
    chk.distinct = chk.evals
    chk.rule = "boards with at least one answer whose links were taken apart, plus models packed and read back; all are distinct random boards"
    chk.extra = {"observations": kinds, "links_taken_apart": links, "elements_written": elements, "boards_without_use": none,
                 "rule_sets_not_reached": sorted(set(specs) - set(n for n, v in per_name.items() if v))}
    chk.assumptions = ["bridges of hashi and the marks of nondango are drawn on top of what the problem shows, as intended there",
                       "types that do not read their own answers back as marks (%s) are not solved again" % ", ".join(sorted(UNSTABLE))]
    chk.finish()
