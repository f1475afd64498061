"""C08: what is drawn is what is solved.

Three monitors.
 decode   boards covered with elements at known cells, sides and corners are handed to the decoding step and the decoded puzzle
          object is compared element by element with an independent reading of the link;
 variants a board and the same picture stored differently (margins, layer, text or number, order, title, author, editor state,
          unrelated decorations) must have the same answers, in playing-area coordinates;
 examples the same for the full-size boards the repository ships.
"""

import json
import random

from nx import engine, facts
from nx.check import Check
from nx.checks.exact import attention
from nx.penpa import Board, View, blank_layer, parse, text_to_url
from nx.specs import load_all

LIMIT = 160
SHAPES = ["circle_L", "circle_M", "square_LL", "star", "ox_E", "ox_B", "inequality", "math_G", "sun_moon", "tri", "arrow_B_W", "arrow_B_B",
          "arrow_fouredge_B", "battleship_B", "tapa_X", "pills"]


# --- the same picture, stored differently --------------------------------------------------------------------------------

def move_key(old, new, kind, key):
    """re-index one element key from board `old` to board `new`"""
    def one(i):
        r, c, cat = old.unidx(i)
        return new.idx(r, c, cat)
    if kind == "sudoku":
        i = int(key)
        return "%d" % (one(i // 4) * 4 + i % 4)
    return ",".join("%d" % one(int(x)) for x in key.split(","))


KINDS = ("surface", "number", "sudoku", "symbol", "edge", "line")


def reindex(board, margin):
    new = Board(board.rows, board.cols, margin, board.shape)
    for name in "pa":
        for kind in KINDS:
            for k, v in board.layers[name][kind].items():
                new.layers[name][kind][move_key(board, new, kind, k)] = v
    new.title, new.extra = board.title, board.extra
    return new


def var_margin(rng, b, solver):
    big = rng.random() < 0.1
    m = tuple(x + rng.choice([0, 1, 2, 3] if not big else [0, 5, 12]) for x in b.margin)
    return reindex(b, m), "margin"


def var_layer(rng, b, solver):
    b = b.copy()
    for kind in KINDS:
        if solver == "nondango" and kind == "symbol":
            continue
        p, a = b.layers["p"][kind], b.layers["a"][kind]
        for k in sorted(p):
            if k not in a and rng.random() < 0.5:
                if kind == "line" and "," in k:     # both ways of writing a line may overlap; keep them apart
                    continue
                a[k] = p.pop(k)
    return b, "layer"


def var_text(rng, b, solver):
    b = b.copy()
    for name in "pa":
        for kind in ("number", "sudoku"):
            for k, v in b.layers[name][kind].items():
                x = v[0]
                if isinstance(x, int):
                    v[0] = str(x)
                elif isinstance(x, str) and x.isdigit() and str(int(x)) == x and not (len(v) > 2 and v[2] == "4"):
                    v[0] = int(x)
    return b, "text"


def var_order(rng, b, solver):
    b = b.copy()
    for name in "pa":
        for kind in KINDS:
            d = b.layers[name][kind]
            ks = list(d)
            rng.shuffle(ks)
            b.layers[name][kind] = {k: d[k] for k in ks}
    return b, "order"


def var_style(rng, b, solver):
    """colours and thickness that a person does not take for something else"""
    b = b.copy()
    for name in "pa":
        for v in b.layers[name]["number"].values():
            v[1] = rng.choice([1, 2, 4, 5, 8, 9])
        for v in b.layers[name]["sudoku"].values():
            v[1] = rng.choice([1, 2, 8, 9])
        for v in b.layers[name]["symbol"].values():
            v[2] = rng.choice([1, 2])
        for k, v in b.layers[name]["edge"].items():
            if "," in k:
                b.layers[name]["edge"][k] = rng.choice([2, 3, 5, 8, 9, 21, 80])
        for k, v in b.layers[name]["surface"].items():
            if v in (1, 3, 8):
                b.layers[name]["surface"][k] = rng.choice([1, 3, 8])
        if solver != "hashi":
            for k, v in b.layers[name]["line"].items():
                if "," in k:
                    b.layers[name]["line"][k] = rng.choice([2, 3, 5, 8, 9, 40])
    return b, "style"


def var_decor(rng, b, solver):
    """drawings that no puzzle type reads, pencil marks, undo history, editor state"""
    b = b.copy()
    for name in "pa":
        L = b.layers[name]
        if rng.random() < 0.5:
            i = b.idx(rng.randrange(b.rows), rng.randrange(b.cols))
            L["command_undo"] = {"__a": [["surface", i, None, "pu_q"], ["edge", "%d,%d" % (i, i + 1), 2, "pu_a"]]}
            L["command_redo"] = {"__a": [["number", i, ["3", 1, "1"], "pu_q"]]}
        if rng.random() < 0.5:
            i = b.idx(rng.randrange(b.rows), rng.randrange(b.cols))
            L["freeline"] = {"%d,%d" % (i, i + 1): 2}
            L["thermo"] = [[i, i + 1]]
            L["cage"] = {"%d,%d" % (i, i + 3): 10}
            L["deleteedge"] = {}
    if rng.random() < 0.6:
        free = [(r, c) for r in range(b.rows) for c in range(b.cols) if not any("%d" % b.idx(r, c) in b.layers[n]["number"] for n in "pa")]
        for r, c in rng.sample(free, min(len(free), 3)):
            b.num(r, c, rng.choice(["12", "3", "1235", "69"]), sub="7", layer="a")
    return b, "decor"


def var_header(rng, b, solver):
    b = b.copy()
    b.title = "Title: " + rng.choice(["", "My puzzle", "パズル №7", "zS zN zE", "a%2Cb", "m=edit&p=x", "8%2F9"])
    return b, "header"


def meta_text(rng, url_text):
    """settings that live outside the drawing: author, source, cell size, canvas, states of the tools"""
    parts = url_text.split("\n")
    h = parts[0].split(",")
    h[3] = str(rng.choice([24, 38, 60]))
    h[7], h[8] = str(rng.randint(100, 900)), str(rng.randint(100, 900))
    h[16] = rng.choice(["Author: ", "Author: Ann", "Author: 作者"])
    if h[0] in ("square", "sudoku", "kakuro") and rng.random() < 0.5:
        h[0] = rng.choice(["square", "sudoku", "kakuro"])
    parts[0] = ",".join(h)
    if rng.random() < 0.5:
        parts[6] = '["Surface","Number","Wall"]'
    if rng.random() < 0.3:
        parts += ['"x"', "{}", "[]"]
    return "\n".join(parts)


VARIANTS = [var_margin, var_layer, var_text, var_order, var_style, var_decor, var_header]


def place(f):
    return (f[0], f[1], f[2]) + ((f[3],) if f[0] in ("number", "symbol", "sudoku", "half", "xline") else ())


def project(url, given, hashi):
    out = set()
    for f in facts.facts(url, hashi=hashi):
        if place(f) in given:
            continue
        if f[0] == "surface":
            f = f[:3] + ("dark" if f[3] in ("gray", "black") else f[3],)
        out.add(f)
    return frozenset(out)


def variant_of(rng, board, solver):
    b, used = board, []
    for fn in rng.sample(VARIANTS, rng.choice([1, 1, 2, 3])):
        b, n = fn(rng, b, solver)
        used.append(n)
    url = b.url()
    if rng.random() < 0.3:
        url = text_to_url(meta_text(rng, "\n".join(b.parts())))
        used.append("settings")
    return b, url, used


def compare(solver, board, params, rng, times, limit, tl=20):
    """returns (status, info)"""
    hashi = solver == "hashi"
    given = {place(f) for f in facts.facts_of(board, hashi=hashi) if solver != "nondango" or f[4:] != ("circle_M", "4")}
    try:
        base = engine.solve_urls(solver, board.url(), params, limit, tl)
    except (engine.Inconclusive, Exception):
        return "none", {}
    if len(base) >= limit:
        return "none", {}
    want = {project(u, given, hashi) for u in base}
    used = []
    for _ in range(times):
        b, url, how = variant_of(rng, board, solver)
        used += how
        info = {"variant": how, "url": board.url(), "variant_url": url, "params": params, "answers": len(want)}
        try:
            got = {project(u, given, hashi) for u in engine.solve_urls(solver, url, params, limit, tl)}
        except engine.Inconclusive:
            continue
        except Exception as e:
            return "bad", dict(info, why="the same picture stored with other %s fails: %s: %s" % ("/".join(how), type(e).__name__, e))
        if got != want:
            return "bad", dict(info, why="the same picture stored with other %s has %d answers instead of %d: %d lost, %d new" % (
                "/".join(how), len(got), len(want), len(want - got), len(got - want)),
                lost=[sorted(x, key=repr)[:20] for x in list(want - got)[:1]], new=[sorted(x, key=repr)[:20] for x in list(got - want)[:1]])
    return "ok", {"variants": used, "answers": len(want), "url": board.url()}


def one_variant(name, seed, k):
    from nx.spec import Retry, Unsound
    s = load_all()[name]
    rng = random.Random("c08/%s/%s/%d" % (name, seed, k))
    for _ in range(8):
        try:
            case = s.make(rng, oracle=engine.answers)
            if case.accept is not None:
                continue
            s.trim(case, rng)
            if not case.expected and rng.random() < 0.7:
                continue
            return compare(s.solver, case.board, case.params, rng, 3, LIMIT)
        except (Retry, Unsound, engine.Inconclusive):
            continue
    return "none", {}


def one_example(j, seed, k):
    solver, i, url, cfg = facts.examples()[j]
    rng = random.Random("c08/example/%s/%d/%d" % (seed, j, k))
    raw = parse(url)
    b = Board(raw.rows, raw.cols, raw.margin, raw.shape)
    for name in "pa":
        for kind in KINDS:
            b.layers[name][kind] = raw.layers[name].get(kind, {})
    return compare(solver, b, cfg, rng, 2, 3, 25)


# --- the decoding step ------------------------------------------------------------------------------------------------------

def one_decode(seed, k):
    rng = random.Random("c08/decode/%s/%d" % (seed, k))
    R, C = rng.choice([(1, 1), (1, 7), (9, 1), (rng.randint(1, 12), rng.randint(1, 12)), (rng.randint(1, 60), rng.randint(1, 60))])
    b = Board(R, C, tuple(rng.choice([0, 0, 1, 2, 5]) for _ in range(4)))
    m = b.margin
    rs, cs = range(-m[0], R + m[1]), range(-m[2], C + m[3])
    surf, text, sym, edge, line = {}, {}, {}, {}, {}
    n = min(R * C * 2, 120)

    def cell(inner=False):
        if inner:
            return rng.randrange(R), rng.randrange(C)
        return rng.choice(rs), rng.choice(cs)
    for lay in "ap":
        for _ in range(rng.randint(0, n)):
            t = rng.randrange(8)
            r, c = cell()
            if t == 0:
                code = rng.choice([1, 2, 3, 4, 8])
                b.surf(r, c, code, lay)
                surf[r, c] = {1: "GRAY", 3: "GRAY", 8: "GRAY", 4: "BLACK", 2: "GREEN"}[code]
            elif t == 1:
                cat = rng.choice([0, 0, 0, 1, 2, 3])
                v = rng.choice([0, 1, 5, 12, 99, "0", "7", "12", "?", "A", " ", "x3", "W"])
                sub = rng.choice(["1", "1", "2", "3", "5", "6", "8", "10"])
                key = "%d" % b.idx(r, c, cat)
                if key in b.layers["a"]["number"] or key in b.layers["p"]["number"]:
                    continue                             # two texts in one place: tested through the layers of whole boards
                b.num(r, c, v, sub, cat, lay)
                text[r, c, cat, "normal"] = int(v) if isinstance(v, int) or v.isdigit() else v
            elif t == 2:
                v = rng.choice(["1", "12", "1?", "??", "3211", "04"])
                key = "%d" % b.idx(r, c)
                if key in b.layers["a"]["number"] or key in b.layers["p"]["number"]:
                    continue
                b.num(r, c, v, "4", 0, lay)
                for i, x in enumerate(v):
                    text[r, c, 0, "tapa_%d" % i] = int(x) if x.isdigit() else x
            elif t == 3:
                i = rng.randrange(8)
                v = rng.choice([0, 3, "5", "14", "?", "a"])
                b.sud(r, c, i, v, lay)
                text[r, c, 0, "sudoku_%d" % i] = int(v) if isinstance(v, int) or v.isdigit() else v
            elif t == 4:
                cat, shape = rng.choice([0, 0, 1, 2, 3]), rng.choice(SHAPES)
                if rng.random() < 0.3:
                    style = [rng.randrange(2) for _ in range(4)]
                    name, pos = "%s__%d" % (shape, int("".join(map(str, style)), 2)), "multiple"
                else:
                    style = rng.randint(1, 9)
                    name, pos = "%s__%d" % (shape, style), "normal"
                key = "%d" % b.idx(r, c, cat)
                if key in b.layers["a"]["symbol"] or key in b.layers["p"]["symbol"]:
                    continue
                b.sym(r, c, shape, style, cat, lay)
                sym[r, c, cat, pos] = name
            elif t == 5:
                u = rng.randrange(4)
                r, c = rng.randint(0, R), rng.randint(0, C)
                style = rng.choice([2, 3, 21])
                if u == 0 and c < C and (r, c, "top") not in edge:
                    b.top(r, c, lay, style)
                    edge[r, c, "top"] = True
                elif u == 1 and r < R and (r, c, "left") not in edge:
                    b.left(r, c, lay, style)
                    edge[r, c, "left"] = True
                elif u == 2 and c < C and (r, c, "top") not in edge:
                    b.topx(r, c, lay)
                    edge[r, c, "top"] = False
                elif u == 3 and r < R and (r, c, "left") not in edge:
                    b.leftx(r, c, lay)
                    edge[r, c, "left"] = False
            elif t == 6:
                r, c = cell(True)
                d = rng.choice("rd")
                r2, c2 = (r, c + 1) if d == "r" else (r + 1, c)
                o = {"r": "l", "d": "u"}[d]
                if r2 >= R or c2 >= C or (r, c, d) in line or (r2, c2, o) in line:
                    continue
                if rng.random() < 0.6:
                    b.line((r, c), (r2, c2), lay, rng.choice([2, 3, 5]))
                    line[r, c, d] = line[r2, c2, o] = True
                else:
                    b.linex((r, c), (r2, c2), lay)
                    line[r, c, d] = line[r2, c2, o] = False
            else:
                r, c = cell(True)
                d = rng.choice("udlr")
                dr, dc = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}[d]
                if (r, c, d) in line or (r + dr, c + dc, {"u": "d", "d": "u", "l": "r", "r": "l"}[d]) in line:
                    continue
                b.half(r, c, d, lay)
                line[r, c, d] = True
    nx = engine.load()
    p = nx["manager"].prepare_puzzle("slitherlink", b.url(), {})
    DIR = {0: "center", 1: "top_left", 2: "top", 3: "left"}
    OFF = {0: (0, 0), 1: (1, 1), 2: (1, 0), 3: (0, 1)}

    def at(r, c, cat, pos):
        return (r + OFF[cat][0], c + OFF[cat][1], DIR[cat], pos)
    want = {
        "size": (R, C),
        "surface": {(r, c, "center", "normal"): v for (r, c), v in surf.items()},
        "text": {at(*k): v for k, v in text.items()},
        "symbol": {at(*k): v for k, v in sym.items()},
        "edge": {(r, c, d, "normal"): v for (r, c, d), v in edge.items()},
        "line": {(r, c, "center", d): v for (r, c, d), v in line.items()}}

    def plain(d):
        return {(k[0], k[1], k[2].value, k[3]): v for k, v in d.items()}
    got = {"size": (p.row, p.col), "surface": {k: v.name for k, v in plain(p.surface).items()}, "text": plain(p.text),
           "symbol": plain(p.symbol), "edge": plain(p.edge), "line": plain(p.line)}
    n = len(surf) + len(text) + len(sym) + len(edge) + len(line)
    for part in want:
        if want[part] != got[part] or (part == "text" and {k: type(v) for k, v in want[part].items()} != {k: type(v) for k, v in got[part].items()}):
            if part == "size":
                diff = (want[part], got[part])
            else:
                diff = [(k, want[part].get(k), got[part].get(k)) for k in set(want[part]) | set(got[part])
                        if want[part].get(k) != got[part].get(k) or type(want[part].get(k)) is not type(got[part].get(k))][:6]
            return "bad", {"why": "%s of a %d x %d board with margins %s is read wrongly (place, drawn, read): %s" % (part, R, C, m, diff),
                           "url": b.url()}
    return "ok", {"elements": n}


def batch(kind, name, seed, first, count):
    out = {"n": 0, "bad": [], "none": 0, "variants": {}, "elements": 0, "sample": None, "hit": 0}
    for k in range(first, first + count):
        st, info = {"variant": one_variant, "example": one_example, "decode": lambda _, s, i: one_decode(s, i)}[kind](name, seed, k)
        if st == "none":
            out["none"] += 1
            continue
        out["n"] += 1
        if st == "bad":
            out["bad"].append(dict(info, k=k))
            break
        out["elements"] += info.get("elements", 0)
        out["hit"] += info.get("answers", 1) > 0
        for v in info.get("variants", ()):
            out["variants"][v] = out["variants"].get(v, 0) + 1
        if out["sample"] is None and info.get("answers"):
            out["sample"] = {"link": info["url"], "variants": info["variants"]}
    return out


def run(pid):
    chk = Check(pid)
    specs = load_all()
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    jobs = []

    def add(kind, name, first, count):
        jobs.append({"mod": "nx.checks.c08", "fn": "batch", "args": {"kind": kind, "name": name, "seed": chk.seed, "first": first, "count": count}})
    for k in range(0, 1200 if q else 30000, 150):
        add("decode", None, k, 150)
    ex = facts.examples()
    slow = ("anglers", "symmarea")
    for j, e in enumerate(ex):
        if not (q and e[0] in slow):
            add("example", j, 0, 1 if q else 8)
    per, size = (8, 8) if q else (240, 30)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(specs):
            if k < per * (times if specs[n].solver in hot else 1) * min(1, specs[n].weight * 2):
                add("variant", n, k, max(2, int(size * min(1, specs[n].weight))))
    variants, kinds, none, elements, bad, hit, per_name = {}, {}, 0, 0, [], 0, {}
    for job, res in chk.pool().run(jobs, chk.t0 + (75 if q else 800) + extra, limit=150):
        a = job["args"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (a["kind"], a["name"], res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        kinds[a["kind"]] = kinds.get(a["kind"], 0) + res["n"]
        none += res["none"]
        elements += res["elements"]
        hit += res["hit"]
        if a["kind"] == "variant":
            per_name[a["name"]] = per_name.get(a["name"], 0) + res["n"]
        for k, v in res["variants"].items():
            variants[k] = variants.get(k, 0) + v
        if res["sample"]:
            chk.sample(dict(res["sample"], what=str(a["name"])))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s" % (job["args"]["name"], b["why"]), dict(b, job=job["args"]), key=str(job["args"]["name"]))
        else:
            chk.inconclusive.append("%s: not reproduced" % job["args"]["name"])
    chk.distinct = hit
    chk.rule = ("the decoded puzzle object against an independent reading of random boards; answers of a board against answers of the same "
                "picture stored differently; non-trivial = a board that has at least one answer, or a decoded board")
    chk.extra = {"observations": kinds, "elements_decoded": elements, "variants": variants, "boards_without_use": none,
                 "rule_sets_not_reached": sorted(set(specs) - set(n for n, v in per_name.items() if v))}
    chk.assumptions = ["pencil marks, free lines, thermometers, cages and undo history are taken to carry no meaning for any puzzle type",
                       "diagonal border segments are read by no puzzle type and are not compared"]
    chk.finish()
