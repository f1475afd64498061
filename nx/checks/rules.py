"""C19 to C22: the builders of the rule library mean what they say.

Programs are put together from the real builders with random arguments and judged over whole small spaces and over lists of larger
drawings; see nx/rules.py.  Every family is one kind of builder with its neighbours.
"""

import itertools
import os
import random
import time
import types

from nx import engine
from nx.check import Check
from nx.checks.exact import attention
from nx.rules import (BACK, LINE, OPS, Case, Edges, Grid, Lines, Numbers, Shade, around, blobs, decide, flood, meets, parts, steps)


def library():
    engine.load()
    from noqx.puzzle import Direction, Point
    from noqx.rule import common, helper, loop, neighbor, reachable, shape, variety
    lib = types.SimpleNamespace(Direction=Direction, Point=Point)
    for m in (common, neighbor, helper, reachable, shape, loop, variety):
        for k, v in vars(m).items():
            if not k.startswith("_") and getattr(v, "__module__", "noqx").startswith("noqx") and (callable(v) or k == "OMINOES"):
                setattr(lib, k, v)
    return lib


SMALL = [(1, 1), (1, 2), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (4, 2), (3, 4), (4, 3), (1, 8)]


def dims(rng, big, most=12):
    if big:
        return rng.randint(3, 9), rng.randint(3, 9)
    return rng.choice([d for d in SMALL if d[0] * d[1] <= most])


def shade(lib, rng, big, most=12, schemes=("one", "inverted", "two", "three"), holes=True):
    scheme = rng.choice(schemes)
    if scheme == "three":
        most = min(most, 7)
    return Shade(lib, rng, Grid(lib, rng, *dims(rng, big, most), holes=rng.choice([0, 0, 0.15]) if holes else 0), scheme)


def target(rng, top):
    n = rng.randint(0, max(0, top))
    return n if rng.random() < 0.4 else (rng.choice(sorted(OPS)), n)


def facts_of_areas(lib, areas):
    return "".join(lib.area(i, a) + "\n" for i, a in areas.items())


def some_areas(rng, g, cover=True):
    lab = blobs(rng, g, rng.choice([1, 2, 3, 4, 6]))
    out = {}
    for x, k in lab.items():
        out.setdefault(k, []).append(x)
    if not cover:
        for k in list(out):
            if rng.random() < 0.2 and len(out) > 1:
                del out[k]
    for a in out.values():
        rng.shuffle(a)
    return out


def both(fs):
    def judge(s):
        d = set()
        for f in fs:
            x = f(s)
            if x is None:
                return None
            if x is not True:
                d |= x
        return d
    return judge


# ---------------------------------------------------------------- C19

def f_colours(lib, rng, big):
    sp = shade(lib, rng, big)
    return Case("colours", sp.text, sp, lambda s: set())


def f_count(lib, rng, big):
    sp = shade(lib, rng, big)
    g, text, fs, note = sp.grid, sp.text, [], []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["grid", "row", "col"])
        color = sp.usable(rng, negative=False)
        one = kind != "grid" and rng.random() < 0.6
        k = rng.randrange(g.rows if kind == "row" else g.cols) if one else None
        t = target(rng, len(g.cells) if kind == "grid" else g.cols if kind == "row" else g.rows)
        if kind != "grid" and not one and rng.random() < 0.5:
            t = rng.choice([("le", 1), ("ge", 1), ("ne", 0), ("gt", 0), ("lt", 3)])
        text += lib.count(t, color=color, _type=kind, _id=k) + "\n"
        note.append((kind, k, color, t))

        def f(s, kind=kind, color=color, k=k, t=t):
            on = sp.of(s, color)
            if kind == "grid":
                return True if meets(len(on), t) else None
            lines = {x[0] if kind == "row" else x[1] for x in g.cells}      # a line without cells is no line
            for i in lines if k is None else lines & {k}:
                if not meets(sum(1 for x in on if (x[0] if kind == "row" else x[1]) == i), t):
                    return None
            return True
        fs.append(f)
    return Case("count", text, sp, both(fs), note=note)


def f_areas(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    areas = some_areas(rng, g, cover=rng.random() < 0.7)
    text, fs, note, derived = sp.text + facts_of_areas(lib, areas), [], [], []
    for what in rng.sample(["count", "count", "same", "adjacent"], 2):
        color = sp.usable(rng)
        if what == "count":
            for i in rng.sample(sorted(areas), min(len(areas), rng.randint(1, 3))):
                t = target(rng, len(areas[i]))
                text += lib.count(t, color=color, _type="area", _id=i) + "\n"
                note.append((i, color, t))
                fs.append(lambda s, i=i, color=color, t=t: True if meets(len(sp.of(s, color) & set(areas[i])), t) else None)
        elif what == "same":
            color = sp.usable(rng, negative=False)
            text += lib.area_same_color(color=color) + "\n"
            note.append(("same", color))
            fs.append(lambda s, color=color: True if all(len(sp.of(s, color) & set(a)) in (0, len(a)) for a in areas.values()) else None)
        else:
            t = rng.choice([4, 4, 8, "x"])
            color = rng.choice([None, None] + [sp.usable(rng)] * 2)
            text += lib.adjacent(t) + "\n" + lib.area_adjacent(adj_type=t, color=color) + "\n"
            name = lib.tag_encode("area_adj", t, color)
            derived.append((name, 2))
            note.append(("adjacent", t, color))

            def f(s, t=t, color=color, name=name):
                on = sp.of(s, color or "grid")
                where = {x: i for i, a in areas.items() for x in a}
                return {(name, (where[x], where[y])) for x in on for y in around(x, t)
                        if y in on and x in where and y in where and where[x] < where[y]}
            fs.append(f)
    return Case("areas", text, sp, both(fs), derived, note)


def f_neighbours(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    text, fs, note, derived = sp.text, [], [], []
    kinds = rng.sample([4, 8, "x"], rng.randint(1, 2))
    own = {t: rng.random() < 0.2 for t in kinds}
    for t in kinds:
        text += (lib.adjacent(t, include_self=own[t]) if own[t] or t != 4 or rng.random() < 0.5 else lib.adjacent()) + "\n"
        derived.append(("adj_%s" % t, 4))
        pairs = {("adj_%s" % t, x + y) for x in g.cells for y in around(x, t) if y in g.has} | ({("adj_%s" % t, x + x) for x in g.cells} if own[t] else set())
        fs.append(lambda s, pairs=pairs: pairs)
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(kinds)
        color = sp.usable(rng)
        what = rng.choice(["avoid", "count", "count", "pairs"])
        if what == "avoid" and not own[t]:
            text += lib.avoid_adjacent_color(color=color, adj_type=t) + "\n"
            fs.append(lambda s, t=t, color=color: None if any(y in sp.of(s, color) for x in sp.of(s, color) for y in around(x, t)) else True)
        elif what == "pairs" and not own[t] and not color.startswith("not "):
            text += lib.nori_adjacent(color=color, adj_type=t) + "\n"

            def f(s, t=t, color=color):
                on = sp.of(s, color)
                return True if all(sum(y in on for y in around(x, t)) == 1 for x in on) else None
            fs.append(f)
        else:
            x = rng.choice(g.cells)
            n = target(rng, 4 if t != 8 else 8)
            text += lib.count_adjacent(n, x, color=color, adj_type=t) + "\n"
            what = ("count", x, n)

            def f(s, x=x, t=t, color=color, n=n):
                on = sp.of(s, color)
                return True if meets(sum(y in on for y in around(x, t)) + (own[t] and x in on), n) else None
            fs.append(f)
        note.append((what, t, color, own[t]))
    return Case("neighbours", text, sp, both(fs), derived, note)


def f_arrows(lib, rng, big):
    sp = shade(lib, rng, big, holes=False)
    g = sp.grid
    text, fs, note = sp.text, [], []
    for _ in range(rng.randint(1, 3)):
        x, d = rng.choice(g.all), rng.randrange(4)
        color = sp.usable(rng, negative=False)
        n, always = rng.randint(0, 3), rng.random() < 0.6
        text += lib.yaji_count(n, x, d, color=color, unshade_clue=always) + "\n"
        dr, dc = ((-1, 0), (0, -1), (0, 1), (1, 0))[d]

        def f(s, x=x, dr=dr, dc=dc, color=color, n=n, always=always):
            on = sp.of(s, color)
            if not always and x in on:
                return True
            return True if sum((x[0] + k * dr, x[1] + k * dc) in on for k in range(1, 20)) == n else None
        fs.append(f)
        note.append((n, x, d, color, always))
    return Case("arrows", text, sp, both(fs), note=note)


def f_numbers(lib, rng, big):
    g = Grid(lib, rng, *(dims(rng, True) if big else rng.choice([(1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 5), (3, 3)])), holes=rng.choice([0, 0, 0.15]))
    kind = rng.choice(["grid", "grid", "area", "each"])
    color = rng.choice([None, None, "black"])
    top = rng.randint(1, max(g.rows, g.cols, 4)) if big else rng.randint(1, 4 if len(g.cells) <= 4 else 3 if len(g.cells) <= 6 else 2)
    pool = rng.choice([range(1, 10), range(0, 30), range(1, 10)])
    values = sorted(rng.sample(list(pool), min(top, len(pool)))) if rng.random() < 0.5 else list(range(1, top + 1))
    areas = some_areas(rng, g)
    text = g.text + facts_of_areas(lib, areas)
    given = {}
    if rng.random() < 0.5:
        for x in rng.sample(g.cells, min(len(g.cells), rng.randint(1, 3))):
            given[x] = rng.choice(values) if rng.random() < 0.8 else rng.choice([0, 1, 2, 3, 5, 8, 12])
    shown = values if rng.random() < 0.5 else values[::-1] + values[:1]
    if kind == "grid":
        text += lib.fill_num(_range=shown, color=color) + "\n"
        host = list(g.cells)
    elif kind == "area":
        text += lib.fill_num(_range=shown, _type="area", color=color) + "\n"
        host = list(g.cells)
    else:
        ids = rng.sample(sorted(areas), rng.randint(1, len(areas)))
        host = []
        for i in ids:
            text += lib.fill_num(_range=shown, _type="area", _id=i, color=color) + "\n"
            host += areas[i]
    given = {x: n for x, n in given.items() if x in host}
    text += "".join("number(%d,%d,%d).\n" % (x + (n,)) for x, n in sorted(given.items()))
    sp = Numbers(g, text, host, values, color, given)
    fs, note = [lambda s: True if all(v == given.get(x, v) for x, v in zip(host, s)) else None], [("fill", kind, color, values, given)]
    for _ in range(rng.randint(0, 2)):
        what = rng.choice(["row", "col", "area", "adjacent"])
        c = rng.choice(["grid", "grid", "black"]) if color else "grid"
        if what == "adjacent":
            t = rng.choice([4, 8, "x"])
            sp.text += lib.adjacent(t) + "\n" + lib.avoid_num_adjacent(adj_type=t) + "\n"

            def f(s, t=t):
                v = {x: n for x, n in zip(host, s) if n is not None}
                return None if any(v.get(y) == n for x, n in v.items() for y in around(x, t)) else True
            note.append((what, t))
        else:
            c = "grid" if not color else rng.choice(["grid", "not black"])
            sp.text += lib.unique_num(color=c, _type=what) + "\n"
            where = {x: i for i, a in areas.items() for x in a}

            def f(s, what=what):
                seen = [(x[0] if what == "row" else x[1] if what == "col" else where[x], n) for x, n in zip(host, s) if n is not None]
                return True if len(seen) == len(set(seen)) else None
            note.append((what, c))
        fs.append(f)
    return Case("numbers", sp.text, sp, both(fs), note=note)


def f_marked_numbers(lib, rng, big):
    """numbers everywhere, and a colour over them: the coloured cells have different numbers"""
    g = Grid(lib, rng, *(dims(rng, True) if big else rng.choice([(1, 4), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5)])))
    sp = Shade(lib, rng, g, rng.choice(["one", "inverted", "two"]))
    nums = {x: rng.randint(1, 3) if not big else rng.randint(1, 6) for x in g.cells}
    areas = some_areas(rng, g)
    where = {x: i for i, a in areas.items() for x in a}
    text = sp.text + facts_of_areas(lib, areas) + "".join("number(%d,%d,%d).\n" % (x + (n,)) for x, n in nums.items())
    fs, note = [], []
    for what in rng.sample(["row", "col", "area"], rng.randint(1, 2)):
        c = sp.usable(rng)
        text += lib.unique_num(color=c, _type=what) + "\n"
        note.append((what, c))

        def f(s, what=what, c=c):
            seen = [(x[0] if what == "row" else x[1] if what == "col" else where[x], nums[x]) for x in sp.of(s, c)]
            return True if len(seen) == len(set(seen)) else None
        fs.append(f)
    return Case("marked numbers", text, sp, both(fs), note=note)


def f_borders(lib, rng, big):
    g = Grid(lib, rng, *(dims(rng, True) if big else rng.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (3, 3)])))
    sp = Edges(lib, g)
    text, fs, note, derived = sp.text, [], [], []
    for _ in range(rng.randint(0, 3)):
        x = rng.choice(g.cells)
        n = target(rng, 4)
        text += lib.count_adjacent_edges(n, x) + "\n"
        r, c = x
        sides = {("l", r, c), ("l", r, c + 1), ("t", r, c), ("t", r + 1, c)}
        fs.append(lambda s, sides=sides, n=n: True if meets(len(sides & (s | sp.outer)), n) else None)
        note.append((x, n))
    if rng.random() < 0.5:
        own = rng.random() < 0.2
        text += lib.adjacent("edge", include_self=own) + "\n"
        derived.append(("adj_edge", 4))
        fs.append(lambda s: {("adj_edge", x + y) for x in g.cells for y in sp.open(s)(x)} | ({("adj_edge", x + x) for x in g.cells} if own else set()))
    if rng.random() < 0.4:
        areas = some_areas(rng, g)
        where = {x: i for i, a in areas.items() for x in a}
        text += lib.adjacent("edge") + "\n" + facts_of_areas(lib, areas) + lib.area_adjacent(adj_type="edge") + "\n"
        derived.append(("area_adj_edge", 2))
        fs.append(lambda s: {("area_adj_edge", (where[x], where[y])) for x in g.cells for y in sp.open(s)(x) if where[x] < where[y]})
    return Case("borders", text, sp, both(fs), derived, note)


def f_area_border(lib, rng, big):
    g = Grid(lib, rng, *dims(rng, big))
    sp = Shade(lib, rng, g, "one")
    edges = Edges(lib, g)
    closed = (edges.some(rng, 1)[0] if edges.inner else set()) | {e for e in edges.outer if rng.random() < 0.7}
    given = {lib.Point(e[1], e[2], lib.Direction.LEFT if e[0] == "l" else lib.Direction.TOP): True for e in closed}
    for e in edges.inner:
        if e not in closed and rng.random() < 0.1:
            given[lib.Point(e[1], e[2], lib.Direction.LEFT if e[0] == "l" else lib.Direction.TOP)] = False        # a cross
    areas = some_areas(rng, g)
    text = sp.text + "".join(lib.area_border(_id=i, src_cells=a, edge=given) + "\n" for i, a in areas.items())
    want = set()
    for i, a in areas.items():
        for r, c in a:
            for d, e in (("u", ("t", r, c)), ("d", ("t", r + 1, c)), ("l", ("l", r, c)), ("r", ("l", r, c + 1))):
                if e in closed:
                    want.add(("area_border", (i, r, c, d)))
    sp.size = lambda: 10 ** 9
    return Case("area borders", text, sp, lambda s: want, [("area_border", 4)])


def f_line_neighbours(lib, rng, big):
    directed = rng.random() < 0.4
    g = line_grid(lib, rng, big, directed)
    sp = Lines(lib, rng, g, directed=directed)
    text = sp.text + (lib.directed_loop if directed else lib.single_loop)(color="white") + "\n"
    kind = "loop_directed" if directed else "loop"
    text += lib.adjacent(kind) + "\n"
    name = "adj_" + kind
    fs = [loop_ok(sp), lambda s: {(name, a + b) for a, b in s} | {(name, b + a) for a, b in s}]
    derived, note = [(name, 4)], [kind]
    if rng.random() < 0.5:
        x, n = rng.choice(g.cells), target(rng, 2)
        text += lib.count_adjacent(n, x, color="white", adj_type=kind) + "\n"
        fs.append(lambda s: True if meets(sum(x in e for e in s), n) else None)
        note.append((x, n))
    if rng.random() < 0.5:
        areas = some_areas(rng, g)
        where = {x: i for i, a in areas.items() for x in a}
        text += facts_of_areas(lib, areas) + lib.area_adjacent(adj_type=kind) + "\n"
        derived.append(("area_adj_" + kind, 2))
        fs.append(lambda s: {("area_adj_" + kind, tuple(sorted((where[a], where[b])))) for a, b in s if where[a] != where[b]})
    return Case("neighbours on lines", text, sp, both(fs), derived, note)


# ---------------------------------------------------------------- C20

def adjacency(lib, t):
    return (lib.adjacent(_type=t)) + "\n"


def f_connected(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    text, fs, note = sp.text, [], []
    kinds = set()
    for _ in range(rng.randint(1, 2)):
        t, color = rng.choice([4, 4, 8, "x"]), sp.usable(rng)
        if (t, color) in kinds:
            continue
        kinds.add((t, color))
        mid = rng.random() < 0.5
        text += adjacency(lib, t) + lib.grid_color_connected(color=color, adj_type=t, grid_size=(g.rows, g.cols) if mid else None) + "\n"
        note.append((t, color, mid))
        fs.append(lambda s, t=t, color=color: True if len(parts(sp.of(s, color), lambda x: around(x, t))) <= 1 else None)
    return Case("connected", text, sp, both(fs), note=note)


def f_to_border(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    t, color = rng.choice([4, 4, 8, "x"]), sp.usable(rng, negative=not sp.grid.holes)
    text = sp.text + adjacency(lib, t) + lib.border_color_connected(g.rows, g.cols, color=color, adj_type=t) + "\n"
    rim = {x for x in g.cells if x[0] in (0, g.rows - 1) or x[1] in (0, g.cols - 1)}

    def judge(s):
        on = sp.of(s, color)
        return set() if all(p & rim for p in parts(on, lambda x: around(x, t))) else None
    return Case("to the border", text, sp, judge, note=[t, color])


def f_area_connected(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    areas = some_areas(rng, g, cover=rng.random() < 0.8)
    if rng.random() < 0.3 and len(areas) > 1:                  # an area in two pieces
        a, b = rng.sample(sorted(areas), 2)
        areas[a] += areas.pop(b)
    t, color = rng.choice([4, 4, 8, "x"]), sp.usable(rng)
    text = sp.text + facts_of_areas(lib, areas) + adjacency(lib, t) + lib.area_color_connected(color=color, adj_type=t) + "\n"
    return Case("connected in areas", text, sp, lambda s: set() if all(
        len(parts(sp.of(s, color) & set(a), lambda x: around(x, t))) <= 1 for a in areas.values()) else None, note=[t, color])


def f_sources(lib, rng, big):
    sp = shade(lib, rng, big)
    g = sp.grid
    t, color = rng.choice([4, 4, 8, "x"]), sp.usable(rng)
    text, fs, note = sp.text + adjacency(lib, t), [], []
    srcs = rng.sample(g.cells, min(len(g.cells), rng.choice([1, 1, 2, 3])))
    tag = lib.tag_encode("reachable", "grid", "src", "adj", t, color)
    for k, x in enumerate(srcs):
        inc = [y for y in g.cells if rng.random() < 0.15] if rng.random() < 0.3 else None
        exc = [y for y in g.cells if y != x and y not in (inc or ()) and rng.random() < 0.2] if rng.random() < 0.5 else None
        if exc is None and k == 0 and len(srcs) > 1 and rng.random() < 0.5:
            exc = srcs[1:]
        exc = None if exc is None else [y for y in exc if y not in (inc or ())]
        text += lib.grid_src_color_connected(x, include_cells=inc, exclude_cells=exc, color=color, adj_type=t) + "\n"
        n = target(rng, min(len(g.cells), 9)) if rng.random() < 0.6 else None
        if n is not None:
            text += lib.count_reachable_src(n, x, color=color, adj_type=t) + "\n"
        note.append((x, inc, exc, n))

        def f(s, x=x, inc=inc, exc=exc, n=n):
            on = sp.of(s, color)
            got = flood({x} | set(inc or ()), lambda y: [z for z in around(y, t) if z in on])
            if exc and got & set(exc):
                return None
            if n is not None and not meets(len(got), n):
                return None
            return {(tag, x + y) for y in got}
        fs.append(f)
    if rng.random() < 0.4 and t != "x":
        text += lib.avoid_unknown_src(color=color, adj_type=t) + "\n"
        note.append("no unknown source")
        own = list(fs)
        fs.append(lambda s: True if sp.of(s, color) <= {a[2:] for f in own for a in [z[1] for z in f(s) or ()]} else None)
    return Case("sources", text, sp, both(fs), [(tag, 4)], [t, color] + note)


def edge_grid(lib, rng, big, holes=True):
    return Grid(lib, rng, *(rng.randint(3, 7), rng.randint(3, 7)) if big else rng.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)]), holes=rng.choice([0, 0, 0.15]) if holes else 0)


def f_regions(lib, rng, big):
    g = edge_grid(lib, rng, big)
    sp = Edges(lib, g)
    text, fs, note = sp.text + adjacency(lib, "edge"), [], []
    srcs = rng.sample(g.cells, min(len(g.cells), rng.choice([1, 1, 2, 3])))
    tag = lib.tag_encode("reachable", "grid", "src", "adj", "edge", None)
    for k, x in enumerate(srcs):
        inc = [y for y in g.cells if rng.random() < 0.1] if rng.random() < 0.2 else None
        exc = [y for y in g.cells if y != x and y not in (inc or ()) and rng.random() < 0.2] if rng.random() < 0.5 else None
        text += lib.grid_src_color_connected(x, include_cells=inc, exclude_cells=exc, color=None, adj_type="edge") + "\n"
        n = target(rng, min(len(g.cells), 6)) if rng.random() < 0.6 else None
        if n is not None:
            text += lib.count_reachable_src(n, x, color=None, adj_type="edge") + "\n"
        note.append((x, inc, exc, n))

        def f(s, x=x, inc=inc, exc=exc, n=n):
            got = flood({x} | set(inc or ()), sp.open(s))
            if exc and got & set(exc):
                return None
            if n is not None and not meets(len(got), n):
                return None
            if any(sp.between(y, z) in s for y in got for z in ((y[0], y[1] + 1), (y[0] + 1, y[1])) if z in got):
                return None                                       # no border inside
            return {(tag, x + y) for y in got}
        fs.append(f)
    if rng.random() < 0.4:
        text += lib.avoid_unknown_src(color=None, adj_type="edge") + "\n"
        own = list(fs)
        fs.append(lambda s: True if g.has <= {a[2:] for f in own for a in [z[1] for z in f(s) or ()]} else None)
        note.append("no unknown source")
    return Case("regions from sources", text, sp, both(fs), [(tag, 4)], note)


def sight(x, ok):
    """cells in straight lines from x as long as ok(from, to)"""
    got = {x}
    for d in LINE.values():
        y = x
        while True:
            z = (y[0] + d[0], y[1] + d[1])
            if not ok(y, z):
                break
            got.add(z)
            y = z
    return got


def f_sight(lib, rng, big):
    edges = rng.random() < 0.4
    if edges:
        sp = Edges(lib, edge_grid(lib, rng, big))
        color, t = None, "edge"
    else:
        sp = shade(lib, rng, big)
        color, t = sp.usable(rng), 4
    g = sp.grid
    text, fs, note = sp.text + adjacency(lib, t), [], []
    tag = lib.tag_encode("reachable", "bulb", "src", "adj", t, color)
    for x in rng.sample(g.cells, min(len(g.cells), rng.choice([1, 2, 3]))):
        text += lib.bulb_src_color_connected(x, color=color, adj_type=t) + "\n"
        what = rng.choice([None, "cells", "cells", "rect"])
        n = target(rng, 9)
        if what == "cells":
            text += lib.count_reachable_src(n, x, main_type="bulb", color=color, adj_type=t) + "\n"
        elif what == "rect":
            text += lib.count_rect_src(n, x, color=color, adj_type=t) + "\n"

        def f(s, x=x, what=what, n=n):
            if edges:
                near = sp.open(s)
                got = sight(x, lambda a, b: b in set(near(a)))
            else:
                on = sp.of(s, color)
                got = sight(x, lambda a, b: b in on)
            if what == "cells" and not meets(len(got), n):
                return None
            if what == "rect" and not meets(len({y[0] for y in got}) * len({y[1] for y in got}), n):
                return None
            return {(tag, x + y) for y in got}
        fs.append(f)
        note.append((x, what, n))
    return Case("seen in straight lines", text, sp, both(fs), [(tag, 4)], [t, color] + note)


def f_pairs(lib, rng, big):
    if rng.random() < 0.5:
        sp = Edges(lib, edge_grid(lib, rng, False))
        g = sp.grid
        tag = lib.tag_encode("reachable", "grid", "branch", "adj", "edge", None)
        text = sp.text + adjacency(lib, "edge") + lib.grid_branch_color_connected(color=None, adj_type="edge") + "\n"

        def judge(s):
            out = set()
            for p in sp.regions(s):
                if any(sp.between(y, z) in s for y in p for z in ((y[0], y[1] + 1), (y[0] + 1, y[1])) if z in p):
                    return None
                out |= {(tag, x + y) for x in p for y in p}
            return out
        return Case("reachable pairs", text, sp, judge, [(tag, 4)], ["edge"])
    sp = shade(lib, rng, False, most=10)
    t, color = rng.choice([4, 8, "x"]), sp.usable(rng)
    tag = lib.tag_encode("reachable", "grid", "branch", "adj", t, color)
    text = sp.text + adjacency(lib, t) + lib.grid_branch_color_connected(color=color, adj_type=t) + "\n"
    return Case("reachable pairs", text, sp, lambda s: {(tag, x + y) for p in parts(sp.of(s, color), lambda x: around(x, t)) for x in p for y in p},
                [(tag, 4)], [t, color])


def f_one_loop(lib, rng, big):
    directed = rng.random() < 0.35
    g = line_grid(lib, rng, big, directed)
    sp = Lines(lib, rng, g, color=rng.choice(["white", "loopy"]), directed=directed)
    kind = "loop_directed" if directed else "loop"
    mid = rng.random() < 0.3
    text = sp.text + (lib.directed_loop if directed else lib.single_loop)(color=sp.color) + "\n" + adjacency(lib, kind)
    fs, note, derived = [loop_ok(sp)], [kind], []
    if rng.random() < 0.6:
        text += lib.grid_color_connected(color=sp.color, adj_type=kind, grid_size=(g.rows, g.cols) if mid else None) + "\n"
        fs.append(lambda s: True if len(parts({x for e in s for x in e}, sp.near(s))) <= 1 else None)
        note.append("one")
    if rng.random() < 0.6:
        x = rng.choice(g.cells)
        tag = lib.tag_encode("reachable", "grid", "src", "adj", kind, sp.color)
        text += lib.grid_src_color_connected(x, color=sp.color, adj_type=kind) + "\n"
        n = target(rng, 8)
        text += lib.count_reachable_src(n, x, color=sp.color, adj_type=kind) + "\n"
        derived.append((tag, 4))
        alone = rng.random() < 0.4
        if alone:
            text += lib.avoid_unknown_src(color=sp.color, adj_type=kind) + "\n"
        note.append((x, n, alone))

        def f(s):
            got = flood({x}, sp.near(s))
            if not meets(len(got), n) or (alone and {y for e in s for y in e} - got):
                return None
            return {(tag, x + y) for y in got}
        fs.append(f)
    return Case("reachable along lines", text, sp, both(fs), derived, note)


def f_bits(lib, rng, big):
    """paths between equal letters, numbered in binary"""
    g = line_grid(lib, rng, big, False)
    n = rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(6, 18)
    cells = rng.sample(g.cells, min(len(g.cells), 2 * n))
    n = len(cells) // 2
    if n == 0:
        return None
    ends = {}
    for k in range(n):
        ends[cells[2 * k]] = ends[cells[2 * k + 1]] = k + 1
    sp = Lines(lib, rng, g, color="white")
    s0, _ = open_drawing(rng, sp) if len(sp.links) > 3 and rng.random() < 0.8 else (None, None)
    if s0:
        e = sp.ends(s0)
        ways = [p for p in parts(set(e), sp.near(s0)) if any(len(e[x]) == 1 for x in p)]
        s0 = frozenset(x for x in s0 if any(x[0] in p for p in ways))
        labels = list(range(1, max(n, len(ways)) + 1))
        rng.shuffle(labels)
        ends = {x: labels[k] for k, p in enumerate(ways) for x in p if len(e[x]) == 1}
        if len(ways) > 1 and rng.random() < 0.3:                         # one end with the wrong label
            x = rng.choice(sorted(ends))
            ends[x] = rng.choice(labels)
        n, sp.more = max(labels), near_drawings(rng, sp, s0)
    rule, nbit = lib.num_binary_range(n)
    text = sp.text + "".join("dead_end(%d,%d).\n" % x for x in ends) + lib.single_loop(color="white", path=True) + "\n" + adjacency(lib, "loop") + rule + "\n"
    text += "".join(lib.clue_bit(x[0], x[1], k, nbit) + "\n" for x, k in ends.items())
    text += lib.grid_bit_color_connected(adj_type="loop", color="white") + "\n"
    known = rng.random() < 0.7
    if known:
        text += lib.avoid_unknown_src_bit(adj_type="loop", color="white") + "\n"

    def judge(s):
        if path_ok(sp, ends)(s) is None:
            return None
        for p in parts({x for e in s for x in e}, sp.near(s)):
            ks = [ends[x] for x in p if x in ends]
            if len(set(ks)) > 1 or (known and not ks):
                return None
        return set()
    return Case("binary labels", text, sp, judge, note=[sorted(ends.items()), known])


# ---------------------------------------------------------------- C21

def own_variants(shape, turn, mirror):
    shape = list(shape)
    out, todo = set(), [shape]
    while todo:
        s = todo.pop()
        a, b = min(s)
        k = tuple(sorted((r - a, c - b) for r, c in s))
        if k in out:
            continue
        out.add(k)
        if turn:
            todo.append([(c, -r) for r, c in k])
        if mirror:
            todo.append([(r, -c) for r, c in k])
    return out


def polyominoes(n):
    level = {frozenset(own_variants([(0, 0)], True, True))}
    for _ in range(n - 1):
        new = set()
        for vs in level:
            s = set(min(vs))
            for x in s:
                for y in around(x, 4):
                    if y not in s:
                        new.add(frozenset(own_variants(s | {y}, True, True)))
        level = new
    return level


PICTURES = {
    (1, "."): "#", (2, "I"): "##", (3, "I"): "###", (3, "L"): "##/#.",
    (4, "I"): "####", (4, "O"): "##/##", (4, "T"): "###/.#.", (4, "L"): "###/#..", (4, "S"): ".##/##.",
    (5, "F"): ".##/##./.#.", (5, "I"): "#####", (5, "L"): "####/#...", (5, "N"): "##../.###", (5, "P"): "##/##/#.", (5, "T"): "###/.#./.#.",
    (5, "U"): "#.#/###", (5, "V"): "#../#../###", (5, "W"): "#../##./.##", (5, "X"): ".#./###/.#.", (5, "Y"): "####/.#..", (5, "Z"): "##./.#./.##",
}


def drawn(p):
    return [(r, c) for r, row in enumerate(p.split("/")) for c, ch in enumerate(row) if ch == "#"]


def table_faults(lib):
    """the table of named polyominoes"""
    out = []
    for n, names in sorted(lib.OMINOES.items()):
        found = {}
        for name, cells in names.items():
            cells = [tuple(x) for x in cells]
            if len(set(cells)) != n or len(parts(cells, lambda x: around(x, 4))) != 1:
                out.append("polyomino %d %s is no polyomino of %d cells: %s" % (n, name, n, cells))
                continue
            k = frozenset(own_variants(cells, True, True))
            if k in found:
                out.append("polyominoes %d %s and %s are the same" % (n, name, found[k]))
            found[k] = name
            p = PICTURES.get((n, name))
            if p and frozenset(own_variants(drawn(p), True, True)) != k:
                out.append("polyomino %d %s has another shape than its name says: %s" % (n, name, cells))
        if n <= 5:
            missing = {k for k in polyominoes(n)} - set(found)
            if missing:
                out.append("%d polyominoes of %d cells are missing" % (len(missing), n))
            if {(n, x) for x in names} != {k for k in PICTURES if k[0] == n}:
                out.append("the polyominoes of %d cells are named %s" % (n, sorted(names)))
    if not {1, 2, 3, 4, 5} <= set(lib.OMINOES):
        out.append("the table has the sizes %s" % sorted(lib.OMINOES))
    return out


def some_shape(lib, rng, most=5):
    n = rng.randint(1, most)
    if rng.random() < 0.6 and n in lib.OMINOES:
        return rng.choice(sorted(lib.OMINOES[n].items()))[1]
    s = [(0, 0)]
    while len(s) < n:
        y = rng.choice(around(rng.choice(s), 4))
        if y not in s:
            s.append(y)
    rng.shuffle(s)
    a, b = rng.randint(-2, 2), rng.randint(-2, 2)
    return tuple((r + a, c + b) for r, c in s)


def upside(s):
    """a shape and its image upside down (which way mirrors turn a shape that cannot be turned is free)"""
    for v in (s, [(-r, c) for r, c in s]):
        a, b = min(v)
        yield [(r - a, c - b) for r, c in v]


def variants_fault(lib, rng):
    s = some_shape(lib, rng, 6 if rng.random() < 0.5 else 5) if rng.random() < 0.9 else [(0, 0), (0, 2), (3, 1)]
    turn, mirror = rng.random() < 0.5, rng.random() < 0.5
    got = {tuple(sorted(tuple(x) for x in v)) for v in lib.get_variants(s, turn, mirror)}
    want = [own_variants(s, turn, mirror)]
    if mirror and not turn:
        want.append({tuple(sorted(v)) for v in upside(s)})
    if got not in want:
        return "the positions of %s (turned: %s, mirrored: %s) are %s" % (s, turn, mirror, sorted(got))
    return None


def f_shapes(lib, rng, big):
    """shapes of one colour"""
    area = rng.random() < 0.35
    sp = shade(lib, rng, big, schemes=("one", "inverted", "two"))
    g = sp.grid
    color = sp.usable(rng, negative=False)
    t = rng.choice([4, 4, 8, "x"]) if not area else 4
    simple = area and rng.random() < 0.6
    text, note = sp.text + adjacency(lib, t), []
    areas = some_areas(rng, g) if area else {0: list(g.cells)}
    kind = "area" if area else "grid"
    if area:
        text += facts_of_areas(lib, areas)
    most = 5 if big or len(g.cells) > 6 else 3
    shapes, seen = {}, set()
    for i in range(rng.randint(1, 3)):
        d = some_shape(lib, rng, most)
        k = frozenset(own_variants(d, True, True))
        if k in seen:
            continue
        seen.add(k)
        shapes[i + 1] = (d, own_variants(d, True, True))
        text += lib.general_shape("x_y", i + 1, d, color=color, _type=kind, adj_type=t, simple=simple) + "\n"
    every = rng.random() < 0.5
    if every:
        text += lib.all_shapes("x_y", color=color, _type=kind) + "\n"
    wanted = []
    for i in [None] + sorted(shapes):
        if rng.random() < 0.35 and not (area and i is not None):
            n = target(rng, 2)
            text += lib.count_shape(n, "x_y", _id=i, color=color, _type=kind) + "\n"
            wanted.append((i, n))
    near = steps(t)

    def judge(s):
        on = sp.of(s, color)
        if sum(1 for _ in areas) == 0:
            return None
        counts = {a: {} for a in areas}
        covered = set()
        for a, cells in areas.items():
            have = on & set(cells)
            for i, (_, vs) in shapes.items():
                for v in vs:
                    for x in have:
                        p = {(x[0] + r, x[1] + c) for r, c in v}
                        if not p <= have:
                            continue
                        if not simple and any((y[0] + r, y[1] + c) in on and (y[0] + r, y[1] + c) not in p for y in p for r, c in near):
                            continue
                        counts[a].setdefault(i, []).append(p)
                        covered |= {(a, y) for y in p}
        if every and any((a, y) not in covered for a, cells in areas.items() for y in on & set(cells)):
            return None
        for i, n in wanted:
            for a in areas:
                k = sum(len(v) for v in counts[a].values()) if i is None else len(counts[a].get(i, ()))
                if not meets(k, n):
                    return None
        return set()
    case = Case("shapes", text, sp, judge, note=[kind, t, color, simple, every, wanted, {i: d for i, (d, _) in shapes.items()}])
    return case


def f_pieces(lib, rng, big):
    """the grid divided into shapes"""
    g = edge_grid(lib, rng, big)
    sp = Edges(lib, g)
    text = sp.text + adjacency(lib, "edge")
    shapes, seen = {}, set()
    for i in range(rng.randint(1, 4)):
        d = some_shape(lib, rng, 4)
        k = frozenset(own_variants(d, True, True))
        if k not in seen:
            seen.add(k)
            shapes[i] = k
            text += lib.general_shape("piece", i, d, color="grid", adj_type="edge") + "\n"
    every = rng.random() < 0.6
    if every:
        text += lib.all_shapes("piece", color="grid") + "\n"
    wanted = []
    for i in [None] + sorted(shapes):
        if rng.random() < 0.3:
            n = target(rng, 3)
            text += lib.count_shape(n, "piece", _id=i, color="grid") + "\n"
            wanted.append((i, n))

    def judge(s):
        hits = {}
        for p in sp.regions(s):
            k = tuple(sorted((r - min(p)[0], c - min(p)[1]) for r, c in p))
            i = next((i for i, vs in shapes.items() if k in vs), None)
            if i is not None and any(sp.between(y, z) in s for y in p for z in ((y[0], y[1] + 1), (y[0] + 1, y[1])) if z in p):
                i = None
            if i is None and every:
                return None
            hits[i] = hits.get(i, 0) + 1
        for i, n in wanted:
            if not meets(sum(v for k, v in hits.items() if k is not None) if i is None else hits.get(i, 0), n):
                return None
        return set()
    return Case("division into shapes", text, sp, judge, note=[every, wanted, sorted(shapes)])


def full_rect(p):
    rs, cs = [x[0] for x in p], [x[1] for x in p]
    h, w = max(rs) - min(rs) + 1, max(cs) - min(cs) + 1
    return (h, w) if h * w == len(p) else None


def f_rectangles(lib, rng, big):
    sp = shade(lib, rng, big, schemes=("one", "inverted", "two"), holes=False)
    color = sp.usable(rng, negative=False)
    square = rng.random() < 0.5
    text = sp.text + lib.all_rect(color=color, square=square) + "\n"

    def judge(s):
        for p in parts(sp.of(s, color), lambda x: around(x, 4)):
            d = full_rect(p)
            if not d or (square and d[0] != d[1]):
                return None
        return set()
    return Case("rectangles", text, sp, judge, note=[color, square])


def f_rectangle_regions(lib, rng, big):
    g = edge_grid(lib, rng, big, holes=False)
    sp = Edges(lib, g)
    square = rng.random() < 0.5
    text = sp.text + lib.all_rect_region(square=square) + "\n"

    def judge(s):
        for p in sp.regions(s):
            d = full_rect(p)
            if not d or (square and d[0] != d[1]):
                return None
            if any(sp.between(y, z) in s for y in p for z in ((y[0], y[1] + 1), (y[0] + 1, y[1])) if z in p):
                return None
        return set()
    return Case("rectangular regions", text, sp, judge, note=[square])


def f_forbidden(lib, rng, big):
    sp = shade(lib, rng, big, holes=False)
    g = sp.grid
    text, fs, note = sp.text, [], []
    for _ in range(rng.randint(1, 3)):
        h, w, color = rng.randint(1, 3), rng.randint(1, 3), sp.usable(rng)
        spots = [(r, c) for r in range(g.rows - h + 1) for c in range(g.cols - w + 1)]
        corner = None
        if rng.random() < 0.4 and spots:
            corner = rng.choice(spots)
            text += lib.avoid_rect(h, w, color=color, corner=corner) + "\n"
        else:
            text += lib.avoid_rect(h, w, color=color) + "\n"
        note.append((h, w, color, corner))

        def f(s, h=h, w=w, color=color, at=[corner] if corner else spots):
            on = sp.of(s, color)
            return None if any(all((r + i, c + j) in on for i in range(h) for j in range(w)) for r, c in at) else True
        fs.append(f)
    return Case("forbidden rectangles", text, sp, both(fs), note=note)


def f_no_rectangles(lib, rng, big):
    sp = shade(lib, rng, big, schemes=("one", "inverted", "two"), holes=False)
    color = sp.usable(rng, negative=False)
    text = sp.text + adjacency(lib, 4) + lib.no_rect(color=color) + "\n"
    return Case("no rectangles", text, sp, lambda s: None if any(full_rect(p) for p in parts(sp.of(s, color), lambda x: around(x, 4))) else set(), note=[color])


def f_no_crossing(lib, rng, big):
    g = edge_grid(lib, rng, big, holes=False)
    sp = Edges(lib, g)
    text = sp.text + lib.avoid_region_border_crossover() + "\n"

    def judge(s):
        for r in range(1, g.rows):
            for c in range(1, g.cols):
                if {("l", r - 1, c), ("l", r, c), ("t", r, c - 1), ("t", r, c)} <= s:
                    return None
        return set()
    return Case("no crossing borders", text, sp, judge)


# ---------------------------------------------------------------- C22

def line_grid(lib, rng, big, directed):
    if big:
        return Grid(lib, rng, rng.randint(3, 8), rng.randint(3, 8), holes=rng.choice([0, 0, 0.05]))
    sizes = [(1, 1), (1, 4), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2)] + ([] if directed else [(3, 3)] * 4)
    return Grid(lib, rng, *rng.choice(sizes), holes=rng.choice([0, 0, 0, 0.12]))


def loop_ok(sp):
    if sp.directed:
        return lambda s: True if all(len(i) == 1 and len(o) == 1 and i[0] != o[0] for i, o in sp.flow(s).values()) else None
    return lambda s: True if all(len(d) == 2 for d in sp.ends(s).values()) else None


def path_ok(sp, ends):
    def f(s):
        e = sp.ends(s)
        return True if all(len(e.get(x, ())) == 1 for x in ends) and all(len(d) == 2 for x, d in e.items() if x not in ends) else None
    return f


def open_drawing(rng, sp):
    """a drawing of loops with some sides taken out: paths and their ends"""
    for _ in range(20):
        s = set(sp.some(rng, 1)[0])
        loops = parts({x for e in s for x in e}, sp.near(s))
        if rng.random() < 0.5 and loops:
            keep = rng.choice(loops)
            s = {e for e in s if e[0] in keep}
        for _ in range(rng.randint(1, 3)):
            if s:
                s.discard(rng.choice(sorted(s)))
        ends = sp.ends(s)
        if s and all(len(d) <= 2 for d in ends.values()):
            one = [x for x, d in ends.items() if len(d) == 1]
            if one and len(one) <= 6:
                return frozenset(s), sorted(one)
    return None, None


def near_drawings(rng, sp, s):
    """the drawing, and slips of the pen"""
    out = [s]
    for _ in range(8):
        t = set(s)
        for _ in range(rng.choice([1, 1, 2])):
            t ^= {rng.choice(sp.links)}
        if rng.random() < 0.3:
            extra = sp.some(rng, 1)[0]
            used = {x for e in s for x in e}
            if not used & {x for e in extra for x in e}:
                t = set(s) | set(extra)
        out.append(frozenset(t))
    return out


def f_lines(lib, rng, big):
    kind = rng.choice(["single", "single", "path", "cross", "directed", "directed path"])
    directed = kind.startswith("directed")
    g = line_grid(lib, rng, big, directed)
    every = rng.random() < 0.2 and kind in ("single", "path", "directed")
    color = "grid" if every else rng.choice(["white", "loopy"])
    sp = Lines(lib, rng, g, color=color, shaded=not every, directed=directed, dirs=rng.choice(["lurd", "lrud"]))
    text, fs, note, derived = sp.text, [], [kind, color], []
    if kind == "single":
        text += lib.single_loop(color=color) + "\n"
        fs.append(loop_ok(sp))
    elif kind == "path":
        ends = rng.sample(g.cells, min(len(g.cells), rng.choice([2, 2, 4])))
        s0, e0 = open_drawing(rng, sp) if len(sp.links) > 3 and rng.random() < 0.8 else (None, None)
        if s0:
            ends, sp.more = e0, near_drawings(rng, sp, s0)
        text += "".join("dead_end(%d,%d).\n" % x for x in ends) + lib.single_loop(color=color, path=True) + "\n"
        fs.append(path_ok(sp, ends))
        note.append(ends)
    elif kind == "cross":
        ends = []
        if rng.random() < 0.5:
            ends = rng.sample(g.cells, min(len(g.cells), rng.choice([2, 2, 4])))
            s0, e0 = open_drawing(rng, sp) if len(sp.links) > 3 and rng.random() < 0.8 else (None, None)
            if s0:
                ends, sp.more = e0, near_drawings(rng, sp, s0)
            text += "".join("dead_end(%d,%d).\n" % x for x in ends)
        text += lib.intersect_loop(color=color, path=bool(ends)) + "\n"
        note.append(ends)

        def crossing(s):
            e = sp.ends(s)
            return True if all(len(e.get(x, ())) == 1 for x in ends) and all(len(d) in (2, 4) for x, d in e.items() if x not in ends) else None
        fs.append(crossing)
        derived.append(("intersection", 2))
        fs.append(lambda s: {("intersection", x) for x, d in sp.ends(s).items() if len(d) == 4})
    elif kind == "directed":
        text += lib.directed_loop(color=color) + "\n"
        fs.append(loop_ok(sp))
    else:
        k = rng.choice([1, 1, 2])
        cells = rng.sample(g.cells, min(len(g.cells), 2 * k))
        starts, stops = cells[::2], cells[1::2]
        if len(sp.links) > 3 and rng.random() < 0.8:
            s0, _ = open_drawing(rng, sp)
            fl = sp.flow(s0) if s0 else {}
            if s0 and all(len(i) <= 1 and len(o) <= 1 for i, o in fl.values()):
                starts = [x for x, (i, o) in sorted(fl.items()) if not i]
                stops = [x for x, (i, o) in sorted(fl.items()) if not o]
                sp.more = near_drawings(rng, sp, s0)
        text += "".join("path_start(%d,%d).\n" % x for x in starts) + "".join("path_end(%d,%d).\n" % x for x in stops) + "#defined path_end/2.\n"
        text += lib.directed_loop(color=color, path=True) + "\n"
        note.append((starts, stops))

        def f(s):
            fl = sp.flow(s)
            for x in starts + stops:
                i, o = fl.get(x, ((), ()))
                if (len(i), len(o)) != ((0, 1) if x in starts else (1, 0)):
                    return None
            return True if all(len(i) == 1 and len(o) == 1 and i[0] != o[0] for x, (i, o) in fl.items() if x not in starts + stops) else None
        fs.append(f)
    if every:
        fs.append(lambda s: True if set(sp.ends(s)) == g.has else None)
        if not g.cells:
            return None
    return Case("lines: " + kind, text, sp, both(fs), derived, note)


def base_loop(lib, rng, big, directed=False):
    g = line_grid(lib, rng, big, directed)
    sp = Lines(lib, rng, g, color=rng.choice(["white", "loopy"]), directed=directed)
    text = sp.text + (lib.directed_loop if directed else lib.single_loop)(color=sp.color) + "\n"
    fs = [loop_ok(sp)]
    if rng.random() < 0.3:
        kind = "loop_directed" if directed else "loop"
        text += adjacency(lib, kind) + lib.grid_color_connected(color=sp.color, adj_type=kind) + "\n"
        fs.append(lambda s: True if len(parts({x for e in s for x in e}, sp.near(s))) <= 1 else None)
    return g, sp, text, fs


SIGNS = ("lu", "ld", "ru", "rd", "lr", "ud")


def sign(ds):
    return next((n for n in SIGNS if set(n) == ds), None)


def f_turns(lib, rng, big):
    g, sp, text, fs = base_loop(lib, rng, big)
    derived = []
    if rng.random() < 0.6:
        text += lib.loop_sign(color=sp.color) + "\n"
        derived.append(("loop_sign", 3))
        fs.append(lambda s: {("loop_sign", x + (sign(d),)) for x, d in sp.ends(s).items() if sign(d)})
    if rng.random() < 0.6:
        text += lib.loop_straight(color=sp.color) + "\n"
        derived.append(("straight", 2))
        fs.append(lambda s: {("straight", x) for x, d in sp.ends(s).items() if sign(d) in ("lr", "ud")})
    if rng.random() < 0.6:
        text += lib.loop_turning(color=sp.color) + "\n"
        derived.append(("turning", 2))
        fs.append(lambda s: {("turning", x) for x, d in sp.ends(s).items() if sign(d) not in ("lr", "ud", None)})
    return Case("turns", text, sp, both(fs), derived)


def f_segments(lib, rng, big):
    g, sp, text, fs = base_loop(lib, rng, big)
    text += lib.loop_sign(color=sp.color) + "\n"
    derived = [("segment", 5)]
    for x in rng.sample(g.cells, min(len(g.cells), rng.randint(1, 4))):
        text += lib.loop_segment(x) + "\n"

        def f(s, x=x):
            e = sp.ends(s)
            if x not in e:
                return set()

            def far(d):
                y = x
                while True:
                    y = (y[0] + LINE[d][0], y[1] + LINE[d][1])
                    if e.get(y) != {d, BACK[d]}:
                        return y[0] if d in "ud" else y[1]
            n = sign(e[x])
            if n in ("lr", "ud"):
                return {("segment", x + ((far("u"), far("d"), "V") if n == "ud" else (far("l"), far("r"), "H")))}
            v, h = ("u" if "u" in n else "d"), ("l" if "l" in n else "r")
            return {("segment", x + (far(v), far(h), "T"))}
        fs.append(f)
    return Case("segments", text, sp, both(fs), derived)


def f_inside(lib, rng, big):
    g, sp, text, fs = base_loop(lib, rng, big)
    if g.holes:
        return None
    items = rng.sample(g.cells, min(len(g.cells), rng.randint(1, 4)))
    ins = [x for x in items if rng.random() < 0.5]
    outs = [x for x in items if x not in ins]
    if sp.links and rng.random() < 0.85:                                  # items around a drawing that fits
        for s0 in sp.some(rng, 10):
            e = sp.ends(s0)
            if e and both(fs)(s0) is not None:
                free = [x for x in g.cells if x not in e]
                deep = [x for x in free if sum("d" in e.get((x[0], c), ()) for c in range(x[1])) % 2]
                items = rng.sample(free, min(len(free), rng.randint(1, 5)))
                if deep and rng.random() < 0.7:
                    items = sorted(set(items) | {rng.choice(deep)})
                ins, outs = [x for x in items if x in deep], [x for x in items if x not in deep]
                sp.more = near_drawings(rng, sp, s0)
                break
    names = rng.choice([("sheep", "wolf"), ("white_item", "black_item")])
    only = rng.random() < 0.2
    text += "".join("%s(%d,%d).\n" % ((names[0],) + x) for x in ins) + "".join("%s(%d,%d).\n" % ((names[1],) + x) for x in outs)
    text += "#defined %s/2. #defined %s/2.\n" % names
    text += "".join(":- grid_direction(%d,%d,_).\n" % x for x in items)            # items are beside the loop
    text += lib.separate_item_from_loop(inside_item="" if only else names[0], outside_item=names[1]) + "\n"

    def f(s):
        e = sp.ends(s)
        if any(x in e for x in items):
            return None

        def inner(x):
            """rays crossed to the left, counted just below the row of cell centres"""
            return sum("d" in e.get((x[0], c), ()) for c in range(x[1])) % 2 == 1
        if any(inner(x) for x in outs) or (not only and any(not inner(x) for x in ins)):
            return None
        return True
    fs.append(f)
    return Case("inside and outside", text, sp, both(fs), note=[ins, outs, only])


def f_passes(lib, rng, big):
    g, sp, text, fs = base_loop(lib, rng, big)
    areas = some_areas(rng, g)
    where = {x: i for i, a in areas.items() for x in a}
    closed = {}
    for x in g.cells:
        r, c = x
        for y, p in (((r, c - 1), (r, c, lib.Direction.LEFT)), ((r - 1, c), (r, c, lib.Direction.TOP)),
                     ((r, c + 1), (r, c + 1, lib.Direction.LEFT)), ((r + 1, c), (r + 1, c, lib.Direction.TOP))):
            if where.get(y) != where[x]:
                closed[lib.Point(*p)] = True
    text += facts_of_areas(lib, areas) + "".join(lib.area_border(_id=i, src_cells=a, edge=closed) + "\n" for i, a in areas.items())
    note = []
    for i in rng.sample(sorted(areas), rng.randint(1, min(2, len(areas)))):
        n = rng.choice([0, 1, 1, 2])
        text += lib.count_area_pass(n, _id=i) + "\n"
        note.append((i, n))
        fs.append(lambda s, i=i, n=n: True if sum((where[a] == i) != (where[b] == i) for a, b in s) == 2 * n else None)
    return Case("passes", text, sp, both(fs), note=note)


def f_as_borders(lib, rng, big):
    directed = rng.random() < 0.4
    g, sp, text, fs = base_loop(lib, rng, big, directed)
    text += lib.convert_direction_to_edge(directed=directed) + "\n"
    fs.append(lambda s: {("edge_top" if a[0] == b[0] else "edge_left", min(a, b)) for a, b in s})
    return Case("lines as borders", text, sp, both(fs), [("edge_top", 2), ("edge_left", 2)])


class Strokes:
    """diagonal strokes: the raw choice of fill_path over one or two cells with the diagonal directions"""

    def __init__(self, lib, rng, grid, dirs, color=None, directed=False):
        self.grid, self.dirs, self.directed = grid, list(dirs), directed
        self.text = grid.text + lib.direction(dirs) + "\n" + lib.fill_path(color="grid", directed=directed) + "\n"
        self.preds = [("grid_in", 3), ("grid_out", 3)] if directed else [("grid_direction", 3)]

    def size(self):
        n = (len(self.dirs) + 1) ** 2 if self.directed else 2 ** len(self.dirs)
        return n ** len(self.grid.cells)

    def every(self):
        if self.directed:
            one = [(a, b) for a in [None] + self.dirs for b in [None] + self.dirs]
        else:
            one = [tuple(d for i, d in enumerate(self.dirs) if k >> i & 1) for k in range(1 << len(self.dirs))]
        return itertools.product(one, repeat=len(self.grid.cells))

    def atoms(self, s):
        if self.directed:
            return {(n, x + (v[i],)) for x, v in zip(self.grid.cells, s) for i, n in enumerate(("grid_in", "grid_out")) if v[i]}
        return {("grid_direction", x + (d,)) for x, v in zip(self.grid.cells, s) for d in v}

    def some(self, rng, n):
        one = list(itertools.islice(Strokes.every(types.SimpleNamespace(directed=self.directed, dirs=self.dirs, grid=types.SimpleNamespace(cells=[0]))), 100))
        return [tuple(rng.choice(one)[0] for _ in self.grid.cells) for _ in range(n)]


def f_strokes(lib, rng, big):
    diagonal = rng.random() < 0.6
    directed = rng.random() < 0.4
    g = Grid(lib, rng, *((rng.randint(2, 5), rng.randint(2, 5)) if big else rng.choice([(1, 1), (1, 2), (2, 1)] + ([(1, 3), (3, 1)] if not directed else []))))
    dirs = ["ul", "ur", "dl", "dr"] if diagonal else "lurd"
    sp = Strokes(lib, rng, g, dirs, directed=directed)
    text = sp.text + lib.convert_direction_to_edge(directed=directed, diagonal=diagonal) + "\n"

    def judge(s):
        out = set()
        for x, v in zip(g.cells, s):
            for d in v:
                if diagonal and d == "dr":
                    out.add(("edge_diag_down", x))
                elif diagonal and d == "ur":
                    out.add(("edge_diag_up", (x[0] - 1, x[1])))
                elif not diagonal and d == "r":
                    out.add(("edge_top", x))
                elif not diagonal and d == "d":
                    out.add(("edge_left", x))
        return out
    return Case("strokes", text, sp, judge, [("edge_diag_down", 2), ("edge_diag_up", 2)] if diagonal else [("edge_top", 2), ("edge_left", 2)], [diagonal, directed])


FAMILIES = {
    "C19": [f_colours, f_count, f_areas, f_neighbours, f_arrows, f_numbers, f_marked_numbers, f_borders, f_area_border, f_line_neighbours],
    "C20": [f_connected, f_to_border, f_area_connected, f_sources, f_regions, f_sight, f_pairs, f_one_loop, f_bits],
    "C21": [f_shapes, f_pieces, f_rectangles, f_rectangle_regions, f_forbidden, f_no_rectangles, f_no_crossing],
    "C22": [f_lines, f_turns, f_segments, f_inside, f_passes, f_as_borders, f_strokes, f_one_loop],
}
SPACE = 20000


def one(lib, make, seed, k):
    rng = random.Random("rules/%s/%s/%d" % (make.__name__, seed, k))
    big = rng.random() < 0.45
    try:
        case = make(lib, rng, big)
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if not tb.tb_frame.f_code.co_filename.startswith(os.path.join(engine.REPO, "noqx")):
            raise
        return {"bad": "the builders refuse ordinary arguments: %s: %s" % (type(e).__name__, e), "note": "", "family": make.__name__}
    if case is None:
        return None
    full = not big and case.space.size() <= SPACE
    states = None if full else case.space.some(rng, 30 if case.family != "area borders" else 2) + list(getattr(case.space, "more", ()))
    try:
        fault, n, ok = decide(case, states)
    except ValueError as e:
        fault, n, ok = str(e), 0, 0
    return {"bad": fault, "n": n, "ok": ok, "family": case.family, "full": full, "note": repr(case.note),
            "size": "%dx%d" % (case.space.grid.rows, case.space.grid.cols), "text": case.text if fault else None}


def batch(pid, family, seed, first, count):
    lib = library()
    out = {"n": 0, "ok": 0, "bad": [], "per": {}, "sizes": [], "full": 0, "sample": None, "programs": 0}
    make = FAMILIES[pid][family]
    if pid == "C21" and family == 0:
        for f in table_faults(lib):
            out["bad"].append({"why": f, "k": first})
        rng = random.Random("variants/%s/%d" % (seed, first))
        for _ in range(40):
            f = variants_fault(lib, rng)
            if f:
                out["bad"].append({"why": f, "k": first})
    for k in range(first, first + count):
        r = one(lib, make, seed, k)
        if r is None:
            continue
        if r["bad"]:
            out["bad"].append({"why": "%s %s: %s" % (r["family"], r["note"], r["bad"]), "k": k, "text": r.get("text")})
            continue
        out["programs"] += 1
        out["n"] += r["n"]
        out["ok"] += r["ok"]
        out["full"] += r["full"]
        p = out["per"].setdefault(r["family"], [0, 0, 0])
        p[0] += 1
        p[1] += r["ok"]
        p[2] += r["n"] - r["ok"]
        if r["size"] not in out["sizes"]:
            out["sizes"].append(r["size"])
        if out["sample"] is None and r["ok"]:
            out["sample"] = {"family": r["family"], "arguments": r["note"], "grid": r["size"], "drawings": r["n"], "admitted": r["ok"]}
    return out


def run(pid):
    chk = Check(pid)
    q = chk.quick
    per, size = (1000, 20) if q else (20000, 50)
    _, _, more, extra = attention(q)
    per *= more
    jobs = [{"mod": "nx.checks.rules", "fn": "batch", "args": {"pid": pid, "family": f, "seed": chk.seed, "first": k, "count": size}}
            for k in range(0, per, size) for f in range(len(FAMILIES[pid]))]
    fam, sizes, bad, full, programs = {}, set(), [], 0, 0
    for job, res in chk.pool().run(jobs, chk.t0 + (40 if q else 800) + extra, limit=150):
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % (FAMILIES[pid][job["args"]["family"]].__name__, res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        chk.distinct += res["ok"]
        full += res["full"]
        programs += res["programs"]
        for k, v in res["per"].items():
            fam[k] = [a + b for a, b in zip(fam.get(k, [0, 0, 0]), v)]
        sizes |= set(res["sizes"])
        if res["sample"]:
            chk.sample(res["sample"], cap=12)
        bad += [(job, b) for b in res["bad"]]
        if len(bad) > 60:
            break
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate(b["why"], dict(b, job=job["args"]), key=FAMILIES[pid][job["args"]["family"]].__name__)
        else:
            chk.inconclusive.append("not reproduced: %s" % b["why"][:200])
    chk.rule = ("drawings put to programs made by the real builders, each judged by a plain definition; "
                "non-trivial = a drawing that the definition admits")
    chk.extra = {"programs": programs, "programs_over_whole_spaces": full, "grid_sizes": len(sizes),
                 "families": {k: {"programs": v[0], "admitted": v[1], "rejected": v[2]} for k, v in sorted(fam.items())}}
    chk.assumptions = ["the solving library finds exactly the models of a program"]
    chk.finish()
