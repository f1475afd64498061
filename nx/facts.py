"""What can be seen on a board link, as plain facts in playing-area coordinates (independent of layer, margin, storage)."""

import os

from nx.penpa import View, parse

DARK = {1: "gray", 3: "gray", 8: "gray", 4: "black", 2: "green"}


def facts_of(board, layers=("a", "p"), hashi=False):
    v = View(board, layers)
    out = set()
    for (r, c), x in v.surface.items():
        if x in DARK:
            out.add(("surface", r, c, DARK[x]))
    for (r, c, cat), x in v.number.items():
        if x[2] != "7":
            out.add(("number", r, c, cat, str(x[0]), "tapa" if x[2] == "4" else ""))
    for name in layers:
        for k, x in board.layers[name]["symbol"].items():
            r, c, cat = board.unidx(int(k))
            out.add(("symbol", r, c, cat, x[1], repr(x[0])))
        for k, x in board.layers[name]["sudoku"].items():
            r, c, cat = board.unidx(int(k) // 4)
            out.add(("sudoku", r, c, (cat - 1) * 4 + int(k) % 4, str(x[0])))
    out |= {("top", r, c) for r, c in v.tops}
    out |= {("left", r, c) for r, c in v.lefts}
    out |= {("diag", r, c, d) for r, c, d in v.diags}
    out |= {("xtop", r, c) for r, c in v.xtops}
    out |= {("xleft", r, c) for r, c in v.xlefts}
    for (r, c, d), x in v.halves.items():
        out.add(("half", r, c, d) + ((2 if x == 30 else 1,) if hashi else ()))
    for name in layers:
        for k, x in board.layers[name]["line"].items():
            if "," not in k:
                r, c, cat = board.unidx(int(k))
                out.add(("xline", r, c, cat))
    return frozenset(out)


def facts(url, layers=("a", "p"), hashi=False):
    return facts_of(parse(url), layers, hashi)


def put(board, f, layer, hashi=False):
    """draw one fact on a board the way a user would"""
    k, r, c = f[0], f[1], f[2]
    L = board.layers[layer]
    if k == "surface":
        board.surf(r, c, {"gray": 8, "black": 4, "green": 2}[f[3]], layer)
    elif k == "number":
        L["number"]["%d" % board.idx(r, c, f[3])] = [f[4], 1, "4" if f[5] else "1"]
    elif k == "sudoku":
        board.sud(r, c, f[3], f[4], layer)
    elif k == "symbol":
        L["symbol"]["%d" % board.idx(r, c, f[3])] = [eval(f[5], {}, {}), f[4], 1]      # a literal written by facts_of
    elif k == "top":
        board.top(r, c, layer)
    elif k == "left":
        board.left(r, c, layer)
    elif k == "diag":
        board.diag(r, c, f[3] == "/", layer)
    elif k == "xtop":
        board.topx(r, c, layer)
    elif k == "xleft":
        board.leftx(r, c, layer)
    elif k == "half":
        board.half(r, c, f[3], layer, 30 if hashi and f[4] == 2 else 2)
    elif k == "xline":
        L["line"]["%d" % board.idx(r, c, f[3])] = 98
    else:
        raise ValueError(k)


def examples(repo=None):
    """(solver name, example index, link, options) of every example of every puzzle type, read from the running code"""
    from nx import engine
    nx = engine.load()
    out = []
    for n, m in sorted(nx["manager"].modules.items()):
        for k, e in enumerate(m.examples):
            if "data" in e:
                cfg = {a: str(b) if str(b).isdigit() else b for a, b in (e.get("config") or {}).items()}      # as the page sends them
                out.append((n, k, e["data"], cfg))
    return out
