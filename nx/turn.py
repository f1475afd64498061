"""Turning and mirroring a drawn board, element by element; nothing in here knows any puzzle's rules but what points which way.

Two generators are enough: "T" exchanges rows and columns, "H" exchanges left and right.
"""

from nx.penpa import Board

WORDS = ["", "H", "T", "TH", "HT", "HTH", "THT", "THTH"]      # all eight ways of laying a sheet of paper down
KINDS = ("surface", "number", "sudoku", "symbol", "edge", "line")

ARROW = {"T": {"0": "1", "1": "0", "2": "3", "3": "2"}, "H": {"1": "2", "2": "1"}}           # 0 up, 1 left, 2 right, 3 down
STYLE = {
    "tri": {"T": {2: 4, 4: 2}, "H": {1: 4, 4: 1, 2: 3, 3: 2}},
    "battleship": {"T": {3: 4, 4: 3, 5: 6, 6: 5}, "H": {3: 5, 5: 3}},
    "arrow_B": {"T": {1: 3, 3: 1, 5: 7, 7: 5, 4: 8, 8: 4}, "H": {1: 5, 5: 1, 2: 4, 4: 2, 6: 8, 8: 6}},
    "firefly": {"T": {1: 2, 2: 1, 3: 4, 4: 3}, "H": {1: 3, 3: 1}},
    "inequality": {"T": {1: 2, 2: 1, 3: 4, 4: 3}, "H": {1: 3, 3: 1}},
}
SLOT = {"T": {1: 2, 2: 1, 4: 6, 6: 4, 5: 7, 7: 5}, "H": {0: 1, 1: 0, 2: 3, 3: 2, 5: 6, 6: 5}}
LETTERS = {"news": {"T": {"N": "W", "W": "N", "E": "S", "S": "E"}, "H": {"E": "W", "W": "E"}},
           "tatamibari": {"T": {"-": "|", "|": "-"}, "H": {}},
           "juosan": {"T": {"——": "|", "|": "——"}, "H": {}}}

# how clues outside the grid go along: with the picture, or they keep to their own margin (totals of a line that are written at
# its beginning whichever way the line is read), or also change their order there (totals of blocks in order along the line)
STAY = {"aquarium", "battleship", "box", "coral", "doppelblock", "magnets", "snake", "tents"}
REVERSE = {"nonogram"}
FIXED = {"starbattle"}                                                         # a note beside the grid that no rule reads
KEEP_SLOT = {"detour", "juosan", "nanro", "factors", "yajilin_regions"}      # the only slot; names no place in the cell
ONLY = {"kakuro": "T", "tilepaint": "T", "triplace": "T",                      # clues look right and down
        "aquarium": "H", "stostone": "H", "cojun": "H"}                                      # things fall down


def words(solver, rows, cols):
    if solver == "sudoku":            # the boxes: lying, unless they are squares
        return WORDS if rows in (4, 9, 16) else ["", "H", "THT", "HTHT"]
    if solver in ONLY:
        return ["", ONLY[solver]]
    return WORDS


def turn1(b, g, solver):
    """one generator applied to everything drawn on the board"""
    m, C = b.margin, b.cols
    stay, rev = solver in STAY or solver in REVERSE, solver in REVERSE
    fixed = solver in FIXED
    if g == "T":
        new = Board(b.cols, b.rows, m if fixed else (m[2], m[3], m[0], m[1]), b.shape)
    else:
        new = Board(b.rows, b.cols, m if stay or fixed else (m[0], m[1], m[3], m[2]), b.shape)

    def point(i, margin=True):
        r, c, cat = b.unidx(i)
        if fixed and margin and not (0 <= r < b.rows and 0 <= c < C):
            return new.idx(r, c, cat)
        if g == "T":
            return new.idx(c, r, {0: 0, 1: 1, 2: 3, 3: 2}[cat])
        if margin and stay and not 0 <= c < C:
            return new.idx(r, c, cat)
        return new.idx(r, (C - 2 if cat in (1, 3) else C - 1) - c, cat)

    for lay in "pa":
        for kind in KINDS:
            out = new.layers[lay][kind]
            for k, v in b.layers[lay][kind].items():
                if kind == "sudoku":
                    i, s = divmod(int(k), 4)
                    r, c, cat = b.unidx(i)
                    slot = (cat - 1) * 4 + s
                    if solver not in KEEP_SLOT:
                        slot = SLOT[g].get(slot, slot)
                    i = b.idx(r, c, 1 + slot // 4)
                    r, c, cat = b.unidx(i)
                    j = new.idx(c, r, cat) if g == "T" else new.idx(r, C - 1 - c, cat)
                    out["%d" % (j * 4 + slot % 4)] = v
                    continue
                if "," in k:
                    if (stay or fixed) and any(not (-1 <= r < b.rows and -1 <= c < C) for r, c, _ in (b.unidx(int(x)) for x in k.split(","))):
                        continue                            # ruling between the clues outside
                    a, z = (point(int(x), False) for x in k.split(","))
                    if kind == "edge" or kind == "line" and all(b.unidx(int(x))[2] == 0 for x in k.split(",")):
                        a, z = sorted((a, z))
                    out["%d,%d" % (a, z)] = v
                    continue
                if kind == "symbol":
                    v = [style(v[1], v[0], g)] + v[1:]
                elif kind == "number":
                    x = v[0]
                    if v[2] == "2" and isinstance(x, str) and x[-2:-1] == "_":
                        v = [x[:-1] + ARROW[g].get(x[-1], x[-1])] + v[1:]
                    elif solver in LETTERS:
                        v = [LETTERS[solver][g].get(x, x)] + v[1:]
                out["%d" % point(int(k))] = v
    if rev and g == "H":
        reverse(new)
    new.title, new.extra = b.title, b.extra
    return new


def reverse(b):
    """the clues of every row, in the margin to the left, in the opposite order"""
    seen = {}
    for lay in "pa":
        for k, v in b.layers[lay]["number"].items():
            r, c, cat = b.unidx(int(k))
            if c < 0 <= r < b.rows:
                seen.setdefault(r, []).append((c, lay, k, v))
    for xs in seen.values():
        xs.sort()
        cs, vs = [x[0] for x in xs], [(x[1], x[3]) for x in xs]
        for c, lay, k, _ in xs:
            del b.layers[lay]["number"][k]
        for (c, lay, k, _), (lay2, v) in zip(xs, vs[::-1]):
            b.layers[lay2]["number"][k] = v


def style(shape, st, g):
    if isinstance(st, list):                               # left, up, right, down (and the corners, which nobody uses)
        o = [1, 0, 3, 2] if g == "T" else [2, 1, 0, 3]
        return [st[o[i]] for i in range(4)] + st[4:]
    for name, t in STYLE.items():
        if shape.startswith(name):
            return t[g].get(st, st) if not isinstance(st, str) else str(t[g].get(int(st), st))
    return st


def turn(b, word, solver):
    for g in word:
        b = turn1(b, g, solver)
    return b
