"""An independent reading of the penpa-edit exchange format, used as the oracle's own eyes.

Nothing in here imports the code under test.  A `Board` is built with user-level drawing operations
("shade this cell", "write 3 there", "draw a border on top of that cell") and turned into the URL that the
penpa-edit editor would export; `parse` reads such a URL back into plain Python data.

Coordinates are always those of the playing area: (r, c) with 0 <= r < rows, 0 <= c < cols, and negative or
larger values for the margins around it.

Penpa indices.  With RR = rows + top + bottom margins + 4 and CC likewise, a cell (r, c) has linear index
(r + 2 + top) * CC + (c + 2 + left); category 1 (+ RR*CC) is the vertex at the cell's lower right corner,
category 2 its bottom edge midpoint, category 3 its right edge midpoint.
"""

import base64
import json
import zlib

PREFIX = "m=edit&p="
ABBR = [("qa", "z9"), ("pu_q", "zQ"), ("pu_a", "zA"), ("grid", "zG"), ("edit_mode", "zM"), ("surface", "zS"),
        ("line", "zL"), ("edge", "zE"), ("wall", "zW"), ("cage", "zC"), ("number", "zN"), ("sudoku", "z1"),
        ("symbol", "zY"), ("special", "zP"), ("board", "zB"), ("command_redo", "zR"), ("command_undo", "zU"),
        ("command_replay", "z8"), ("freeline", "zF"), ("freeedge", "z2"), ("thermo", "zT"), ("arrows", "z3"),
        ("d", "zD"), ("squareframe", "z0"), ("polygon", "z5"), ("deleteedge", "z4"), ("killercages", "z6"),
        ("nobulbthermo", "z7"), ("__a", "z_")]

EMPTY = ("command_redo", "command_undo", "command_replay", "surface", "number", "sudoku", "symbol", "freeline",
         "freeedge", "thermo", "arrows", "d", "squareframe", "polygon", "line", "edge", "wall", "cage",
         "deleteedge", "killercages", "nobulbthermo")
LISTS = ("thermo", "arrows", "d", "squareframe", "polygon", "killercages", "nobulbthermo")


def blank_layer():
    d = {}
    for k in EMPTY:
        if k.startswith("command"):
            d[k] = {"__a": []}
        elif k in LISTS:
            d[k] = []
        else:
            d[k] = {}
    return d


def js_order(d):
    """objects written by the editor list whole-number keys first and in increasing order"""
    if not isinstance(d, dict):
        return d
    ks = sorted((k for k in d if k.isdigit()), key=int) + [k for k in d if not k.isdigit()]
    return {k: js_order(d[k]) for k in ks}


def pack_layer(d):
    s = json.dumps(js_order(d), separators=(",", ":"))
    for a, z in ABBR:
        s = s.replace('"%s"' % a, z)
    return s.replace("null", "zO")


def unpack_layer(s):
    for a, z in ABBR:
        s = s.replace(z, '"%s"' % a)
    return json.loads(s.replace("zO", "null"))


def text_to_url(text):
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    return PREFIX + base64.b64encode(c.compress(text.encode()) + c.flush()).decode()


def url_to_text(url):
    assert url.startswith(PREFIX), "not a penpa edit url: %r" % url[:40]
    return zlib.decompress(base64.b64decode(url[len(PREFIX):]), -15).decode()


class Board:
    """A puzzle as a user would draw it; `layer` is "p" (problem) or "a" (the user's own answer marks)."""

    def __init__(self, rows, cols, margin=(0, 0, 0, 0), shape="square"):
        self.rows, self.cols, self.margin, self.shape = rows, cols, tuple(margin), shape
        self.layers = {"p": blank_layer(), "a": blank_layer()}
        self.title = "Title: "
        self.extra = None

    # -- geometry
    @property
    def RR(self):
        return self.rows + self.margin[0] + self.margin[1] + 4

    @property
    def CC(self):
        return self.cols + self.margin[2] + self.margin[3] + 4

    def idx(self, r, c, cat=0):
        return cat * self.RR * self.CC + (r + 2 + self.margin[0]) * self.CC + c + 2 + self.margin[2]

    def unidx(self, i):
        cat, i = divmod(i, self.RR * self.CC)
        return i // self.CC - 2 - self.margin[0], i % self.CC - 2 - self.margin[2], cat

    # -- drawing
    def surf(self, r, c, code, layer="p"):
        self.layers[layer]["surface"]["%d" % self.idx(r, c)] = code

    def num(self, r, c, val, sub="1", cat=0, layer="p", color=1):
        self.layers[layer]["number"]["%d" % self.idx(r, c, cat)] = [val, color, sub]

    def sud(self, r, c, k, val, layer="p"):
        """small text in a corner (k = 0..3) or at a side (k = 4..7) of a cell"""
        cat = 1 + k // 4
        self.layers[layer]["sudoku"]["%d" % (self.idx(r, c, cat) * 4 + k % 4)] = [val, 1]

    def sym(self, r, c, shape, style, cat=0, layer="p", z=1):
        self.layers[layer]["symbol"]["%d" % self.idx(r, c, cat)] = [style, shape, z]

    def top(self, r, c, layer="p", style=2):
        """border segment on the upper side of cell (r, c)"""
        self.layers[layer]["edge"]["%d,%d" % (self.idx(r - 1, c - 1, 1), self.idx(r - 1, c, 1))] = style

    def left(self, r, c, layer="p", style=2):
        self.layers[layer]["edge"]["%d,%d" % (self.idx(r - 1, c - 1, 1), self.idx(r, c - 1, 1))] = style

    def diag(self, r, c, up, layer="p", style=2):
        """diagonal of cell (r, c): `up` is "/" """
        if up:
            self.layers[layer]["edge"]["%d,%d" % (self.idx(r - 1, c, 1), self.idx(r, c - 1, 1))] = style
        else:
            self.layers[layer]["edge"]["%d,%d" % (self.idx(r - 1, c - 1, 1), self.idx(r, c, 1))] = style

    def topx(self, r, c, layer="p"):
        """cross mark: no border on the upper side of cell (r, c)"""
        self.layers[layer]["edge"]["%d" % self.idx(r - 1, c, 2)] = 98

    def leftx(self, r, c, layer="p"):
        self.layers[layer]["edge"]["%d" % self.idx(r, c - 1, 3)] = 98

    def wall_between(self, a, b, layer="p"):
        (r, c), (r2, c2) = sorted([a, b])
        if r == r2:
            self.left(r2, c2, layer)
        else:
            self.top(r2, c2, layer)

    def wallx_between(self, a, b, layer="p"):
        (r, c), (r2, c2) = sorted([a, b])
        if r == r2:
            self.leftx(r2, c2, layer)
        else:
            self.topx(r2, c2, layer)

    def line(self, a, b, layer="p", style=2):
        """line segment joining the centres of two adjacent cells"""
        a, b = sorted([a, b])
        self.layers[layer]["line"]["%d,%d" % (self.idx(*a), self.idx(*b))] = style

    def half(self, r, c, d, layer="p", style=2):
        """line segment from the centre of (r, c) to the middle of its side d (one of u d l r)"""
        if d == "r":
            t = self.idx(r, c, 3)
        elif d == "d":
            t = self.idx(r, c, 2)
        elif d == "l":
            t = self.idx(r, c - 1, 3)
        else:
            t = self.idx(r - 1, c, 2)
        self.layers[layer]["line"]["%d,%d" % (self.idx(r, c), t)] = style

    def linex(self, a, b, layer="p"):
        """cross mark: no line between two adjacent cells"""
        a, b = sorted([a, b])
        self.layers[layer]["line"]["%d" % self.idx(a[0], a[1], 3 if a[0] == b[0] else 2)] = 98

    # -- text form
    def parts(self):
        m = self.margin
        H, W = self.rows + m[0] + m[1], self.cols + m[2] + m[3]
        n = (H + 4) * (W + 4)
        boardlist = [self.idx(r, c) for r in range(self.rows) for c in range(self.cols)]
        diffs = [boardlist[0]] + [b - a for a, b in zip(boardlist, boardlist[1:])]
        header = "%s,%d,%d,38,0,1,1,%d,%d,%d,%d,0,0,0,0,%s,Author: ,,,OFF,false" % (
            self.shape, W, H, 38 * (W + 1), 38 * (H + 1), n // 2, n // 2, self.title)
        qa = ('{z9:zA,zG:["1","2","1"],zQ:{zM:zN,zS:["",4],zL:["1",2],zE:["1",2],zW:["",2],zC:["1",10],zN:["1",6],'
              'zY:["circle_L",1],zP:[zT,""],zB:["",""],"move":["1",""],"combi":["battleship",""],"sudoku":["1",1]},'
              'zA:{zM:zS,zS:["",2],zL:["1",3],zE:["1",3],zW:["",3],zC:["1",10],zN:["1",6],zY:["circle_L",1],'
              'zP:[zT,""],zB:["",""],"move":["1",""],"combi":["blpo",""],"sudoku":["1",9]}}')
        p = [header, json.dumps(list(m), separators=(",", ":")), qa, pack_layer(self.layers["p"]),
             pack_layer(self.layers["a"]), json.dumps(diffs, separators=(",", ":")), '["Surface"]', "{}", '"x"',
             '"x"', "[3,1,4]", qa, '"x"', "0", '{zR:{z_:[]},zU:{z_:[]},z8:{z_:[]},zS:{}}', "{}", "{}", "[]", ""]
        if self.extra:
            p += list(self.extra)
        return p

    def url(self):
        return text_to_url("\n".join(self.parts()))

    def copy(self):
        b = Board(self.rows, self.cols, self.margin, self.shape)
        b.layers = json.loads(json.dumps(self.layers))
        b.title, b.extra = self.title, self.extra
        return b


def parse(url):
    """URL -> Board (layers as written)."""
    parts = url_to_text(url).split("\n")
    h = parts[0].split(",")
    m = json.loads(parts[1])
    b = Board(int(h[2]) - m[0] - m[1], int(h[1]) - m[2] - m[3], m, h[0])
    b.layers = {"p": unpack_layer(parts[3]), "a": unpack_layer(parts[4])}
    b.raw_parts = parts
    return b


# --- reading a board as a person would: both layers on top of each other, problem layer wins -----------------

DIRS = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
OPP = {"u": "d", "d": "u", "l": "r", "r": "l"}


class View:
    """Everything visible on a board: surfaces, texts, symbols, borders, half-lines."""

    def __init__(self, board, layers=("a", "p")):
        self.b = board
        self.rows, self.cols = board.rows, board.cols
        self.surface, self.number, self.symbol = {}, {}, {}
        self.tops, self.lefts, self.diags, self.halves = set(), set(), set(), {}
        self.xtops, self.xlefts = set(), set()
        for name in layers:
            lay = board.layers[name]
            for k, v in lay["surface"].items():
                r, c, cat = board.unidx(int(k))
                self.surface[r, c] = v
            for k, v in lay["number"].items():
                self.number[board.unidx(int(k))] = v
            for k, v in lay["symbol"].items():
                self.symbol[board.unidx(int(k))] = v
            for k, v in lay["edge"].items():
                self._edge(k)
            for k, v in lay["line"].items():
                self._line(k, v)

    def _edge(self, k):
        if "," not in k:
            r, c, cat = self.b.unidx(int(k))
            if cat == 2:
                self.xtops.add((r + 1, c))
            if cat == 3:
                self.xlefts.add((r, c + 1))
            return
        i, j = sorted(map(int, k.split(",")))
        r1, c1, k1 = self.b.unidx(i)
        r2, c2, k2 = self.b.unidx(j)
        assert k1 == 1 and k2 == 1, "edge between non-vertices %s" % k
        if r1 == r2 and c2 == c1 + 1:
            self.tops.add((r1 + 1, c2))
        elif c1 == c2 and r2 == r1 + 1:
            self.lefts.add((r2, c1 + 1))
        elif r2 == r1 + 1 and c2 == c1 + 1:
            self.diags.add((r2, c2, "\\"))
        elif r2 == r1 + 1 and c2 == c1 - 1:
            self.diags.add((r2, c1, "/"))
        else:
            raise AssertionError("odd edge %s" % k)

    def _line(self, k, v):
        if "," not in k:
            return
        i, j = map(int, k.split(","))
        r1, c1, k1 = self.b.unidx(i)
        r2, c2, k2 = self.b.unidx(j)
        if k1 == 0 and k2 == 0:
            if r1 == r2 and abs(c1 - c2) == 1:
                a, b = ("r", "l") if c1 < c2 else ("l", "r")
            elif c1 == c2 and abs(r1 - r2) == 1:
                a, b = ("d", "u") if r1 < r2 else ("u", "d")
            else:
                raise AssertionError("odd line %s" % k)
            self.halves[r1, c1, a] = v
            self.halves[r2, c2, b] = v
        else:
            if k1 != 0:
                (r1, c1, k1), (r2, c2, k2) = (r2, c2, k2), (r1, c1, k1)
            if k2 == 2:
                d = {0: "d", -1: "u"}[r2 - r1] if c1 == c2 else None
            elif k2 == 3:
                d = {0: "r", -1: "l"}[c2 - c1] if r1 == r2 else None
            else:
                d = None
            assert k1 == 0 and d, "odd line %s" % k
            self.halves[r1, c1, d] = v

    def shaded(self):
        return frozenset((r, c) for (r, c), v in self.surface.items() if v in (1, 3, 4, 8))

    def inside(self, r, c):
        return 0 <= r < self.rows and 0 <= c < self.cols
