"""Reference rules of the variety puzzles.

A filling is a tuple with one entry per cell, or a mask of shaded cells, or a division into regions.
"""

import itertools

from nx import grids
from nx.grids import bits, grid, pop
from nx.spec import Case, QMARKS, Retry, Shade, Spec, put_num, register, wchoice
from nx.specs.num import Fillomino, Num, draw_rooms, latin_groups, neighbours, random_dominoes, room_cells, some_rooms
from nx.specs.region import Rects, covers, no_cross, rects


class Sym(Num):
    """fillings made of symbols; `names` gives value -> (shape, style)"""
    family = "var"
    names = {}
    none = 0             # value of a cell without a symbol
    empty_style = None   # (shapes, styles) marking a cell that stays without a symbol
    layers = ("a", "p")

    def can_give(self, case, i, v):
        return v != self.none or self.empty_style is not None

    def give(self, board, rng, i, G, v, data):
        r, c = G.cells[i]
        lay = "p" if rng.random() < 0.6 else "a"
        if v == self.none:
            shapes, styles = self.empty_style
            board.sym(r, c, rng.choice(shapes), rng.choice(styles), layer=lay)
        else:
            board.sym(r, c, *self.names[v], layer=lay)

    def read(self, case, i, s):
        for v, n in self.names.items():
            if (s[1], s[0]) == n:
                return v
        if s is not None and self.empty_style and s[1] in self.empty_style[0] and s[0] in self.empty_style[1]:
            return self.none
        return "?%s__%s" % (s[1], s[0])

    def view(self, case, view):
        G = case.G
        out = [None] * G.N
        if self.layers != ("a", "p"):
            from nx.penpa import View
            view = View(view.b, self.layers)
        for i in self.cells(G, case.data):
            s = view.symbol.get((*G.cells[i], 0))
            out[i] = self.none if s is None else self.read(case, i, s)
        return self.also(case, view, tuple(out))

    def wrong(self, G, data, i):
        return ()

    wrong_given_p = 0


def dig(v, q, rng):
    return rng.choice(QMARKS) if rng.random() < q else v


def lines_of(G, cells):
    """maximal straight runs of the given cells"""
    out = []
    for ln in latin_groups(G):
        cur = []
        for i in ln:
            if i in cells:
                cur.append(i)
            elif cur:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
    return out


@register
class Akari(Sym):
    name = "akari"
    names = {1: ("sun_moon", 3)}
    sizes = [((3, 3), 1), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((4, 5), 2), ((5, 4), 1), ((5, 5), 2), ((2, 5), 1), ((1, 6), .3), ((6, 1), .3), ((5, 6), 1)]

    def setup(self, rng, G, data):
        p = rng.choice([0, 0.1, 0.2, 0.3, 0.4])
        data["walls"] = frozenset(i for i in range(G.N) if rng.random() < p)
        if len(data["walls"]) == G.N:
            raise Retry("all walls")

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["walls"]]

    def dom(self, G, data, i):
        return (0, 1)

    def constraints(self, G, data):
        act = set(self.cells(G, data))
        seg = {}
        for ln in lines_of(G, act):
            for i in ln:
                seg.setdefault(i, []).append(ln)
            for a, b in itertools.combinations(ln, 2):
                yield ((a, b), lambda v, a=a, b=b: not (v[a] and v[b]))
        for i in act:
            see = sorted({j for ln in seg[i] for j in ln})
            yield (see, lambda v, see=see: any(v[j] for j in see))

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.6, 1])
        for i in data["walls"]:
            if rng.random() < p:
                data["clues"][i] = dig(sum(s[j] or 0 for j in neighbours(G, i)), 0.1, rng)

    def perturb(self, rng, G, data):
        ks = sorted(k for k, v in data["clues"].items() if isinstance(v, int))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        for i, n in data["clues"].items():
            if isinstance(n, int):
                nb = [j for j in neighbours(G, i) if j not in data["walls"]]
                yield (nb, lambda v, nb=nb, n=n: sum(v[j] for j in nb) == n)

    def draw(self, board, rng, G, data):
        for i in data["walls"]:
            board.surf(*G.cells[i], rng.choice([4, 4, 4, 1, 3, 8]))
            if i in data["clues"]:
                put_num(board, rng, *G.cells[i], data["clues"][i])


@register
class Binairo(Sym):
    name = "binairo"
    large_sizes = [((6, 6), 2), ((6, 8), 1), ((8, 6), 1), ((8, 8), 1)]
    names = {1: ("circle_M", 1), 2: ("circle_M", 2)}
    none = None
    sizes = [((4, 4), 3), ((2, 2), .3), ((4, 6), 3), ((6, 4), 3), ((2, 4), .3), ((4, 2), .3), ((6, 6), 2)]

    def dom(self, G, data, i):
        return (1, 2)

    def constraints(self, G, data):
        for k in (0, 1):
            ls = latin_groups(G)[:G.R] if not k else latin_groups(G)[G.R:]
            for ln in ls:
                n = len(ln) // 2
                for e in range(1, len(ln) + 1):
                    yield (ln[:e], lambda v, p=ln[:e], n=n: sum(v[i] == 1 for i in p) <= n and sum(v[i] == 2 for i in p) <= n)
                for a, b, c in zip(ln, ln[1:], ln[2:]):
                    yield ((a, b, c), lambda v, a=a, b=b, c=c: not v[a] == v[b] == v[c])
            for x, y in itertools.combinations(ls, 2):
                yield (x + y, lambda v, x=x, y=y: [v[i] for i in x] != [v[i] for i in y])


@register
class Gokigen(Num):
    name, family = "gokigen", "var"
    sizes = [((2, 2), 1), ((2, 3), 2), ((3, 2), 2), ((3, 3), 4), ((3, 4), 2), ((4, 3), 2), ((1, 4), .5), ((4, 1), .5), ((4, 4), 2), ((4, 5), 1), ((1, 1), .2)]
    budget = 60000
    cap = 250

    def dom(self, G, data, i):
        return ("/", "\\")

    def corners(self, G, r, c):
        """cells around the vertex at the upper left of (r, c), with the stroke that touches it"""
        return [(G.i(a, b), "\\" if (a - r) == (b - c) else "/") for a in (r - 1, r) for b in (c - 1, c) if G.ins(a, b)]

    def constraints(self, G, data):
        for i in range(G.N):
            yield ((i,), lambda v, i=i: self.no_loop(G, v, i))

    def no_loop(self, G, v, last):
        p = {}

        def find(x):
            while p.get(x, x) != x:
                x = p[x]
            return x
        for i in range(last + 1):
            r, c = G.cells[i]
            a, b = ((r, c + 1), (r + 1, c)) if v[i] == "/" else ((r, c), (r + 1, c + 1))
            a, b = find(a), find(b)
            if a == b:
                return False
            p[a] = b
        return True

    def clues(self, rng, G, s, data):
        p = rng.choice([0.3, 0.5, 0.7, 1]) if G.N > 4 else rng.random()
        for r in range(G.R + 1):
            for c in range(G.C + 1):
                if rng.random() < p:
                    data["clues"][r, c] = dig(sum(s[i] == ch for i, ch in self.corners(G, r, c)), 0.05, rng)

    def perturb(self, rng, G, data):
        ks = sorted(k for k, v in data["clues"].items() if isinstance(v, int))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        for (r, c), n in data["clues"].items():
            if isinstance(n, int):
                cs = self.corners(G, r, c)
                yield ([i for i, _ in cs], lambda v, cs=cs, n=n: sum(v[i] == ch for i, ch in cs) == n)

    def can_give(self, case, i, v):
        return False

    givens_p = 0

    def draw(self, board, rng, G, data):
        for (r, c), v in data["clues"].items():
            put_num(board, rng, r - 1, c - 1, v, 1)

    def view(self, case, view):
        G = case.G
        out = []
        for r, c in G.cells:
            got = [ch for ch in "/\\" if (r, c, ch) in view.diags]
            out.append(got[0] if len(got) == 1 else "?%s" % got)
        return tuple(out)


def same_rooms(board, rng, G, data):
    draw_rooms(board, rng, G, data["rooms"])


class RoomSym(Sym):
    room_min = 1
    avg = [3, 4, 5]

    def setup(self, rng, G, data):
        for _ in range(40):
            rooms = some_rooms(rng, G, self.avg)
            if min(map(pop, rooms)) >= self.room_min:
                break
        else:
            raise Retry("rooms")
        data["rooms"] = rooms
        data["ix"] = grids.room_index(G, rooms)
        data["rc"] = room_cells(rooms)

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])


@register
class Hakoiri(RoomSym):
    name = "hakoiri"
    names = {1: ("ox_E", 1), 2: ("ox_E", 2), 3: ("ox_E", 3)}
    empty_style = (("ox_B", "ox_E"), (4, 7, 8))
    none = None
    room_min = 3
    avg = [4, 5, 6]
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 4), 1), ((4, 2), 1), ((3, 5), 1), ((5, 3), 1), ((1, 4), .2), ((1, 3), .2)]

    def dom(self, G, data, i):
        return (None, 1, 2, 3)

    def constraints(self, G, data):
        for cells in data["rc"]:
            for k in (1, 2, 3):
                yield (cells, lambda v, cells=cells, k=k: sum(v[i] == k for i in cells) == 1)
                yield (cells[:-1], lambda v, cells=cells[:-1], k=k: sum(v[i] == k for i in cells) <= 1)
            for e in range(1, len(cells)):
                yield (cells[:e], lambda v, p=cells[:e], left=len(cells) - e: sum(v[i] is not None for i in p) + left >= 3
                       and len([v[i] for i in p if v[i]]) == len({v[i] for i in p if v[i]}))
        for i in range(G.N):
            for j in bits(G.nb8[i]):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] is None or v[i] != v[j])

    def final(self, G, data, vals):
        return G.connected(sum(1 << i for i in range(G.N) if vals[i]))

    def give(self, board, rng, i, G, v, data):
        r, c = G.cells[i]
        if v is not None:
            board.sym(r, c, "ox_E", v, layer="p" if rng.random() < 0.6 else "a")
        else:
            super().give(board, rng, i, G, v, data)


@register
class Juosan(RoomSym):
    name = "juosan"
    avg = [2, 3, 4]
    sizes = [((2, 3), 1), ((3, 2), 1), ((3, 3), 4), ((3, 4), 2), ((4, 3), 2), ((2, 5), 1), ((5, 2), 1), ((1, 5), .4), ((5, 1), .4)]
    cap = 300
    givens_p = 0
    budget = 40000

    def dom(self, G, data, i):
        return ("-", "|")

    def constraints(self, G, data):
        for r, c in G.cells:
            if r + 2 < G.R:
                t = [G.i(r + k, c) for k in range(3)]
                yield (t, lambda v, t=t: any(v[i] != "-" for i in t))
            if c + 2 < G.C:
                t = [G.i(r, c + k) for k in range(3)]
                yield (t, lambda v, t=t: any(v[i] != "|" for i in t))

    def clues(self, rng, G, s, data):
        p = rng.choice([0.5, 0.8, 1])
        for k, cells in enumerate(data["rc"]):
            if rng.random() < p:
                h = sum(s[i] == "-" for i in cells)
                data["clues"][k] = dig(rng.choice([h, len(cells) - h]), 0.08, rng)
        data["at"] = {k: rng.choice(cells) if rng.random() < 0.3 else cells[0] for k, cells in enumerate(data["rc"])}

    def perturb(self, rng, G, data):
        ks = sorted(k for k, v in data["clues"].items() if isinstance(v, int))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        for k, n in data["clues"].items():
            if isinstance(n, int):
                cells = data["rc"][k]
                yield (cells, lambda v, cells=cells, n=n: n in (sum(v[i] == "-" for i in cells), sum(v[i] == "|" for i in cells)))

    def can_give(self, case, i, v):
        return False

    def draw(self, board, rng, G, data):
        super().draw(board, rng, G, data)
        for k, v in data["clues"].items():
            board.sud(*G.cells[data["at"][k]], 0, str(v) if rng.random() < 0.5 else v)

    def view(self, case, view):
        G = case.G
        out = []
        for r, c in G.cells:
            v = view.number.get((r, c, 0))
            t = None if v is None else v[0]
            out.append("|" if t == "|" else "-" if t and set(t) <= set("-—") else "?%s" % t)
        return tuple(out)


@register
class Magnets(Sym):
    name = "magnets"
    names = {"+": ("math_G", 2), "-": ("math_G", 3)}
    none = None
    margin = (1, 1, 1, 1)
    sizes = [((3, 4), 2), ((4, 3), 2), ((4, 4), 3), ((2, 3), 1), ((2, 5), 1), ((1, 4), .3), ((4, 1), .3), ((4, 5), 2), ((5, 4), 2), ((2, 2), .4), ((5, 6), .5)]

    def setup(self, rng, G, data):
        for _ in range(60):
            d = random_dominoes(rng, G)
            if d is not None:
                data["dom"] = [tuple(bits(m)) for m in d]
                return
        raise Retry("no dominoes")

    def dom(self, G, data, i):
        return (None, "+", "-")

    def constraints(self, G, data):
        for a, b in data["dom"]:
            yield ((a, b), lambda v, a=a, b=b: (v[a], v[b]) in ((None, None), ("+", "-"), ("-", "+")))
        for i in range(G.N):
            for j in neighbours(G, i):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] is None or v[i] != v[j])

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.5, 0.8, 1])
        data["clues"] = {}
        for k, ln in enumerate(latin_groups(G)):
            for ch in "+-":
                if rng.random() < p:
                    data["clues"][k, ch] = sum(s[i] == ch for i in ln)

    def perturb(self, rng, G, data):
        ks = sorted(data["clues"])
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        ls = latin_groups(G)
        for (k, ch), n in data["clues"].items():
            ln = ls[k]
            yield (ln, lambda v, ln=ln, ch=ch, n=n: sum(v[i] == ch for i in ln) == n)
            for e in range(1, len(ln)):
                yield (ln[:e], lambda v, p=ln[:e], ch=ch, n=n: sum(v[i] == ch for i in p) <= n)

    def draw(self, board, rng, G, data):
        rooms = [1 << a | 1 << b for a, b in data["dom"]]
        draw_rooms(board, rng, G, rooms)
        for (k, ch), n in data["clues"].items():
            if k < G.R:
                put_num(board, rng, k, -1 if ch == "+" else G.C, n)
            else:
                put_num(board, rng, -1 if ch == "+" else G.R, k - G.R, n)

    def can_give(self, case, i, v):
        return v is None

    def give(self, board, rng, i, G, v, data):
        board.surf(*G.cells[i], rng.choice([1, 3, 4, 4, 8]), "p" if rng.random() < 0.5 else "a")

    def also(self, case, view, vals):
        G = case.G
        for i in range(G.N):
            if (vals[i] is None) != (G.cells[i] in view.shaded()):
                return "cell %s: symbol %s, shaded %s" % (G.cells[i], vals[i], G.cells[i] in view.shaded())
        return vals


@register
class Mines(Sym):
    name = "mines"
    names = {1: ("sun_moon", 4)}
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((2, 5), 1), ((1, 5), .3), ((5, 1), .3), ((4, 5), 1), ((5, 5), 1)]
    counted = False

    def setup(self, rng, G, data):
        data["n"] = None

    def params(self, rng, data):
        return {} if rng.random() < 0.5 else {"mine_count": ""}

    def dom(self, G, data, i):
        return (0, 1)

    def constraints(self, G, data):
        return []

    def secret(self, rng, G, data):
        p = rng.choice([0.15, 0.3, 0.5])
        s = tuple(int(rng.random() < p) for _ in range(G.N))
        if self.counted:
            data["n"] = sum(s)
        return s

    def clues(self, rng, G, s, data):
        p = rng.choice([0.3, 0.6, 0.9])
        data["clues"] = {i: sum(s[j] for j in bits(G.nb8[i])) for i in range(G.N) if not s[i] and rng.random() < p}

    def perturb(self, rng, G, data):
        if self.counted and rng.random() < 0.5:
            data["n"] = max(0, data["n"] + rng.choice([-1, 1]))
            return
        super().perturb(rng, G, data)

    def clue_constraints(self, G, data):
        for i, n in data["clues"].items():
            nb = bits(G.nb8[i])
            yield ((i,), lambda v, i=i: not v[i])
            yield (nb, lambda v, nb=nb, n=n: sum(v[j] for j in nb) == n)
            for e in range(1, len(nb)):
                yield (nb[:e], lambda v, p=nb[:e], n=n: sum(v[j] for j in p) <= n)

    def final(self, G, data, vals):
        return data["n"] is None or sum(vals) == data["n"]

    def draw(self, board, rng, G, data):
        for i, n in data["clues"].items():
            put_num(board, rng, *G.cells[i], n)

    def can_give(self, case, i, v):
        return v == 1 and i not in case.data["clues"]


@register
class MinesCount(Mines):
    name, solver, family = "mines/mine_count", "mines", "option"
    counted = True

    def make(self, rng, oracle=None):
        case = super().make(rng, oracle)
        case.params = {"mine_count": str(case.data["n"])} if case.data["n"] is not None else {}
        return case


@register
class News(RoomSym):
    name = "news"
    none = None
    empty_style = (("ox_B", "ox_E"), (4, 7, 8))
    room_min = 2
    avg = [3, 4, 5, 6]
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((2, 4), 1), ((4, 2), 1), ((1, 4), .4), ((4, 1), .4), ((4, 5), .5), ((5, 4), .5)]

    def dom(self, G, data, i):
        return (None, "N", "E", "W", "S")

    def constraints(self, G, data):
        for ln in latin_groups(G):
            for a, b in itertools.combinations(ln, 2):
                yield ((a, b), lambda v, a=a, b=b: v[a] is None or v[a] != v[b])
        for cells in data["rc"]:
            yield (cells, lambda v, cells=cells: sum(v[i] is not None for i in cells) == 2)
            for a, b in itertools.combinations(cells, 2):
                yield ((a, b), lambda v, a=a, b=b: self.pair(G, v, a, b))
                yield ((a, b), lambda v, a=a, b=b: self.pair(G, v, b, a))
            for e in range(3, len(cells)):
                yield (cells[:e], lambda v, p=cells[:e]: sum(v[i] is not None for i in p) <= 2)

    def pair(self, G, v, a, b):
        if v[a] is None or v[b] is None:
            return True
        if v[a] == v[b]:
            return False
        (r, c), (r2, c2) = G.cells[a], G.cells[b]
        return {"N": r < r2, "S": r > r2, "W": c < c2, "E": c > c2}[v[a]]

    def give(self, board, rng, i, G, v, data):
        if v is None:
            super().give(board, rng, i, G, v, data)
        else:
            board.num(*G.cells[i], v, layer="p" if rng.random() < 0.6 else "a")

    def view(self, case, view):
        G = case.G
        out = []
        for r, c in G.cells:
            v = view.number.get((r, c, 0))
            out.append(v and v[0])
        return tuple(out)


@register
class Nondango(RoomSym):
    name = "nondango"
    names = {1: ("circle_M", 1), 2: ("circle_M", 2)}
    none = None
    layers = ("a",)
    avg = [2, 3, 4]
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((2, 5), 1), ((1, 6), .5), ((6, 1), .5), ((5, 4), 1), ((5, 5), 1)]

    def setup(self, rng, G, data):
        super().setup(rng, G, data)
        p = rng.choice([0.6, 0.8, 1])
        data["dots"] = sorted(i for i in range(G.N) if rng.random() < p)
        if not data["dots"]:
            raise Retry("no circles")

    def cells(self, G, data):
        return data["dots"]

    def dom(self, G, data, i):
        return (1, 2)

    def constraints(self, G, data):
        dots = set(data["dots"])
        for cells in data["rc"]:
            cs = [i for i in cells if i in dots]
            if not cs:
                yield ((), lambda v: False)
            else:
                yield (cs, lambda v, cs=cs: sum(v[i] == 2 for i in cs) == 1)
                yield (cs[:-1], lambda v, cs=cs[:-1]: sum(v[i] == 2 for i in cs) <= 1)
        for r, c in G.cells:
            for a, b in ((0, 1), (1, 0), (1, 1), (1, -1)):
                if G.ins(r + 2 * a, c + 2 * b):
                    t = [G.i(r + k * a, c + k * b) for k in range(3)]
                    if all(i in dots for i in t):
                        yield (t, lambda v, t=t: not v[t[0]] == v[t[1]] == v[t[2]])

    def secret(self, rng, G, data):
        dots = set(data["dots"])
        if any(not any(i in dots for i in cells) for cells in data["rc"]):
            raise Retry("room without circle")
        return super().secret(rng, G, data)

    def draw(self, board, rng, G, data):
        super().draw(board, rng, G, data)
        for i in data["dots"]:
            board.sym(*G.cells[i], "circle_M", 4)

    def give(self, board, rng, i, G, v, data):
        board.sym(*G.cells[i], *self.names[v], layer="a")


_opp = {"ul": "dr", "dr": "ul", "ur": "dl", "dl": "ur"}
# the octants around a vertex in clockwise order: (cell offset, corner of that cell, its side next to the octant)
_OCT = [((-1, 0), "dl", "l"), ((-1, 0), "dl", "d"), ((0, 0), "ul", "u"), ((0, 0), "ul", "l"),
        ((0, -1), "ur", "r"), ((0, -1), "ur", "u"), ((-1, -1), "dr", "d"), ((-1, -1), "dr", "r")]


@register
class Shakashaka(Sym):
    name = "shakashaka"
    names = {"ul": ("tri", 1), "dl": ("tri", 2), "dr": ("tri", 3), "ur": ("tri", 4)}
    none = 0
    givens_p = 0
    sizes = [((2, 2), 1), ((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 4), ((2, 5), 1), ((5, 2), 1), ((4, 5), 2), ((5, 4), 2), ((5, 5), 2), ((1, 4), .2)]
    budget = 120000
    cap = 250

    def setup(self, rng, G, data):
        p = rng.choice([0, 0.1, 0.2, 0.3])
        data["walls"] = frozenset(i for i in range(G.N) if rng.random() < p)
        if len(data["walls"]) == G.N:
            raise Retry("all walls")

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["walls"]]

    def dom(self, G, data, i):
        return (0, "ul", "dl", "dr", "ur")

    def constraints(self, G, data):
        for r in range(G.R + 1):
            for c in range(G.C + 1):
                around = [((r + a, c + b), k, s) for (a, b), k, s in _OCT]
                scope = sorted({G.i(*x) for x, _, _ in around if G.ins(*x) and G.i(*x) not in data["walls"]})
                if scope:
                    yield (scope, lambda v, around=around: self.right_angles(G, data, v, around))

    def right_angles(self, G, data, v, around):
        oct_ = []
        for (r, c), corner, side in around:
            if not G.ins(r, c) or G.i(r, c) in data["walls"]:
                oct_.append(False)
                continue
            t = v[G.i(r, c)]
            oct_.append(t == 0 or t != corner and (_opp[t] == corner or side not in t))
        if all(oct_):
            return True
        k = oct_.index(False)
        return all(n in (2, 4) for n in grids.runs(oct_[k:] + oct_[:k]))

    def secret(self, rng, G, data):
        best = None
        for _ in range(3):
            s = super().secret(rng, G, data)
            if s is not None and (best is None or sum(bool(x) for x in s) > sum(bool(x) for x in best)):
                best = s
        return best

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.6, 1])
        for i in data["walls"]:
            if rng.random() < p:
                data["clues"][i] = dig(sum(bool(s[j]) for j in neighbours(G, i)), 0.1, rng)

    def perturb(self, rng, G, data):
        ks = sorted(k for k, v in data["clues"].items() if isinstance(v, int))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        for i, n in data["clues"].items():
            if isinstance(n, int):
                nb = [j for j in neighbours(G, i) if j not in data["walls"]]
                yield (nb, lambda v, nb=nb, n=n: sum(bool(v[j]) for j in nb) == n)

    def draw(self, board, rng, G, data):
        for i in data["walls"]:
            board.surf(*G.cells[i], rng.choice([4, 4, 4, 1, 3, 8]))
            if i in data["clues"]:
                put_num(board, rng, *G.cells[i], data["clues"][i])

    def can_give(self, case, i, v):
        return False


class Stars(Sym):
    large_sizes = None
    names = {1: ("star", 2)}
    empty_style = (("star",), (0,))
    k = 1
    ns = [(4, 1), (5, 3), (6, 2), (7, 1)]
    budget = 60000

    def size(self, rng):
        n = wchoice(rng, self.ns)
        return n, n

    def setup(self, rng, G, data):
        data["k"] = self.k
        rows = []
        n, k = G.R, self.k
        combos = [x for x in itertools.combinations(range(n), k) if all(b - a > 1 for a, b in zip(x, x[1:]))]
        left = [20000]

        def go(count):
            left[0] -= 1
            if left[0] < 0:
                raise Retry("stars")
            r = len(rows)
            if r == n:
                return True
            rng.shuffle(combos)
            for x in list(combos):
                if rows and any(abs(a - b) <= 1 for a in x for b in rows[-1]):
                    continue
                c2 = list(count)
                for a in x:
                    c2[a] += 1
                if max(c2) > k or any(c2[c] + (n - r) // 2 < k and c2[c] + n - r - 1 < k for c in range(n)):
                    continue
                rows.append(x)
                if go(c2):
                    return True
                rows.pop()
            return False
        if not go([0] * n):
            raise Retry("no stars")
        stars = [G.i(r, c) for r in range(n) for c in rows[r]]
        data["s"] = tuple(int(i in set(stars)) for i in range(G.N))
        data["rooms"] = self.rooms(rng, G, stars)
        data["rc"] = room_cells(data["rooms"])

    def rooms(self, rng, G, stars):
        """rooms of k stars each: a random spanning growth around groups of close stars"""
        k = self.k
        for _ in range(200):
            own = {}
            left = set(stars)
            groups = []
            while left:
                a = rng.choice(sorted(left))
                g = [a]
                left.discard(a)
                while len(g) < k:
                    b = min(left, key=lambda j: min(abs(G.cells[j][0] - G.cells[i][0]) + abs(G.cells[j][1] - G.cells[i][1]) for i in g) + rng.random())
                    g.append(b)
                    left.discard(b)
                groups.append(g)
            masks = []
            used = sum(1 << s for s in stars)
            ok = True
            for g in groups:      # join the stars of a group by a path avoiding everything else
                m = 1 << g[0]
                for b in g[1:]:
                    free = G.full & ~used & ~m
                    prev, todo = {i: None for i in bits(m)}, bits(m)
                    rng.shuffle(todo)
                    hit = None
                    while todo and hit is None:
                        nxt = []
                        for i in todo:
                            nb = bits(G.nb[i])
                            rng.shuffle(nb)
                            for j in nb:
                                if j not in prev and (j == b or free >> j & 1):
                                    prev[j] = i
                                    nxt.append(j)
                                    if j == b:
                                        hit = j
                        todo = nxt
                    if hit is None:
                        ok = False
                        break
                    while hit is not None:
                        m |= 1 << hit
                        hit = prev[hit]
                    used |= m
                if not ok:
                    break
                masks.append(m)
            if not ok:
                continue
            while True:
                un = G.full
                for m in masks:
                    un &= ~m
                if not un:
                    return masks
                opts = [(x, i) for x, m in enumerate(masks) for i in bits(G.grow(m) & un)]
                x, i = rng.choice(opts)
                masks[x] |= 1 << i
            own.clear()
        raise Retry("rooms")

    def secret(self, rng, G, data):
        return data["s"]

    def dom(self, G, data, i):
        return (0, 1)

    def constraints(self, G, data):
        k = data["k"]
        for ln in latin_groups(G) + data["rc"]:
            n = len(ln)
            for e in range(1, n + 1):
                yield (ln[:e], lambda v, p=ln[:e], rest=n - e: k - rest <= sum(v[i] for i in p) <= k)
        for i in range(G.N):
            for j in bits(G.nb8[i]):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: not (v[i] and v[j]))

    def perturb(self, rng, G, data):
        pass

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])
        if rng.random() < 0.2:      # the reminder drawn above the grid says nothing
            board.sym(-1, rng.randrange(G.C), "star", rng.choice([0, 2]))

    def new_board(self, rng, R, C):
        self.margin = (1, 0, 0, 0)
        return super().new_board(rng, R, C)


@register
class StarBattle2(Stars):
    name, solver, family = "starbattle", "starbattle", "var"
    k = 2
    ns = [(8, 3), (9, 2), (10, 1)]

    def params(self, rng, data):
        return rng.choice([{}, {"stars": "2"}])


@register
class StarBattle1(Stars):
    name, solver, family = "starbattle/stars", "starbattle", "option"

    def params(self, rng, data):
        return {"stars": "1"}


@register
class StarBattle3(Stars):
    name, solver, family = "starbattle/stars3", "starbattle", "option"
    k = 3
    ns = [(12, 1)]
    weight = 0.3

    def params(self, rng, data):
        return {"stars": "3"}


@register
class Tents(Sym):
    name = "tents"
    names = {1: ("tents", 2)}
    margin = (1, 0, 1, 0)
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((2, 5), 1), ((1, 5), .5), ((5, 1), .5), ((4, 5), 1), ((5, 5), 2), ((5, 6), 1)]

    def setup(self, rng, G, data):
        """tents first, each with a tree beside it"""
        tents, trees = set(), set()
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6])):
            free = [i for i in range(G.N) if i not in tents | trees and not any(j in tents for j in bits(G.nb8[i]))]
            if not free:
                break
            i = rng.choice(free)
            nb = [j for j in neighbours(G, i) if j not in tents | trees]
            if nb:
                tents.add(i)
                trees.add(rng.choice(nb))
        data["trees"] = frozenset(trees)
        data["s"] = tuple(None if i in trees else int(i in tents) for i in range(G.N))

    def secret(self, rng, G, data):
        return data["s"]

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["trees"]]

    def dom(self, G, data, i):
        return (0, 1) if any(j in data["trees"] for j in neighbours(G, i)) else (0,)

    def constraints(self, G, data):
        act = set(self.cells(G, data))
        for i in act:
            for j in bits(G.nb8[i]):
                if j > i and j in act:
                    yield ((i, j), lambda v, i=i, j=j: not (v[i] and v[j]))

    def final(self, G, data, vals):
        tents = [i for i in range(G.N) if vals[i]]
        if len(tents) != len(data["trees"]):
            return False
        mate = {}

        def place(t, seen):
            for x in neighbours(G, t):
                if x in data["trees"] and x not in seen:
                    seen.add(x)
                    if x not in mate or place(mate[x], seen):
                        mate[x] = t
                        return True
            return False
        return all(place(t, set()) for t in tents)

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.5, 1])
        for k, ln in enumerate(latin_groups(G)):
            if rng.random() < p:
                data["clues"][k] = dig(sum(s[i] == 1 for i in ln), 0.06, rng)

    def perturb(self, rng, G, data):
        ks = sorted(k for k, v in data["clues"].items() if isinstance(v, int))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        ls = latin_groups(G)
        for k, n in data["clues"].items():
            if isinstance(n, int):
                ln = [i for i in ls[k] if i not in data["trees"]]
                yield (ln, lambda v, ln=ln, n=n: sum(v[i] for i in ln) == n)

    def draw(self, board, rng, G, data):
        for i in data["trees"]:
            board.sym(*G.cells[i], "tents", 1)
        for k, v in data["clues"].items():
            put_num(board, rng, *((k, -1) if k < G.R else (-1, k - G.R)), v)


@register
class Fillmat(Rects):
    name, family = "fillmat", "var"
    kind, crossing, one_clue, q = "mat", False, False, 0.1
    cap = 150

    def differ(self, G, d):
        ix = grids.room_index(G, d)
        size = [pop(m) for m in d]
        return all(ix[i] == ix[j] or size[ix[i]] != size[ix[j]] for i in range(G.N) for j in bits(G.nb[i]))

    def close(self, G):
        corner = self.corner_free(G)

        def last(m, chosen):
            if not corner(m, chosen):
                return False
            near = G.grow(m)
            return all(pop(x) != pop(m) or not x & near for x in chosen)
        return last

    def region_ok(self, G, m, data):
        return min(G.dims(m)) == 1 and max(G.dims(m)) == pop(m) <= 4 and self.fits(G, m, data)

    def together_ok(self, G, regs, data):
        return no_cross(G, regs) and self.differ(G, regs)

    def parts(self, G, full, data):
        return covers(self.table(G), full, ok=lambda m: self.fits(G, m, data))

    def random_division(self, rng, G, full, data):
        for d in covers(self.table(G), full, limit=5000, rng=rng, last=self.close(G)):
            if no_cross(G, d) and self.differ(G, d):
                return d
        return None

    def table(self, G):
        key = (G.R, G.C)
        if key not in self._t:
            self._t[key] = [[m for m in ms if pop(m) <= 4] for ms in rects(G, "strip")]
        return self._t[key]

    _t = {}

    def value(self, rng, G, m, i):
        return pop(m)

    def agrees(self, G, m, i, v):
        return pop(m) == v

    def divisions(self, G, full, data):
        for d in covers(self.table(G), full, ok=lambda m: self.fits(G, m, data), last=self.close(G)):
            if no_cross(G, d) and self.differ(G, d):
                yield d


@register
class Symmarea(Fillomino):
    name, solver, family = "symmarea", "symmarea", "var"
    fast = False

    def params(self, rng, data):
        return rng.choice([{}, {"fast_mode": False}])

    def final(self, G, data, vals):
        for c in self.comps(G, vals):
            if len(c) != vals[min(c)]:
                return False
            cs = {G.cells[i] for i in c}
            sr = min(r for r, _ in cs) + max(r for r, _ in cs)
            sc = min(x for _, x in cs) + max(x for _, x in cs)
            if any((sr - r, sc - x) not in cs for r, x in cs):
                return False
        return True

    def secret(self, rng, G, data):
        for _ in range(300):
            rooms = some_rooms(rng, G, [2, 3, 4])
            v = [None] * G.N
            for m in rooms:
                for i in bits(m):
                    v[i] = pop(m)
            if self.final(G, data, v):
                return tuple(v)
        return None


@register
class SymmareaFast(Symmarea):
    name, family = "symmarea/fast_mode", "option"
    fast = True

    def params(self, rng, data):
        return {"fast_mode": True}


# --- polyominoes in the grid ---------------------------------------------------------------------------------

def placements(G, shapes):
    """all masks of the given free shapes (letter -> cells) with their letter"""
    key = (G.R, G.C, tuple(sorted(shapes)), len(next(iter(shapes.values()))))
    if key not in _PL:
        out = []
        for k, s in sorted(shapes.items()):
            for o in sorted(grids.orientations(s)):
                h, w = max(r for r, _ in o) + 1, max(c for _, c in o) + 1
                for r in range(G.R - h + 1):
                    for c in range(G.C - w + 1):
                        out.append((G.mask([(r + a, c + b) for a, b in o]), k))
        _PL[key] = out
    return _PL[key]


_PL = {}


@register
class Pentopia(Shade):
    name, family = "pentopia", "var"
    weight = 0.4
    enum_sizes = [((3, 4), 1), ((4, 4), 2), ((4, 5), 3), ((5, 4), 3), ((3, 5), 1), ((5, 3), 1), ((5, 5), 2), ((3, 6), 1), ((1, 7), .2), ((7, 1), .2)]
    win_sizes = [((6, 6), 2), ((6, 7), 1), ((7, 6), 1)]
    big_density = 0.5

    def base(self, G, v):
        key = (G.R, G.C)
        if key not in self._base:
            pl = placements(G, grids.named_shapes(5))
            out = {0}

            def go(k, m, zone, used):
                for j in range(k, len(pl)):
                    x, name = pl[j]
                    if name not in used and not x & zone:
                        out.add(m | x)
                        go(j + 1, m | x, zone | G.grow8(x), used | {name})
            go(0, 0, 0, frozenset())
            self._base[key] = sorted(out)
        return self._base[key]

    def static_ok(self, G, m, v=None):
        names = []
        for k in G.comps8(m):
            if pop(k) != 5 or not G.connected(k):
                return False
            names.append(grids.canon(G.list(k)))
        return len(set(names)) == len(names)

    def nearest(self, G, m, i):
        """the set of directions (left, top, right, bottom) in which the nearest shaded cell is"""
        r, c = G.cells[i]
        dist = []
        for d in ((0, -1), (-1, 0), (0, 1), (1, 0)):
            dist.append(next((n for n, j in enumerate(G.ray(r, c, d)) if m >> j & 1), 99))
        b = min(dist)
        return None if b == 99 else tuple(int(x == b) for x in dist)

    def clues(self, rng, G, s, data):
        p = rng.choice([0.05, 0.15, 0.4])
        cl = {}
        for i in bits(G.full & ~s):
            if rng.random() < p:
                v = self.nearest(G, s, i)
                if v:
                    cl[i] = v
        data["clues"] = cl

    def perturb(self, rng, G, data):
        ks = sorted(data["clues"])
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = rng.choice([x for x in itertools.product((0, 1), repeat=4) if any(x)])

    def clue_ok(self, G, m, data):
        return all(not m >> i & 1 and self.nearest(G, m, i) == v for i, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for i, v in data.get("clues", {}).items():
            board.sym(*G.cells[i], "arrow_cross", list(v) + [0, 0, 0, 0])

    def pick(self, rng, G, cand):
        a = max(rng.sample(cand, min(len(cand), 3)), key=pop)
        return a


class Statues(Shade):
    family = "var"
    enum_sizes = []
    win_sizes = []
    window = 1
    free_cells = 10
    copies, n = 1, 4
    dark_codes = [1, 3, 8, 4]

    def static_ok(self, G, m, v=None):
        names = {}
        for k in G.comps(m):
            if pop(k) != self.n:
                return False
            x = grids.canon(G.list(k))
            names[x] = names.get(x, 0) + 1
        return len(names) == len(grids.polyominoes(self.n)) and set(names.values()) == {self.copies} and G.connected(G.full & ~m)

    def big(self, rng, G, data, params, oracle):
        """the statues placed at random, without the solver"""
        pl = placements(G, grids.named_shapes(self.n))
        by = {}
        for x, k in pl:
            by.setdefault(k, []).append(x)
        todo = sorted(by, key=lambda k: (len(grids.orientations(grids.named_shapes(self.n)[k])), k)) * self.copies
        left = [6000]

        def go(k, m, zone, todo):
            if k == len(todo):
                return m if G.connected(G.full & ~m) else None
            for x in rng.sample(by[todo[k]], min(len(by[todo[k]]), 25)):
                left[0] -= 1
                if left[0] < 0:
                    return None
                if not x & zone:
                    un = G.full & ~(m | x)
                    if len(G.comps(un)) > 1:
                        continue
                    z = go(k + 1, m | x, zone | G.grow(x), todo)
                    if z is not None:
                        return z
            return None
        for _ in range(6):
            t = list(todo)
            rng.shuffle(t)
            t.sort(key=lambda k: -len([x for x in t if x == k]))
            rng.shuffle(t)
            left[0] = 6000
            m = go(0, 0, 0, t)
            if m is not None:
                return m
        raise Retry("no statues")

    def clues(self, rng, G, s, data):
        data["clues"] = {}

    def mark(self, board, rng, G, i, dark):
        r, c = G.cells[i]
        if rng.random() < 0.5:
            board.sym(r, c, "circle_M", 2 if dark else 1)
        else:
            super().mark(board, rng, G, i, dark)

    def pick_free(self, rng, G):
        """cells around one statue, so that it can move"""
        if rng.random() < 0.3:
            return super().pick_free(rng, G)
        seed = rng.randrange(G.N)
        m = 1 << seed
        while pop(m) < self.free_cells + 2:
            m |= 1 << rng.choice(bits(G.grow8(m) & ~m))
        return bits(m)


def statue(name_, shapeset, n_, copies_, sizes, fam="option"):
    class S(Statues):
        name, solver, family = name_, "statuepark", fam
        weight = {5: 0.15}.get(n_, {2: 0.4}.get(copies_, 0.6))
        n, copies = n_, copies_
        win_sizes = sizes

        def params(self, rng, data):
            return {"shapeset": shapeset}
    S.__name__ = "Statue_" + shapeset
    return register(S)


statue("statuepark", "tetro", 4, 1, [((6, 7), 2), ((7, 6), 2), ((7, 7), 2), ((6, 6), 1), ((7, 8), 1)], "var")
statue("statuepark/pento", "pento", 5, 1, [((12, 12), 1), ((11, 13), 1), ((12, 13), 1)])
statue("statuepark/double_tetro", "double_tetro", 4, 2, [((10, 10), 1), ((10, 11), 1), ((11, 10), 1)])


FLEET = [4, 3, 3, 2, 2, 2, 1, 1, 1, 1]


@register
class Battleship(Spec):
    """a filling is a mask; all of them are found by placing the ships, longest first"""
    name, family = "battleship", "var"
    weight = 0.4
    margin = (1, 0, 1, 0)
    sizes = [((8, 8), 3), ((7, 9), 1), ((9, 7), 1), ((8, 9), 1), ((6, 10), 1), ((10, 6), 1), ((9, 9), .5)]

    def ships(self, G, n):
        out = []
        for r in range(G.R):
            for c in range(G.C):
                if c + n <= G.C:
                    out.append(G.mask([(r, c + k) for k in range(n)]))
                if n > 1 and r + n <= G.R:
                    out.append(G.mask([(r + k, c) for k in range(n)]))
        return out

    def search(self, G, data, limit, rng=None):
        marks = data["marks"]
        water = sum(1 << i for i, st in marks.items() if st in (7, 8))
        must = sum(1 << i for i, st in marks.items() if st not in (7, 8))
        lines = [(G.rows[k] if k < G.R else G.cols[k - G.R], n) for k, n in data["clues"].items() if isinstance(n, int)]
        if sum(n for k, n in data["clues"].items() if isinstance(n, int) and k < G.R) > 20:
            return set()
        by = {}
        for n in (4, 3, 2, 1):
            by[n] = [x for x in self.ships(G, n) if not x & water and all(pop(x & ln) <= c for ln, c in lines)]
            if rng is not None:
                rng.shuffle(by[n])
        out = set()
        left = [limit]

        def go(k, start, m, zone):
            left[0] -= 1
            if left[0] < 0:
                raise Retry("budget")
            if k == len(FLEET):
                if must & ~m == 0 and all(pop(m & ln) == c for ln, c in lines) and self.styles_ok(G, m, marks):
                    out.add(m)
                    if rng is not None:
                        return True
                    if len(out) > self.cap:
                        raise Retry("cap")
                return False
            rest = sum(FLEET[k:])
            if pop(must & ~m) > rest:
                return False
            for ln, c in lines:
                if pop(m & ln) > c:
                    return False
            n = FLEET[k]
            lst = by[n]
            for j in range(start, len(lst)):
                x = lst[j]
                if x & zone:
                    continue
                same = k + 1 < len(FLEET) and FLEET[k + 1] == n
                if go(k + 1, j + 1 if same else 0, m | x, zone | G.grow8(x)):
                    return True
            return False

        # lines without enough room left are noticed early
        go(0, 0, 0, 0)
        return out

    def style(self, G, m, i):
        if not m >> i & 1:
            return 7
        r, c = G.cells[i]
        u, d, l, w = (G.ins(a, b) and m >> G.i(a, b) & 1 for a, b in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)))
        if not (u or d or l or w):
            return 1
        if u and d or l and w:
            return 2
        return 3 if w else 4 if d else 5 if l else 6

    def styles_ok(self, G, m, marks):
        return all(self.style(G, m, i) == st or st == 8 and not m >> i & 1 for i, st in marks.items())

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G = grid(R, C)
        data = {"marks": {}, "clues": {}}
        m = 0
        for _ in range(50):
            m = zone = 0
            for n in FLEET:
                opts = [x for x in self.ships(G, n) if not x & zone]
                if not opts:
                    break
                x = rng.choice(opts)
                m, zone = m | x, zone | G.grow8(x)
            else:
                break
        else:
            raise Retry("fleet")
        p = rng.choice([0.7, 0.9, 1])
        for k in range(R + C):
            if rng.random() < p:
                data["clues"][k] = dig(pop(m & (G.rows[k] if k < R else G.cols[k - R])), 0.04, rng)
        ship = [4, 3, 2, 1, 5, 6]
        for i in rng.sample(range(G.N), rng.choice([2, 4, 8])):
            data["marks"][i] = rng.choice([7, 8]) if not m >> i & 1 else self.style(G, m, i)
        bad = rng.random()
        if bad < 0.08 and data["marks"]:
            ks = [i for i in data["marks"] if m >> i & 1]
            if ks:
                i = rng.choice(ks)
                data["marks"][i] = rng.choice(ship)
                r, c = G.cells[i]
                if data["marks"][i] == 2 and r in (0, R - 1) and c in (0, C - 1) or data["marks"][i] == 3 and c == C - 1 or \
                        data["marks"][i] == 5 and c == 0 or data["marks"][i] == 4 and r == R - 1 or data["marks"][i] == 6 and r == 0:
                    raise Retry("refused")
        elif bad < 0.15 and data["clues"]:
            k = rng.choice(sorted(data["clues"]))
            if isinstance(data["clues"][k], int):
                data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))
        exp = None
        for _ in range(12):
            try:
                exp = self.search(G, data, 60000)
                break
            except Retry:
                left = [i for i in range(G.N) if i not in data["marks"]]
                for i in rng.sample(left, min(len(left), 6)):
                    data["marks"][i] = rng.choice([7, 8]) if not m >> i & 1 else self.style(G, m, i)
        if exp is None:
            raise Retry("search")
        board = self.new_board(rng, R, C)
        shape = "battleship_" + rng.choice("BBBGW")
        for i, st in data["marks"].items():
            board.sym(*G.cells[i], shape, st, layer="p" if rng.random() < 0.6 else "a")
        for k, v in data["clues"].items():
            put_num(board, rng, *((k, -1) if k < R else (-1, k - R)), v)
        case = Case(self, G, board, data)
        case.expected = exp
        return case

    def view(self, case, view):
        G = case.G
        m, seen = 0, {}
        for i, (r, c) in enumerate(G.cells):
            s = view.symbol.get((r, c, 0))
            if s and s[0] not in (7, 8):
                m |= 1 << i
            seen[i] = s and s[0]
        for i, st in seen.items():
            if st not in (None, 7, 8) and st != self.style(G, m, i):
                return "cell %s: part %s, should be %s in %s" % (G.cells[i], st, self.style(G, m, i), self.show(case, m))
        return m

    def show(self, case, sol):
        return sol if isinstance(sol, str) else Shade.show(None, case, sol)
