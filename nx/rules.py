"""Judging the rule library: the models of generated rules against a plain definition over colourings, borders and lines.

A Case is a program text made by the real rule builders over a space of states (colourings, numbers, borders, lines).  judge(state)
says whether the state meets the stated condition and which further facts have to hold in it; it is written without the builders.
Small spaces are compared as whole sets of models; from large spaces a list of states is put to the program at once.
"""

import itertools

import clingo

D4 = ((-1, 0), (0, -1), (0, 1), (1, 0))
DX = ((-1, -1), (-1, 1), (1, -1), (1, 1))
LINE = {"l": (0, -1), "u": (-1, 0), "r": (0, 1), "d": (1, 0)}
BACK = {"l": "r", "r": "l", "u": "d", "d": "u"}
OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
       "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def steps(t):
    return D4 if t == 4 else DX if t == "x" else D4 + DX


def around(cell, t):
    return [(cell[0] + a, cell[1] + b) for a, b in steps(t)]


def parts(cells, near):
    """the connected parts of a set of cells; near(cell) gives neighbours"""
    left, out = set(cells), []
    while left:
        todo = [left.pop()]
        part = set(todo)
        while todo:
            for x in near(todo.pop()):
                if x in left:
                    left.remove(x)
                    part.add(x)
                    todo.append(x)
        out.append(part)
    return out


def flood(start, near):
    seen, todo = set(start), list(start)
    while todo:
        for x in near(todo.pop()):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def meets(n, target):
    return n == target if isinstance(target, int) else OPS[target[0]](n, target[1])


class Case:
    def __init__(self, family, text, space, judge, derived=(), note=""):
        self.family, self.text, self.space, self.judge, self.derived, self.note = family, text, space, judge, list(derived), note


def read(sym):
    return (sym.name, tuple(x.number if x.type == clingo.SymbolType.Number else x.string if x.type == clingo.SymbolType.String else str(x)
                            for x in sym.arguments))


def models(text, limit=0):
    msgs = []
    ctl = clingo.Control([str(limit), "--eq=0", "--project=show", "--warn=none"], logger=lambda c, m: msgs.append(m))
    ctl.add("base", [], text)
    try:
        ctl.ground([("base", [])])
    except RuntimeError as e:
        raise ValueError("the generated rules are not accepted: %s %s" % (e, " ".join(msgs)[:300])) from e
    out = []
    ctl.solve(on_model=lambda m: out.append(frozenset(read(s) for s in m.symbols(shown=True))))
    return out


def shows(preds):
    return "#show.\n" + "".join("#show %s/%d.\n" % p for p in preds) + "".join("#defined %s/%d.\n" % p for p in preds)


def decide(case, states=None):
    """compare; returns (fault or None, states judged, states accepted)"""
    sp = case.space
    base = [p for p in sp.preds]
    if states is None:
        want, n = set(), 0
        for s in sp.every():
            n += 1
            d = case.judge(s)
            if d is not None:
                want.add(frozenset(sp.atoms(s) | d))
        got = models(case.text + "\n" + shows(base + case.derived))
        if len(got) != len(set(got)):
            raise ValueError("a model was listed twice")
        got = set(got)
        if got != want:
            more, less = got - want, want - got
            show = sorted(more)[0] if more else sorted(less)[0] if less else ()
            return "%d drawings are admitted that should not be, %d are missing, of %d: %s %s" % (
                len(more), len(less), len(want), "admitted" if more else "missing", sorted(show, key=str)[:60]), n, len(want)
        return None, n, len(want)
    want = {}
    text = [case.text, "1 { nx_pick(0..%d) } 1." % (len(states) - 1)]
    for k, s in enumerate(states):
        d = case.judge(s)
        if d is not None:
            want[k] = frozenset(d)
        for name, args in sp.atoms(s):
            text.append("nx_%s(%d,%s)." % (name, k, ",".join('"%s"' % a if isinstance(a, str) else str(a) for a in args)))
    for name, n in base:
        v = ",".join("X%d" % i for i in range(n))
        text.append("#defined nx_%s/%d. #defined %s/%d." % (name, n + 1, name, n))
        text.append(":- nx_pick(K), %s(%s), not nx_%s(K,%s)." % (name, v, name, v))
        text.append(":- nx_pick(K), nx_%s(K,%s), not %s(%s)." % (name, v, name, v))
    got = {}
    for m in models("\n".join(text) + "\n" + shows([("nx_pick", 1)] + case.derived)):
        k = [a[0] for p, a in m if p == "nx_pick"][0]
        if k in got:
            return "a drawing has two readings: %s" % sorted(sp.atoms(states[k]), key=str)[:60], len(states), len(want)
        got[k] = frozenset(x for x in m if x[0] != "nx_pick")
    for k, s in enumerate(states):
        if got.get(k) != want.get(k):
            what = "is admitted and should not be" if k not in want else "is not admitted" if k not in got else "has the wrong facts: %s instead of %s" % (
                sorted(got[k] - want[k], key=str)[:10], sorted(want[k] - got[k], key=str)[:10])
            return "the drawing %s %s" % (sorted(sp.atoms(s), key=str)[:150], what), len(states), len(want)
    return None, len(states), len(want)


class Grid:
    """a grid, possibly with holes, described by the real builder"""

    def __init__(self, lib, rng, rows, cols, holes=0.0):
        self.rows, self.cols = rows, cols
        self.all = [(r, c) for r in range(rows) for c in range(cols)]
        self.holes = {x for x in self.all if rng.random() < holes}
        if len(self.holes) == len(self.all):
            self.holes = set()
        self.cells = [x for x in self.all if x not in self.holes]
        self.has = set(self.cells)
        if holes:
            self.text = "#defined hole/2.\n" + "".join("hole(%d,%d).\n" % x for x in sorted(self.holes)) + lib.grid(rows, cols, with_holes=True) + "\n"
        else:
            self.text = lib.grid(rows, cols) + "\n"

    def near(self, t):
        return lambda x: [y for y in around(x, t) if y in self.has]


class Shade:
    """every cell has one of several colours (None: no colour); the state is a tuple over the cells"""

    def __init__(self, lib, rng, grid, scheme):
        self.grid, self.scheme = grid, scheme
        text = grid.text
        if scheme == "one":
            c = rng.choice(["black", "gray", "star__2"])
            self.colors, self.choices = [c], [None, c]
            text += (lib.shade_c(color=c) if c != "black" or rng.random() < 0.5 else lib.shade_c()) + "\n"
            self.other = None
        elif scheme == "inverted":
            c, w = rng.choice([("black", "white"), ("gray", "white"), ("ox__1", "ox__2")])
            self.colors, self.choices, self.other = [c, w], [w, c], w
            text += lib.shade_c(color=c) + "\n" + lib.invert_c(color=c, invert=w) + "\n"
        else:
            self.colors = rng.choice([["black", "white"], ["gray", "white"]]) if scheme == "two" else ["ox_E__1", "ox_E__2", "white"]
            self.choices, self.other = list(self.colors), None
            text += lib.shade_cc(colors=list(self.colors)) + "\n"
        self.text = text
        self.preds = [(c, 2) for c in self.colors]

    def every(self):
        return itertools.product(self.choices, repeat=len(self.grid.cells))

    def size(self):
        return len(self.choices) ** len(self.grid.cells)

    def atoms(self, s):
        return {(c, x) for x, c in zip(self.grid.cells, s) if c is not None}

    def of(self, s, color):
        if color == "grid":
            return set(self.grid.cells)
        if color.startswith("not "):
            return {x for x, c in zip(self.grid.cells, s) if c != color[4:]}
        return {x for x, c in zip(self.grid.cells, s) if c == color}

    def usable(self, rng, negative=True):
        """a colour to talk about"""
        cs = list(self.colors)
        if negative:
            cs += ["not " + c for c in self.colors]
        return rng.choice(cs)

    def some(self, rng, n):
        """states with some shape: noise, blobs, rectangles, small changes to each"""
        g, out = self.grid, []
        while len(out) < n:
            t = rng.random()
            main, rest = rng.sample(self.choices, 2)
            on = set()
            if t < 0.2:
                p = rng.random()
                on = {x for x in g.cells if rng.random() < p}
            elif t < 0.5:                                                # one or two grown shapes
                for _ in range(rng.choice([1, 1, 2])):
                    on |= blob(rng, g.cells, g.has, rng.randint(1, len(g.cells)), rng.choice([4, 4, 8]))
            elif t < 0.7:
                for _ in range(rng.randint(1, 4)):
                    r0, c0 = rng.randrange(g.rows), rng.randrange(g.cols)
                    h, w = rng.randint(1, 4), rng.randint(1, 4)
                    if rng.random() < 0.5:
                        w = h
                    new = {(r, c) for r in range(r0, r0 + h) for c in range(c0, c0 + w)} & g.has
                    if rng.random() < 0.7 and any(y in on for x in new for y in around(x, 4)):
                        continue
                    on |= new
            elif t < 0.85:                                               # comb or winding way
                on = {x for x in g.cells if x[0] % 2 == 0 or x[1] == (g.cols - 1 if x[0] % 4 == 1 else 0)}
            s = [main if x in on else rest for x in g.cells]
            if len(self.choices) > 2 and rng.random() < 0.7:
                s = [c if rng.random() < 0.8 else rng.choice(self.choices) for c in s]
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
                s[rng.randrange(len(s))] = rng.choice(self.choices)
            out.append(tuple(s))
        return out


def blob(rng, cells, has, n, t=4):
    part = {rng.choice(cells)}
    rim = [y for x in part for y in around(x, t) if y in has]
    while rim and len(part) < n:
        y = rim.pop(rng.randrange(len(rim)))
        if y not in part:
            part.add(y)
            rim += [z for z in around(y, t) if z in has and z not in part]
    return part


class Numbers:
    """every cell of the host has one number, or (with a colour) the colour instead"""

    def __init__(self, grid, text, host, values, color=None, given=()):
        self.grid, self.text, self.host, self.values, self.color = grid, text, list(host), list(values), color
        self.given = dict(given)
        self.preds = [("number", 3)] + ([(color, 2)] if color else [])

    def every(self):
        opts = []
        for x in self.host:
            o = list(self.values) + ([None] if self.color else [])
            if x in self.given:
                o = [self.given[x]] if self.given[x] in self.values else []
            opts.append(o)
        return itertools.product(*opts)

    def size(self):
        n = 1
        for x in self.host:
            n *= 1 if x in self.given else len(self.values) + bool(self.color)
        return n

    def atoms(self, s):
        return {("number", x + (v,)) if v is not None else (self.color, x) for x, v in zip(self.host, s)}

    def some(self, rng, n):
        out = []
        for _ in range(n):
            s = []
            shift = rng.randrange(100)
            latin = rng.random() < 0.6
            for x in self.host:
                if x in self.given and self.given[x] in self.values:
                    s.append(self.given[x])
                elif self.color and rng.random() < 0.15:
                    s.append(None)
                elif latin and rng.random() < 0.98:
                    s.append(self.values[(x[0] + x[1] + shift) % len(self.values)])
                else:
                    s.append(rng.choice(self.values))
            out.append(tuple(s))
        return out


class Edges:
    """borders between cells; the state is a frozenset of closed inner borders ('l' or 't', r, c)"""

    def __init__(self, lib, grid):
        self.grid = grid
        R, C = grid.rows, grid.cols
        self.inner = [("l", r, c) for r in range(R) for c in range(1, C)] + [("t", r, c) for r in range(1, R) for c in range(C)]
        self.outer = {("l", r, c) for r in range(R) for c in (0, C)} | {("t", r, c) for r in (0, R) for c in range(C)}
        self.preds = [("edge_left", 2), ("edge_top", 2)]
        self.text = grid.text + lib.edge(R, C) + "\n"

    def every(self):
        for k in range(1 << len(self.inner)):
            yield frozenset(e for i, e in enumerate(self.inner) if k >> i & 1)

    def size(self):
        return 1 << len(self.inner)

    def atoms(self, s):
        return {("edge_left" if e[0] == "l" else "edge_top", e[1:]) for e in s | self.outer}

    def open(self, s):
        """neighbours across sides that are not closed"""
        has = self.grid.has

        def near(x):
            r, c = x
            for y, e in (((r, c - 1), ("l", r, c)), ((r, c + 1), ("l", r, c + 1)), ((r - 1, c), ("t", r, c)), ((r + 1, c), ("t", r + 1, c))):
                if y in has and e not in s:
                    yield y
        return near

    def regions(self, s):
        return parts(self.grid.cells, self.open(s))

    def between(self, a, b):
        (r, c), (r1, c1) = min(a, b), max(a, b)
        return ("l", r1, c1) if r == r1 else ("t", r1, c1)

    def drawn(self, division):
        """the borders of a division {cell: label}"""
        out = set()
        for e in self.inner:
            a = e[1:]
            b = (a[0], a[1] - 1) if e[0] == "l" else (a[0] - 1, a[1])
            if division.get(a) != division.get(b):
                out.add(e)
        return out

    def some(self, rng, n):
        out, g = [], self.grid
        while len(out) < n:
            t = rng.random()
            if t < 0.15:
                p = rng.random()
                s = {e for e in self.inner if rng.random() < p}
            elif t < 0.6:
                s = self.drawn(rects(rng, g))
            else:
                s = self.drawn(blobs(rng, g, rng.choice([1, 2, 3, 4, 5, 6])))
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                s ^= {rng.choice(self.inner)} if self.inner else set()
            out.append(frozenset(s))
        return out


def rects(rng, g):
    """a random division into rectangles"""
    lab, k = {}, 0
    biggest = rng.choice([1, 2, 3, 6])
    square = rng.random() < 0.3
    for r, c in g.cells:
        if (r, c) in lab:
            continue
        w = 1
        while (r, c + w) in g.has and (r, c + w) not in lab and w < biggest and rng.random() < 0.7:
            w += 1
        h = 1
        lim = w if square else biggest
        while h < lim and all((r + h, c + i) in g.has and (r + h, c + i) not in lab for i in range(w)) and (square or rng.random() < 0.7):
            h += 1
        if square:
            w = h = min(w, h)
        for i in range(h):
            for j in range(w):
                lab[r + i, c + j] = k
        k += 1
    return lab


def blobs(rng, g, size):
    """a random division into connected shapes of about one size"""
    lab, k = {}, 0
    cells = list(g.cells)
    rng.shuffle(cells)
    for x in cells:
        if x in lab:
            continue
        free = [y for y in g.cells if y not in lab]
        part = {x}
        rim = [y for y in around(x, 4) if y in g.has and y not in lab]
        while rim and len(part) < size:
            y = rim.pop(rng.randrange(len(rim)))
            if y not in part:
                part.add(y)
                rim += [z for z in around(y, 4) if z in g.has and z not in lab and z not in part]
        for y in part:
            lab[y] = k
        k += 1
        del free
    return lab


class Lines:
    """undirected or directed line drawings: the state maps every inner side (cell, cell) that carries line to its direction"""

    def __init__(self, lib, rng, grid, color="white", shaded=True, directed=False, dirs="lurd"):
        self.grid, self.color, self.directed, self.shaded = grid, color, directed, shaded
        self.links = [(x, y) for x in grid.cells for y in ((x[0], x[1] + 1), (x[0] + 1, x[1])) if y in grid.has]
        self.text = grid.text + (lib.shade_c(color=color) + "\n" if shaded else "") + lib.direction(dirs) + "\n" + lib.fill_path(color=color, directed=directed) + "\n"
        self.preds = ([(color, 2)] if shaded else []) + ([("grid_in", 3), ("grid_out", 3)] if directed else [("grid_direction", 3)])

    def every(self):
        """states: (frozenset of (x, y) links [ordered when directed]); the coloured cells are those with line"""
        n = len(self.links)
        if self.directed:
            for t in itertools.product((0, 1, 2), repeat=n):
                yield frozenset((a, b) if k == 1 else (b, a) for (a, b), k in zip(self.links, t) if k)
        else:
            for k in range(1 << n):
                yield frozenset(e for i, e in enumerate(self.links) if k >> i & 1)

    def size(self):
        return (3 if self.directed else 2) ** len(self.links)

    @staticmethod
    def way(a, b):
        return {(0, 1): "r", (0, -1): "l", (1, 0): "d", (-1, 0): "u"}[(b[0] - a[0], b[1] - a[1])]

    def ends(self, s):
        """{cell: set of directions}"""
        out = {}
        for a, b in s:
            d = self.way(a, b)
            out.setdefault(a, set()).add(d)
            out.setdefault(b, set()).add(BACK[d])
        return out

    def flow(self, s):
        """{cell: ([ways in], [ways out])}"""
        out = {}
        for a, b in s:
            d = self.way(a, b)
            out.setdefault(a, ([], []))[1].append(d)
            out.setdefault(b, ([], []))[0].append(BACK[d])
        return out

    def atoms(self, s):
        out = set()
        if self.directed:
            for x, (i, o) in self.flow(s).items():
                out |= {("grid_in", x + (d,)) for d in i} | {("grid_out", x + (d,)) for d in o}
                if self.shaded:
                    out.add((self.color, x))
        else:
            for x, ds in self.ends(s).items():
                out |= {("grid_direction", x + (d,)) for d in ds}
                if self.shaded:
                    out.add((self.color, x))
        return out

    def near(self, s):
        adj = {}
        for a, b in s:
            adj.setdefault(a, []).append(b)
            adj.setdefault(b, []).append(a)
        return lambda x: adj.get(x, [])

    def some(self, rng, n):
        """rims of random shapes, that is loops, sometimes touched up"""
        g, out = self.grid, []
        faces = [(r, c) for r in range(g.rows - 1) for c in range(g.cols - 1)]
        ok = {f for f in faces if all(x in g.has for x in (f, (f[0] + 1, f[1]), (f[0], f[1] + 1), (f[0] + 1, f[1] + 1)))}
        while len(out) < n:
            inside = set()
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if ok:
                    inside |= blob(rng, sorted(ok), ok, rng.randint(1, len(ok)))
            s = set()
            for a, b in self.links:
                if a[0] == b[0]:
                    two = (a, (a[0] - 1, a[1]))
                else:
                    two = (a, (a[0], a[1] - 1))
                if (two[0] in inside) != (two[1] in inside):
                    s.add((a, b))
            if rng.random() < 0.75:                       # a shape without pinched corners
                ends = self.ends(s)
                if any(len(d) > 2 for d in ends.values()):
                    continue
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                s ^= {rng.choice(self.links)}
            if self.directed:
                s = self.orient(rng, s)
            out.append(frozenset(s))
        return out

    def orient(self, rng, s):
        left, out = {frozenset(e) for e in s}, set()
        near = {}
        for a, b in s:
            near.setdefault(a, set()).add(b)
            near.setdefault(b, set()).add(a)
        while left:
            e = min(left, key=sorted)
            a, b = sorted(e) if rng.random() < 0.5 else sorted(e)[::-1]
            while frozenset((a, b)) in left:
                left.remove(frozenset((a, b)))
                out.add((a, b))
                nxt = [y for y in sorted(near[b]) if frozenset((b, y)) in left]
                if not nxt:
                    break
                a, b = b, nxt[0]
        if rng.random() < 0.25 and out:
            e = rng.choice(sorted(out))
            out.remove(e)
            out.add((e[1], e[0]))
        return out
