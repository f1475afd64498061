"""Reference rules of the region division puzzles.

A division is a bit mask over the pairs of side-sharing playing cells: the bit is set when a border lies between them.
"""

from nx import grids
from nx.grids import bits, grid, pop
from nx.spec import Case, QMARKS, Retry, Spec, put_num, register, wchoice

UDLR = {"u": (-1, 0), "l": (0, -1), "r": (0, 1), "d": (1, 0)}
_pieces = {}


def pieces(G, n):
    """all connected sets of n cells of the grid, by each of their cells"""
    key = (G.R, G.C, n)
    if key not in _pieces:
        level = {1 << i for i in range(G.N)}
        for _ in range(n - 1):
            level = {m | 1 << j for m in level for j in bits(G.grow(m) & ~m)}
        by = [[] for _ in range(G.N)]
        for m in sorted(level):
            for i in bits(m):
                by[i].append(m)
        _pieces[key] = by
    return _pieces[key]


def rects(G, w=None):
    key = (G.R, G.C, "r", w)
    if key not in _pieces:
        by = [[] for _ in range(G.N)]
        for r in range(G.R):
            for c in range(G.C):
                for r2 in range(r, G.R):
                    for c2 in range(c, G.C):
                        h, k = r2 - r + 1, c2 - c + 1
                        if w == "square" and h != k or w in ("strip", "strip2") and min(h, k) > 1 or w == "strip2" and h * k < 2:
                            continue
                        m = G.mask([(a, b) for a in range(r, r2 + 1) for b in range(c, c2 + 1)])
                        for i in bits(m):
                            by[i].append(m)
        _pieces[key] = by
    return _pieces[key]


def covers(by, full, ok=None, last=None, limit=None, rng=None, sizes=None, G=None):
    """all exact covers of `full` by the given pieces; `ok(piece)` filters them, `last(piece, chosen)` looks back"""
    found = 0
    steps = [0]
    cache = {}

    def good(m):
        if ok is None:
            return True
        v = cache.get(m)
        if v is None:
            v = cache[m] = bool(ok(m))
        return v

    def go(left, chosen):
        steps[0] += 1
        if limit and steps[0] > limit:
            return
        if not left:
            yield list(chosen)
            return
        low = left & -left
        cand = [m for m in by[low.bit_length() - 1] if m & ~left == 0]
        if rng is not None:
            rng.shuffle(cand)
        for m in cand:
            if not good(m) or last is not None and not last(m, chosen):
                continue
            rest = left & ~m
            if sizes and rest:
                if any(pop(x) % sizes for x in G.comps(rest)):
                    continue
            chosen.append(m)
            yield from go(rest, chosen)
            chosen.pop()

    yield from go(full, [])


def no_cross(G, regs):
    """no point where four regions meet"""
    ix = grids.room_index(G, regs)
    for r in range(G.R - 1):
        for c in range(G.C - 1):
            a, b, d, e = (ix[G.i(r, c)], ix[G.i(r, c + 1)], ix[G.i(r + 1, c)], ix[G.i(r + 1, c + 1)])
            if a != b and d != e and a != d and b != e:
                return False
    return True


def borders_at(G, i, m):
    """borders around cell i when its region is m, the frame included"""
    return 4 - pop(G.nb[i] & m)


class Div(Spec):
    family = "region"
    holes = False
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((5, 2), 1), ((1, 5), .4), ((5, 1), .4), ((4, 5), 2),
             ((5, 4), 2), ((5, 5), .6)]
    perturb_p = 0.2
    pin_p = 0.3
    wide = None          # sizes of boards of which only a part is left open
    wide_p = 0.4
    core = 12            # cells left open at most
    one_region = 0.25    # share of the wide boards on which little is marked, so that answers are only judged

    # to provide: random_division(rng, G, full) -> regions; clues(rng, G, regs, data); divisions(G, full, data)
    def size(self, rng):
        return wchoice(rng, self.sizes)

    def pick_holes(self, rng, G):
        if not self.holes or rng.random() < 0.45:
            return 0
        return G.mask(rng.sample(G.cells, min(G.N - 1, rng.choice([1, 1, 2, 3, 4]))))

    def setup(self, rng, G, data):
        pass

    def params(self, rng, data):
        return {}

    def perturb(self, rng, G, data):
        cl = data.get("clues")
        ks = [k for k, v in (cl or {}).items() if isinstance(v, int)]
        if ks:
            k = rng.choice(sorted(ks, key=repr))
            cl[k] = max(0, cl[k] + rng.choice([-1, 1]))

    def draw(self, board, rng, G, data):
        for (r, c), v in data["clues"].items():
            put_num(board, rng, r, c, v)

    def draw_holes(self, board, rng, G, data):
        for i in bits(data["holes"]):
            board.surf(*G.cells[i], rng.choice([1, 3, 4, 4, 8]) if data["mixed"] else 4)

    # for wide boards: the rule of one region, and the rules between regions
    def region_ok(self, G, m, data):
        return self.fits(G, m, data)

    def together_ok(self, G, regs, data):
        return True

    def parts(self, G, full, data):
        """divisions of a part of the board; rules between regions need not be looked at"""
        return self.divisions(G, full, data)

    def make_wide(self, rng):
        R, C = wchoice(rng, self.wide)
        G = grid(R, C)
        data = {"holes": self.pick_holes(rng, G), "mixed": rng.random() < 0.15, "clues": {}, "wide": True}
        full = G.full & ~data["holes"]
        self.setup(rng, G, data)
        params = self.params(rng, data)
        regs = self.random_division(rng, G, full, data)
        if regs is None:
            raise Retry("no division")
        self.clues(rng, G, regs, data)
        if rng.random() < self.perturb_p / 2:
            self.perturb(rng, G, data)
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data, params)
        case.pairs = [(i, j) for i in bits(full) for j in bits(G.nb[i] & full) if i < j]
        case.bit = {p: 1 << k for k, p in enumerate(case.pairs)}
        self.draw_holes(board, rng, G, data)
        self.draw(board, rng, G, data)
        case.done = 0
        s = self.encode(case, regs)

        def valid(rs):
            return all(self.region_ok(G, m, data) for m in rs) and self.together_ok(G, rs, data)

        def fix(p):
            case.done |= case.bit[p]
            lay = "p" if rng.random() < 0.5 else "a"
            (board.wall_between if s & case.bit[p] else board.wallx_between)(G.cells[p[0]], G.cells[p[1]], lay)

        if rng.random() < self.one_region:
            if not valid(regs):
                raise Retry("altered")
            q = rng.choice([0.2, 0.5, 0.8])
            for p in case.pairs:
                if rng.random() < q:
                    fix(p)
            case.kind, case.secret = "large", s
            case.accept = lambda m: not (m ^ s) & case.done and valid(self.regions(case, m))
            return case
        first = rng.choice(regs)
        core, ks = first, 1
        while True:
            near = [m for m in regs if not m & core and G.grow(core) & m and pop(core | m) <= self.core]
            if not near or ks >= 5:
                break
            core |= rng.choice(near)
            ks += 1
        case.kind = "window"
        rest = [m for m in regs if not m & core]
        for p in case.pairs:
            if not (core >> p[0] & 1 and core >> p[1] & 1):
                fix(p)
        exp, n = set(), 0
        if pop(core) > 20:
            raise Retry("large region")
        if all(self.region_ok(G, m, data) for m in rest):
            for d in self.parts(G, core, data):
                n += 1
                if n > 8000:
                    raise Retry("too many divisions")
                d = rest + list(d)
                if valid(d):
                    exp.add(self.encode(case, d))
        case.expected = exp
        return case

    def make(self, rng, oracle=None):
        if self.wide and oracle is not None and rng.random() < self.wide_p:
            return self.make_wide(rng)
        R, C = self.size(rng)
        G = grid(R, C)
        data = {"holes": self.pick_holes(rng, G), "mixed": rng.random() < 0.15, "clues": {}}
        full = G.full & ~data["holes"]
        self.setup(rng, G, data)
        params = self.params(rng, data)
        regs = self.random_division(rng, G, full, data)
        if regs is None:
            raise Retry("no division")
        self.clues(rng, G, regs, data)
        if rng.random() < self.perturb_p:
            self.perturb(rng, G, data)
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data, params)
        case.pairs = [(i, j) for i in bits(full) for j in bits(G.nb[i] & full) if i < j]
        case.bit = {p: 1 << k for k, p in enumerate(case.pairs)}
        self.draw_holes(board, rng, G, data)
        self.draw(board, rng, G, data)
        case.done = 0
        s = self.encode(case, regs)
        pins = []
        if rng.random() < self.pin_p:
            for _ in range(rng.choice([1, 2, 3])):
                p = self.pin(case, s, rng)
                if p:
                    pins.append(p)
        exp = set()
        n = 0
        for d in self.divisions(G, full, data):
            m = self.encode(case, d)
            if all(p(m) for p in pins):
                exp.add(m)
            n += 1
            if n > 30000:
                raise Retry("too many divisions")
        case.expected = exp
        return case

    def encode(self, case, regs):
        ix = {}
        for k, m in enumerate(regs):
            for i in bits(m):
                ix[i] = k
        return sum(b for (i, j), b in case.bit.items() if ix[i] != ix[j])

    def regions(self, case, m):
        G = case.G
        adj = {}
        for (i, j), b in case.bit.items():
            if not m & b:
                adj.setdefault(i, []).append(j)
                adj.setdefault(j, []).append(i)
        seen, out = 0, []
        for i in bits(G.full & ~case.data["holes"]):
            if seen >> i & 1:
                continue
            comp, todo = 1 << i, [i]
            while todo:
                for j in adj.get(todo.pop(), ()):
                    if not comp >> j & 1:
                        comp |= 1 << j
                        todo.append(j)
            seen |= comp
            out.append(comp)
        return out

    def view(self, case, view):
        G = case.G
        m = 0
        for (i, j), b in case.bit.items():
            (r, c), (r2, c2) = G.cells[i], G.cells[j]
            if (r2, c2) in (view.tops if c == c2 else view.lefts):
                m |= b
        if self.encode(case, self.regions(case, m)) != m:
            return "a border ends inside a region: %x" % m
        return m

    def show(self, case, sol):
        if isinstance(sol, str):
            return sol
        G = case.G
        ix = {}
        for k, m in enumerate(self.regions(case, sol)):
            for i in bits(m):
                ix[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[k % 52]
        return "/".join("".join(ix.get(G.i(r, c), "#") for c in range(G.C)) for r in range(G.R))

    def pin(self, case, sol, rng):
        left = [p for p in case.pairs if not case.done & case.bit[p]]
        if not left:
            return None
        p = rng.choice(left)
        b = case.bit[p]
        case.done |= b
        v = sol & b
        a, d = case.G.cells[p[0]], case.G.cells[p[1]]
        lay = "p" if rng.random() < 0.5 else "a"
        (case.board.wall_between if v else case.board.wallx_between)(a, d, lay)
        return lambda m: m & b == v


class Blocks(Div):
    """divisions into connected blocks of one size"""
    n = None

    def block(self, data):
        return self.n

    def pick_holes(self, rng, G):
        if not self.holes:
            if G.N % self.n:
                raise Retry("size")
            return 0
        extra = G.N % self.n + rng.choice([0, 0, self.n, self.n])
        if extra >= G.N:
            raise Retry("size")
        return G.mask(rng.sample(G.cells, extra))

    def random_division(self, rng, G, full, data):
        k = self.block(data)
        return next(covers(pieces(G, k), full, last=self.back(G, {"clues": {}, **{x: data[x] for x in data if x != "clues"}}),
                           limit=4000, rng=rng, sizes=k, G=G), None)

    def fits(self, G, m, data):
        return True

    def region_ok(self, G, m, data):
        return pop(m) == self.block(data) and self.fits(G, m, data)

    def back(self, G, data):
        return None

    def divisions(self, G, full, data):
        k = self.block(data)
        return covers(pieces(G, k), full, ok=lambda m: self.fits(G, m, data), last=self.back(G, data), sizes=k, G=G)


class BorderClues(Blocks):
    """a number tells how many borders are around its cell"""
    lo = 0.1

    def clues(self, rng, G, regs, data):
        p = rng.choice([self.lo, 0.3, 0.6, 0.9])
        for m in regs:
            for i in bits(m):
                if rng.random() < p:
                    data["clues"][G.cells[i]] = rng.choice(QMARKS) if rng.random() < 0.1 else borders_at(G, i, m)

    def fits(self, G, m, data):
        cl = data["clues"]
        for i in bits(m):
            v = cl.get(G.cells[i])
            if isinstance(v, int) and borders_at(G, i, m) != v:
                return False
        return True


@register
class FiveCells(BorderClues):
    name, n = "fivecells", 5
    wide, core = [((5, 8), 1), ((10, 5), 1), ((7, 10), 1), ((10, 8), .5), ((2, 15), .5), ((15, 2), .5)], 15
    sizes = [((5, 2), 1), ((2, 5), 1), ((3, 5), 2), ((5, 3), 2), ((4, 5), 2), ((5, 4), 2), ((5, 5), 2), ((1, 5), .3), ((10, 1), .3),
             ((2, 10), .5), ((6, 5), .5)]


@register
class FourCells(BorderClues):
    name, n = "fourcells", 4
    wide, core = [((4, 8), 1), ((8, 6), 1), ((7, 8), 1), ((10, 8), .5), ((2, 14), .5), ((14, 2), .5)], 16
    sizes = [((4, 2), 1), ((2, 4), 1), ((3, 4), 2), ((4, 3), 2), ((4, 4), 3), ((5, 4), 2), ((4, 5), 2), ((1, 4), .3), ((8, 1), .3),
             ((2, 6), .5), ((6, 4), .5), ((2, 2), .2)]


@register
class NCells(BorderClues):
    name = "ncells"
    n = 1
    sizes = [((4, 2), 1), ((2, 4), 1), ((3, 4), 3), ((4, 3), 2), ((4, 4), 2), ((5, 4), 1), ((3, 5), 2), ((3, 3), 2), ((6, 3), 1),
             ((2, 6), 1), ((1, 6), .3), ((5, 5), .5), ((6, 1), .3)]

    wide, core = [((7, 7), 1), ((8, 5), 1), ((6, 9), 1), ((10, 6), 1), ((3, 12), .5), ((12, 3), .5)], 16

    def setup(self, rng, G, data):
        top = 5 if data.get("wide") else 6
        data["size"] = rng.choice([k for k in range(1, 10) if G.N % k == 0 and not (G.N > 16 and k > top) and (k > 1 or top > 5)] or [1])

    def block(self, data):
        return data["size"]

    def params(self, rng, data):
        return {"region_size": str(data["size"])}


@register
class NCellsSize(NCells):
    name, solver, family = "ncells/region_size", "ncells", "option"


def shape_index(k):
    """canonical form of every free polyomino of k cells -> its letter"""
    return {v: n for n, v in grids.named_shapes(k).items()}


class Ominous(Blocks):
    """regions of one size; regions of the same shape do not touch; a letter names the shape of its region"""
    holes = True
    sizes = [((3, 4), 2), ((4, 4), 2), ((5, 4), 2), ((4, 5), 2), ((5, 5), 2), ((3, 5), 1), ((2, 6), .6), ((6, 3), 1), ((1, 6), .2)]

    wide, core = [((6, 7), 1), ((8, 6), 1), ((8, 8), 1), ((10, 7), .5), ((5, 11), .5), ((3, 12), .3)], 15

    def together_ok(self, G, regs, data):
        ks = [self.kind(G, m) for m in regs]
        gs = [G.grow(m) for m in regs]
        return not any(ks[a] == ks[b] and gs[a] & regs[b] for a in range(len(regs)) for b in range(a))

    def shape(self, G, m):
        key = (G.R, G.C, m)
        if not hasattr(self, "_sh"):
            self._sh, self._ix = {}, shape_index(self.n)
        if key not in self._sh:
            self._sh[key] = self._ix[grids.canon(G.list(m))]
        return self._sh[key]

    def kind(self, G, m):
        return self.shape(G, m)

    def back(self, G, data):
        def last(m, chosen):
            near = G.grow(m)
            k = self.kind(G, m)
            return all(not near & x or self.kind(G, x) != k for x in chosen)
        return last

    def clues(self, rng, G, regs, data):
        p = rng.choice([0, 0.1, 0.3])
        for m in regs:
            for i in bits(m):
                if rng.random() < p:
                    data["clues"][G.cells[i]] = self.shape(G, m)

    def perturb(self, rng, G, data):
        if data["clues"]:
            data["clues"][rng.choice(sorted(data["clues"]))] = rng.choice(sorted(self._ix.values()))

    def fits(self, G, m, data):
        k = self.shape(G, m)
        return all(data["clues"].get(G.cells[i], k) == k for i in bits(m))


@register
class Pentominous(Ominous):
    name, n = "pentominous", 5


@register
class Tetrominous(Ominous):
    name, n = "tetrominous", 4


@register
class Heteromino(Ominous):
    """equal shapes that are turned differently may touch"""
    name, n = "heteromino", 3
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 4), 2), ((5, 4), 2), ((4, 5), 2), ((2, 6), 1), ((6, 3), 1), ((1, 6), .2), ((5, 5), .5),
             ((3, 1), .2)]

    def kind(self, G, m):
        cells = G.list(m)
        r0, c0 = min(r for r, c in cells), min(c for r, c in cells)
        return frozenset((r - r0, c - c0) for r, c in cells)

    def clues(self, rng, G, regs, data):
        pass

    def fits(self, G, m, data):
        return True


@register
class Triplace(Blocks):
    """blocks of three; a clue counts the straight blocks that have a cell in its run"""
    name, n, holes = "triplace", 3, True
    wide, core = [((6, 7), 1), ((8, 6), 1), ((8, 9), 1), ((11, 4), .5), ((4, 11), .5)], 15
    sizes = [((4, 4), 2), ((4, 5), 3), ((5, 4), 3), ((5, 5), 2), ((3, 5), 1), ((3, 4), 1), ((6, 3), 1), ((2, 7), .5)]

    def pick_holes(self, rng, G):
        base = {(0, c) for c in range(G.C)} | {(r, 0) for r in range(G.R)} if rng.random() < 0.5 else set()
        rest = [x for x in G.cells if x not in base]
        extra = len(rest) % 3 + rng.choice([0, 3, 3, 6])
        if extra >= len(rest):
            raise Retry("size")
        return G.mask(base | set(rng.sample(rest, extra)))

    def run(self, G, data, r, c, k):
        out = []
        a, b = (0, 1) if k == 1 else (1, 0)
        while True:
            r, c = r + a, c + b
            if not G.ins(r, c) or data["holes"] >> G.i(r, c) & 1:
                return G.mask(out)
            out.append((r, c))

    def straight(self, G, m):
        h, w = G.dims(m)
        return min(h, w) == 1

    def value(self, G, regs, run):
        return sum(1 for m in regs if m & run and self.straight(G, m))

    def clues(self, rng, G, regs, data):
        p = rng.choice([0.2, 0.5, 0.9])
        data["runs"] = {}
        for i in bits(data["holes"]):
            for k in (1, 2):
                run = self.run(G, data, *G.cells[i], k)
                if run and rng.random() < p:
                    data["clues"][G.cells[i] + (k,)] = rng.choice(QMARKS) if rng.random() < 0.1 else self.value(G, regs, run)
                    data["runs"][G.cells[i] + (k,)] = run

    def draw_holes(self, board, rng, G, data):
        for i in bits(data["holes"]):
            board.sym(*G.cells[i], "kakuro", rng.choice([1, 2, 3, 4]) if data["mixed"] else 3)

    def draw(self, board, rng, G, data):
        for (r, c, k), v in data["clues"].items():
            board.sud(r, c, k, str(v) if isinstance(v, int) and rng.random() < .5 else v)

    def parts(self, G, full, data):
        return super().divisions(G, full, data)

    def together_ok(self, G, regs, data):
        return all(not isinstance(v, int) or self.value(G, regs, data["runs"][k]) == v for k, v in data["clues"].items())

    def divisions(self, G, full, data):
        for d in super().divisions(G, full, data):
            if self.together_ok(G, d, data):
                yield d


@register
class Voxas(Div):
    """blocks 1x2 and 1x3; circles on borders compare the two blocks"""
    name = "voxas"
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((5, 2), 1), ((1, 6), .4), ((6, 1), .4), ((4, 5), 2),
             ((5, 4), 2)]

    def by(self, G):
        key = (G.R, G.C, "voxas")
        if key not in _pieces:
            _pieces[key] = [[m for m in x if 2 <= pop(m) <= 3] for x in rects(G, "strip")]
        return _pieces[key]

    wide, core = [((6, 7), 1), ((8, 6), 1), ((8, 9), 1), ((11, 3), .5), ((3, 11), .5)], 15

    def random_division(self, rng, G, full, data):
        return next(covers(self.by(G), full, limit=3000, rng=rng), None)

    def region_ok(self, G, m, data):
        return 2 <= pop(m) <= 3 and min(G.dims(m)) == 1 and not any(m >> i & 1 and m >> j & 1 for i, j in data["clues"])

    def parts(self, G, full, data):
        return covers(self.by(G), full, ok=lambda m: self.region_ok(G, m, data))

    def together_ok(self, G, regs, data):
        ix = grids.room_index(G, regs)
        return all(self.relation(G, regs[ix[i]], regs[ix[j]]) == v for (i, j), v in data["clues"].items())

    def relation(self, G, a, b):
        return (pop(a) != pop(b)) + ((G.dims(a)[0] == 1) != (G.dims(b)[0] == 1))

    def clues(self, rng, G, regs, data):
        ix = grids.room_index(G, regs)
        p = rng.choice([0.05, 0.2, 0.5, 0.9])
        for i in range(G.N):
            for j in bits(G.nb[i]):
                if i < j and ix[i] != ix[j] and rng.random() < p:
                    data["clues"][i, j] = self.relation(G, regs[ix[i]], regs[ix[j]])

    def perturb(self, rng, G, data):
        if data["clues"]:
            data["clues"][rng.choice(sorted(data["clues"]))] = rng.randrange(3)

    def draw(self, board, rng, G, data):
        for (i, j), v in data["clues"].items():
            (r, c), (r2, c2) = G.cells[i], G.cells[j]
            board.wall_between((r, c), (r2, c2))
            board.sym(r, c, "circle_SS", {0: 1, 1: 5, 2: 2}[v], cat=2 if c == c2 else 3)

    def divisions(self, G, full, data):
        for d in covers(self.by(G), full, ok=lambda m: not any(m >> i & 1 and m >> j & 1 for i, j in data["clues"])):
            ix = grids.room_index(G, d)
            if all(self.relation(G, d[ix[i]], d[ix[j]]) == v for (i, j), v in data["clues"].items()):
                yield d


# ---- rectangles ---------------------------------------------------------------------------------------------

class Rects(Div):
    kind = None
    crossing = True      # four rectangles may meet in a point
    one_clue = True      # every rectangle holds exactly one clue
    empty_ok = False     # boards without any clue
    q = 0.15
    wide = [((6, 7), 1), ((8, 6), 1), ((8, 9), 1), ((10, 10), .5), ((12, 4), .5), ((3, 13), .5)]

    def region_ok(self, G, m, data):
        h, w = G.dims(m)
        if self.kind == "square" and h != w or self.kind in ("strip", "strip2") and min(h, w) > 1 or self.kind == "strip2" and h * w < 2:
            return False
        return h * w == pop(m) and self.fits(G, m, data)

    def together_ok(self, G, regs, data):
        return (self.crossing or no_cross(G, regs)) and self.whole(G, regs, data)

    def parts(self, G, full, data):
        return covers(rects(G, self.kind), full, ok=lambda m: self.fits(G, m, data))

    def random_division(self, rng, G, full, data):
        small = rng.random() < 0.5

        corner = self.corner_free(G)

        def last(m, chosen):
            return (not small or pop(m) <= 5 or rng.random() < 0.2) and (self.crossing or corner(m, chosen))
        return next(covers(rects(G, self.kind), full, limit=5000, rng=rng, last=last), None)

    def value(self, rng, G, m, i):
        raise NotImplementedError

    def clues(self, rng, G, regs, data):
        p = rng.choice([0.1, 0.3, 0.6])
        for m in regs:
            cells = bits(m)
            sel = [rng.choice(cells)] if self.one_clue else [i for i in cells if rng.random() < p]
            for i in sel:
                data["clues"][G.cells[i]] = rng.choice(QMARKS) if rng.random() < self.q else self.value(rng, G, m, i)
        if not data["clues"]:
            m = rng.choice(regs)
            i = rng.choice(bits(m))
            data["clues"][G.cells[i]] = self.value(rng, G, m, i)

    def agrees(self, G, m, i, v):
        raise NotImplementedError

    def fits(self, G, m, data):
        cl = [(i, data["clues"][G.cells[i]]) for i in bits(m) if G.cells[i] in data["clues"]]
        if self.one_clue and len(cl) != 1:
            return False
        return all(v in QMARKS or self.agrees(G, m, i, v) for i, v in cl)

    def whole(self, G, d, data):
        return True

    def corner_free(self, G):
        """no crossing at the upper left corner of a new rectangle (its other corners are looked at later)"""
        def last(m, chosen):
            r, c = G.cells[(m & -m).bit_length() - 1]
            if not r or not c:
                return True
            a, b, d = G.bit(r - 1, c - 1), G.bit(r - 1, c), G.bit(r, c - 1)
            return any(x & a and x & (b | d) for x in chosen)
        return last

    def divisions(self, G, full, data):
        for d in covers(rects(G, self.kind), full, ok=lambda m: self.fits(G, m, data),
                        last=None if self.crossing else self.corner_free(G)):
            if (self.crossing or no_cross(G, d)) and self.whole(G, d, data):
                yield d


@register
class Shikaku(Rects):
    name = "shikaku"

    def value(self, rng, G, m, i):
        return pop(m)

    def agrees(self, G, m, i, v):
        return pop(m) == v


@register
class Nawabari(Rects):
    name = "nawabari"

    def value(self, rng, G, m, i):
        return borders_at(G, i, m)

    def agrees(self, G, m, i, v):
        return borders_at(G, i, m) == v


@register
class SquareJam(Rects):
    name, kind, crossing, one_clue = "squarejam", "square", False, False

    def value(self, rng, G, m, i):
        return G.dims(m)[0]

    def agrees(self, G, m, i, v):
        return G.dims(m)[0] == v


@register
class Tatamibari(Rects):
    name, crossing, q = "tatamibari", False, 0.1

    def value(self, rng, G, m, i):
        h, w = G.dims(m)
        return "+" if h == w else "-" if w > h else "|"

    def agrees(self, G, m, i, v):
        return self.value(None, G, m, i) == v

    def perturb(self, rng, G, data):
        data["clues"][rng.choice(sorted(data["clues"]))] = rng.choice("+-|")


@register
class Usotatami(Rects):
    name, kind, crossing = "usotatami", "strip", False

    def value(self, rng, G, m, i):
        return rng.choice([k for k in range(0, 8) if k != pop(m)])

    def agrees(self, G, m, i, v):
        return pop(m) != v


@register
class Yajitatami(Rects):
    name, kind, crossing, one_clue, q = "yajitatami", "strip2", False, False, 0
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((5, 2), 1), ((1, 5), .4), ((5, 1), .4), ((3, 5), 2),
             ((5, 3), 2), ((4, 5), .6)]
    DIRS = {0: (-1, 0), 1: (0, -1), 2: (0, 1), 3: (1, 0)}

    def ahead(self, G, regs, i, d):
        """(a border lies directly in front, regions further on in that direction)"""
        r, c = G.cells[i]
        a, b = self.DIRS[d]
        ix = grids.room_index(G, regs)
        first = not G.ins(r + a, c + b) or ix[G.i(r + a, c + b)] != ix[i]
        n = 0
        while G.ins(r + a, c + b):
            n += ix[G.i(r, c)] != ix[G.i(r + a, c + b)]
            r, c = r + a, c + b
        return first, n

    def clues(self, rng, G, regs, data):
        opts = []
        for m in regs:
            for i in bits(m):
                for d in range(4):
                    f, n = self.ahead(G, regs, i, d)
                    if f and n == pop(m):
                        opts.append((G.cells[i], (n, d)))
        if not opts:
            raise Retry("no clue fits")
        rng.shuffle(opts)
        for x, v in opts[:rng.choice([1, 1, 2, 3, 5])]:
            data["clues"][x] = v

    def perturb(self, rng, G, data):
        x = rng.choice(sorted(data["clues"]))
        n, d = data["clues"][x]
        data["clues"][x] = (max(0, n + rng.choice([-1, 0, 1])), rng.randrange(4))

    def draw(self, board, rng, G, data):
        for (r, c), (n, d) in data["clues"].items():
            board.num(r, c, "%d_%d" % (n, d), "2")

    def agrees(self, G, m, i, v):
        return pop(m) == v[0]

    def whole(self, G, d, data):
        return all(self.ahead(G, d, G.i(*x), k) == (True, n) for x, (n, k) in data["clues"].items())


# ---- regions of any shape -----------------------------------------------------------------------------------

def grow_division(rng, G, full, k):
    """a random division of `full` into about k connected regions (a single one per seed)"""
    seeds = rng.sample(bits(full), min(k, pop(full)))
    regs = [1 << s for s in seeds]
    left = full & ~sum(regs)
    while left:
        opts = [x for x in range(len(regs)) if G.grow(regs[x]) & left]
        if not opts:
            regs.append(left & -left)
            left &= left - 1
            continue
        x = rng.choice(opts)
        b = 1 << rng.choice(bits(G.grow(regs[x]) & left))
        regs[x] |= b
        left &= ~b
    return regs


@register
class Compass(Div):
    """every region holds one compass, whose numbers count the region's cells further in each direction"""
    name, holes = "compass", True
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 2), ((2, 5), 1), ((5, 2), 1), ((1, 6), .4), ((6, 1), .4), ((4, 5), .8),
             ((2, 2), .2)]

    wide, core = [((6, 7), 1), ((8, 6), 1), ((7, 8), 1), ((10, 4), .5), ((4, 11), .5), ((1, 14), .3), ((14, 1), .3)], 14

    def random_division(self, rng, G, full, data):
        if data.get("wide"):
            return grow_division(rng, G, full, max(2, G.N // rng.choice([5, 6, 8, 12])))
        return grow_division(rng, G, full, rng.choice([1, 2, 2, 3, 3, 4]))

    def region_ok(self, G, m, data):
        at = sum(1 << i for i in data["at"])
        return G.connected(m) and pop(m & at) == 1 and all(not isinstance(v, int) or not m >> i & 1 or self.count(G, m, i, k) == v
                                                         for (i, k), v in data["clues"].items())

    def count(self, G, m, i, k):
        r, c = G.cells[i]
        return sum(1 for a, b in G.list(m) if (a < r, b > c, b < c, a > r)[k - 4])

    def clues(self, rng, G, regs, data):
        p = rng.choice([0.3, 0.6, 0.9])
        data["at"] = []
        for m in regs:
            i = rng.choice(bits(m))
            data["at"].append(i)
            ks = [k for k in (4, 5, 6, 7) if rng.random() < p]
            for k in ks:
                data["clues"][i, k] = self.count(G, m, i, k)
            for k in (4, 5, 6, 7):
                if k not in ks and (not ks or rng.random() < 0.5):
                    data["clues"][i, k] = rng.choice([" ", "?"])

    def draw(self, board, rng, G, data):
        for i in data["at"]:
            board.sym(*G.cells[i], "compass", 1)
        for (i, k), v in data["clues"].items():
            board.sud(*G.cells[i], k, str(v) if isinstance(v, int) and rng.random() < .5 else v)

    def divisions(self, G, full, data):
        at = 0
        for i in data["at"]:
            at |= 1 << i
        cl = {}
        for (i, k), v in data["clues"].items():
            if isinstance(v, int):
                cl.setdefault(i, []).append((k, v))

        def one(m):
            return pop(m & at) == 1

        def ok(m):
            i = (m & at).bit_length() - 1
            return pop(m & at) == 1 and all(self.count(G, m, i, k) == v for k, v in cl.get(i, ()))

        def growing(m):
            if pop(m & at) > 1:
                return False
            return True
        n = 0
        for d in grids.partitions(G, ok, full, growing_ok=growing):
            n += 1
            yield d
        _ = one


@register
class Araf(Div):
    """every region holds exactly two numbers and its size lies strictly between them"""
    name = "araf"
    sizes = Compass.sizes
    wide, core = Compass.wide, 14

    def region_ok(self, G, m, data):
        v = sorted(data["clues"][G.cells[i]] for i in bits(m) if G.cells[i] in data["clues"])
        return G.connected(m) and len(v) == 2 and v[0] < pop(m) < v[1]

    def random_division(self, rng, G, full, data):
        for _ in range(20):
            k = max(2, G.N // rng.choice([5, 6, 8, 12])) if data.get("wide") else rng.choice([1, 2, 2, 3, 3, 4])
            d = grow_division(rng, G, full, k)
            if min(map(pop, d)) > 1:
                return d
        return None

    def clues(self, rng, G, regs, data):
        for m in regs:
            n = pop(m)
            a, b = rng.sample(bits(m), 2)
            data["clues"][G.cells[a]] = rng.randint(max(1, n - 3), n - 1)
            data["clues"][G.cells[b]] = rng.randint(n + 1, n + 4)

    def divisions(self, G, full, data):
        cl = {G.i(*x): v for x, v in data["clues"].items()}
        at = 0
        for i in cl:
            at |= 1 << i

        def ok(m):
            t = m & at
            if pop(t) != 2:
                return False
            a, b = sorted(cl[i] for i in bits(t))
            return a < pop(m) < b

        return grids.partitions(G, ok, full, growing_ok=lambda m: pop(m & at) <= 2)


@register
class Tentaisho(Div):
    """every region is point symmetric about the one circle in it"""
    name, holes = "tentaisho", True
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((5, 2), 1), ((1, 6), .4), ((6, 1), .4), ((4, 5), 2),
             ((5, 4), 2), ((5, 5), 1)]

    wide, core = [((6, 7), 1), ((8, 6), 1), ((8, 8), 1), ((10, 4), .5), ((4, 11), .5), ((1, 14), .3), ((14, 1), .3)], 20

    def region_ok(self, G, m, data):
        inside = [p for p in data["dots"] if self.core_of(G, *p) & m]
        if len(inside) != 1 or self.core_of(G, *inside[0]) & ~m or not G.connected(m):
            return False
        for i in bits(m):
            j = self.mirror(G, i, *inside[0])
            if j is None or not m >> j & 1:
                return False
        return True

    def parts(self, G, full, data):
        return self.divisions(G, full, {**data, "dots": [p for p in data["dots"] if self.core_of(G, *p) & full]})

    def pick_holes(self, rng, G):
        if rng.random() < 0.6:
            return 0
        return G.mask(rng.sample(G.cells, rng.choice([1, 1, 2, 3])))

    def mirror(self, G, i, x, y):
        """image of cell i about the point with doubled coordinates (x, y)"""
        r, c = G.cells[i]
        r, c = x - r, y - c
        return G.i(r, c) if G.ins(r, c) else None

    def core_of(self, G, x, y):
        """the cells a circle at (x / 2, y / 2) touches"""
        return G.mask({(r, c) for r in (x // 2, (x + 1) // 2) for c in (y // 2, (y + 1) // 2)})

    def random_division(self, rng, G, full, data):
        left, regs, dots = full, [], []
        pts = [(x, y) for x in range(2 * G.R - 1) for y in range(2 * G.C - 1)]
        big = rng.random() < 0.6
        while left:
            cand = [p for p in pts if self.core_of(G, *p) & ~left == 0 and G.connected(self.core_of(G, *p))]
            p = rng.choice(cand)
            m = self.core_of(G, *p)
            for _ in range(rng.choice([0, 1, 2, 3, 4, 5]) if big else rng.choice([0, 0, 1])):
                opts = []
                for i in bits(G.grow(m) & left & ~m):
                    j = self.mirror(G, i, *p)
                    if j is not None and left >> j & 1:
                        opts.append(1 << i | 1 << j)
                if not opts:
                    break
                m |= rng.choice(opts)
            left &= ~m
            regs.append(m)
            dots.append(p)
        data["dots"] = dots
        return regs

    def clues(self, rng, G, regs, data):
        pass

    def perturb(self, rng, G, data):
        d = data["dots"]
        if len(d) > 1 and rng.random() < 0.5:
            d.pop(rng.randrange(len(d)))

    def draw(self, board, rng, G, data):
        for x, y in data["dots"]:
            board.sym(x // 2, y // 2, "circle_SS", rng.choice([1, 2]), cat=(x % 2 and y % 2 and 1) or (x % 2 and 2) or (y % 2 and 3))

    def divisions(self, G, full, data):
        dots = data["dots"]
        cores = [self.core_of(G, *p) for p in dots]
        if any(a & b for k, a in enumerate(cores) for b in cores[:k]) or any(c & ~full for c in cores):
            return []
        n = len(dots)

        # every cell goes to one circle, images together; regions connected at the end
        out = []
        owner = {}

        def place(left, regs):
            if len(out) > 4000:
                return
            if not left:
                if all(G.connected(m) for m in regs):
                    out.append(list(regs))
                return
            # cells of the region reachable check: choose the cell with the fewest possible owners
            best = None
            for i in bits(left):
                o = []
                for k in range(n):
                    j = self.mirror(G, i, *dots[k])
                    if j is not None and left >> j & 1 and G.flood(cores[k] & -cores[k], regs[k] | left) >> i & 1:
                        o.append((k, 1 << i | 1 << j))
                if best is None or len(o) < len(best):
                    best = o
                if len(o) <= 1:
                    break
            for k, b in best:
                regs[k] |= b
                place(left & ~b, regs)
                regs[k] &= ~b
        _ = owner
        rest = full
        for c in cores:
            rest &= ~c
        place(rest, list(cores))
        return out


@register
class Kramma(Div):
    """straight borders from side to side; every part holds circles of exactly one colour"""
    name = "kramma"
    sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((5, 2), 1), ((1, 6), .4), ((6, 1), .4), ((5, 5), 2),
             ((6, 5), 1), ((6, 6), .5), ((7, 6), .2), ((3, 9), .2), ((9, 3), .2)]

    def cut(self, G, hs, vs):
        rows = [x for x in range(G.R)]
        regs = {}
        for r in rows:
            for c in range(G.C):
                k = (sum(1 for h in hs if h <= r), sum(1 for v in vs if v <= c))
                regs[k] = regs.get(k, 0) | G.bit(r, c)
        return list(regs.values())

    def random_division(self, rng, G, full, data):
        p = rng.choice([0.2, 0.4, 0.6])
        return self.cut(G, [h for h in range(1, G.R) if rng.random() < p], [v for v in range(1, G.C) if rng.random() < p])

    def clues(self, rng, G, regs, data):
        p = rng.choice([0, 0.2, 0.5])
        one = rng.random() < 0.1
        for m in regs:
            k = 1 if one else rng.choice([1, 2])
            keep = rng.choice(bits(m))
            for i in bits(m):
                if i == keep or rng.random() < p:
                    data["clues"][G.cells[i]] = k

    def perturb(self, rng, G, data):
        k = rng.choice(sorted(data["clues"]))
        if rng.random() < 0.5:
            del data["clues"][k]
        else:
            data["clues"][k] = 3 - data["clues"][k]

    def draw(self, board, rng, G, data):
        for (r, c), v in data["clues"].items():
            board.sym(r, c, "circle_M", v)

    def divisions(self, G, full, data):
        w = G.mask([x for x, v in data["clues"].items() if v == 1])
        b = G.mask([x for x, v in data["clues"].items() if v == 2])
        for hm in range(1 << (G.R - 1)):
            for vm in range(1 << (G.C - 1)):
                d = self.cut(G, [h for h in range(1, G.R) if hm >> h - 1 & 1], [v for v in range(1, G.C) if vm >> v - 1 & 1])
                if all(bool(m & w) != bool(m & b) for m in d):
                    yield d
