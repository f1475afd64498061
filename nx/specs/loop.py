"""Rules of the loop and path puzzles.  A solution is the set of drawn edges, as a bit mask unless said otherwise."""

from functools import lru_cache

from nx.grids import (LoopDP, Walk, all_loops, bits, borders_of, grid, lines, pop, random_rooms, room_index)
from nx.spec import Case, Retry, Spec, put_num, register, wchoice
from nx.penpa import OPP

DXY = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}


def some(rng, keys, p=None):
    p = rng.choice([0.1, 0.3, 0.6, 1.0]) if p is None else p
    return [k for k in keys if rng.random() < p]


def read_lines(case, view, extra=()):
    """edge mask of the drawn lines, or a complaint; `extra` lists further legal cells (outside the grid)"""
    L, G = case.L, case.G
    m = 0
    for (r, c, d), v in view.halves.items():
        if not G.ins(r, c):
            return "line outside the grid at (%d, %d)" % (r, c)
        k = L.dir.get((G.i(r, c), d))
        if k is None:
            return "line leaves the grid at (%d, %d)" % (r, c)
        a, b = DXY[d]
        if (r + a, c + b, OPP[d]) not in view.halves:
            return "half line at (%d, %d) %s" % (r, c, d)
        m |= 1 << k
    return m


def read_borders(case, view):
    """edge mask (on grid vertices) of the drawn borders"""
    V, L, G = case.L.G, case.L, case.G
    m = 0
    for r, c in view.tops:
        if not (0 <= r <= G.R and 0 <= c < G.C):
            return "border outside the grid"
        m |= 1 << L.dir[V.i(r, c), "r"]
    for r, c in view.lefts:
        if not (0 <= r < G.R and 0 <= c <= G.C):
            return "border outside the grid"
        m |= 1 << L.dir[V.i(r, c), "d"]
    return m


class Loops(Spec):
    family = "loop"
    vertex = False
    multi = False
    window = 0.4
    enum_sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 4), ((3, 5), 1), ((5, 3), 1), ((2, 4), .4),
                  ((5, 2), .4), ((4, 5), 2), ((5, 4), 2), ((2, 2), .2), ((2, 6), .3), ((3, 6), .7)]
    win_sizes = [((5, 5), 2), ((6, 5), 1), ((5, 6), 1), ((6, 6), 2), ((4, 7), .7), ((7, 4), .7), ((7, 7), .4), ((3, 9), .4)]
    raw_limit = 1500
    rooms = False
    variants = [None]
    pins_ok = True
    min_cells = 4

    # rule pieces
    def secret(self, rng, L):
        """a random loop to build the case around"""
        ban = 0
        if rng.random() < 0.4:
            ban = sum(1 << i for i in rng.sample(range(L.G.N), rng.randrange(1 + L.G.N // 4)))
        dp = LoopDP(L, ban=ban, multi=self.multi)
        if not dp.count:
            raise Retry("no loop")
        return dp.sample(rng)

    def layout(self, rng, case, s):
        """fix drawn structure; returns (must, ban) cell masks"""
        if self.rooms:
            case.data["rooms"] = self.make_rooms(rng, case, s)
        return 0, 0

    def make_rooms(self, rng, case, s):
        return random_rooms(rng, case.G)

    def ok(self, w, data):
        return True

    def clues(self, rng, case, w):
        pass

    def perturb(self, rng, case):
        cl = case.data.get("clues")
        ks = [k for k, v in (cl or {}).items() if isinstance(v, int)]
        if ks:
            k = rng.choice(sorted(ks, key=repr))
            cl[k] = max(self.clue_min, cl[k] + rng.choice([-1, 1]))

    clue_min = 0

    def draw(self, board, rng, case):
        pass

    def params(self, rng, data):
        return {}

    def skip_walk(self, w, data):
        return False

    # machinery
    def skip(self, case, sol):
        # a board without any line at all: left open
        return isinstance(sol, int) and (sol == 0 or self.skip_walk(Walk(case.L, sol), case.data))

    def make(self, rng, oracle=None):
        win = rng.random() < self.window
        R, C = wchoice(rng, self.win_sizes if win else self.enum_sizes)
        G = grid(R, C)
        L = lines(R + 1, C + 1) if self.vertex else lines(R, C)
        data = {"variant": rng.choice(self.variants), "win": win}
        case = Case(self, G, None, data)
        case.L = L
        case.params = self.params(rng, data)
        s = self.secret(rng, L)
        must, ban = self.layout(rng, case, s)
        self.clues(rng, case, Walk(L, s))
        if rng.random() < (0.12 if win else 0.25):
            self.perturb(rng, case)
        case.on = case.off = 0
        dp = LoopDP(L, must, ban, multi=self.multi)
        order = list(range(L.M))
        rng.shuffle(order)
        if win:
            case.kind = "window"
        limit = self.raw_limit if win else 12000
        step = max(1, L.M // 12)
        while dp.count > limit:
            if not self.pins_ok:
                raise Retry("too many")
            for k in order[:step]:
                if s >> k & 1:
                    case.on |= 1 << k
                else:
                    case.off |= 1 << k
            order = order[step:]
            dp = LoopDP(L, must, ban, case.on, case.off, multi=self.multi)
        board = self.new_board(rng, R, C)
        case.board = board
        if "rooms" in data:
            outer = rng.random() < 0.5
            for a, b in borders_of(G, data["rooms"]):
                if not data.get("open", 0) & (1 << G.i(*a) | 1 << G.i(*b)):
                    board.wall_between(a, b)
            if outer:
                for r in range(R):
                    board.left(r, 0)
                    board.left(r, C)
                for c in range(C):
                    board.top(0, c)
                    board.top(R, c)
        self.draw(board, rng, case)
        for k in bits(case.on | case.off):
            self.mark(case, rng, k, case.on >> k & 1)
        exp = set()
        for m in dp.all():
            w = Walk(L, m)
            if m and self.ok(w, data) and not self.skip_walk(w, data):
                exp.add(m)
        case.expected = exp
        if self.pins_ok and not win and rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = self.pin(case, s, rng)
                if p:
                    case.expected = {m for m in case.expected if p(m)}
        return case

    def mark(self, case, rng, k, on):
        lay = "p" if rng.random() < 0.5 else "a"
        a, b = (case.L.G.cells[i] for i in case.L.edges[k])
        if self.vertex:
            if a[0] == b[0]:
                (case.board.top if on else case.board.topx)(a[0], a[1], lay)
            else:
                (case.board.left if on else case.board.leftx)(a[0], a[1], lay)
        elif not on:
            case.board.linex(a, b, lay)
        elif rng.random() < 0.15:
            if rng.random() < 0.5:
                case.board.half(a[0], a[1], "r" if a[0] == b[0] else "d", lay)
            else:
                case.board.half(b[0], b[1], "l" if a[0] == b[0] else "u", lay)
        else:
            case.board.line(a, b, lay)

    def pin(self, case, sol, rng):
        if not self.pins_ok:
            return None
        left = [k for k in range(case.L.M) if not (case.on | case.off) >> k & 1]
        if not left:
            return None
        k = rng.choice(left)
        v = sol >> k & 1
        if v:
            case.on |= 1 << k
        else:
            case.off |= 1 << k
        self.mark(case, rng, k, v)
        return lambda m: (m >> k & 1) == v

    def view(self, case, view):
        m = read_borders(case, view) if self.vertex else read_lines(case, view)
        return m if isinstance(m, str) else self.view_more(case, view, m)

    def view_more(self, case, view, m):
        return m

    def show(self, case, sol):
        if not isinstance(sol, int):
            return repr(sol)
        return show_lines(case.L, sol)


def show_lines(L, m):
    ch = {"": ".", "ud": "|", "lr": "-", "ul": "J", "ur": "L", "dl": "7", "dr": "r", "udlr": "+"}
    G = L.G
    return "/".join("".join(ch.get(L.dirs(G.i(r, c), m), "?") for c in range(G.C)) for r in range(G.R))


class LoopRooms(Loops):
    rooms = True

    def make_rooms(self, rng, case, s):
        if rng.random() < self.fit:
            r = self.fitting_rooms(rng, case, Walk(case.L, s))
            if r:
                return r
        return random_rooms(rng, case.G)

    fit = 0.0

    def fitting_rooms(self, rng, case, w):
        return None

    def put_in_room(self, board, rng, case, k, v, where="num"):
        r, c = case.G.cells[rng.choice(bits(case.data["rooms"][k]))]
        if where == "num":
            put_num(board, rng, r, c, v)
        else:
            board.sud(r, c, 0, v if rng.random() < 0.5 else str(v))


def segments(rng, w, n):
    """the loop's cells cut into n consecutive stretches"""
    o = w.order()
    k = rng.randrange(len(o))
    o = o[k:] + o[:k]
    cuts = sorted(rng.sample(range(1, len(o)), n - 1)) if n > 1 else []
    return [o[a:b] for a, b in zip([0] + cuts, cuts + [len(o)])]


def attach(rng, G, masks, rest, whole=False):
    """add the cells in `rest` to neighbouring masks (whole: component by component)"""
    masks = list(masks)
    if whole:
        for comp in G.comps(rest):
            opts = [k for k, m in enumerate(masks) if G.grow(comp) & m]
            masks[rng.choice(opts)] |= comp
        return masks
    while rest:
        opts = [(k, i) for k, m in enumerate(masks) for i in bits(G.grow(m) & rest)]
        k, i = rng.choice(opts)
        masks[k] |= 1 << i
        rest &= ~(1 << i)
    return masks


def mk(cells):
    return sum(1 << i for i in cells)


class VisitAll(Loops):
    """every cell that is not black is visited"""

    def black_from(self, rng, case, w):
        G = case.G
        b = G.full & ~w.cells
        if rng.random() < 0.06:
            b ^= 1 << rng.randrange(G.N)
        case.data["black"] = b
        return G.full & ~b, b

    def layout(self, rng, case, s):
        if self.rooms:
            case.data["rooms"] = self.make_rooms(rng, case, s)
        return self.black_from(rng, case, Walk(case.L, s))

    def draw_black(self, board, rng, case):
        for i in bits(case.data["black"]):
            board.surf(*case.G.cells[i], rng.choice([1, 3, 8, 4]), "p" if rng.random() < 0.8 else "a")

    def draw(self, board, rng, case):
        self.draw_black(board, rng, case)

    def secret(self, rng, L):
        if rng.random() < 0.4:
            dp = LoopDP(L, must=L.G.full)
            if dp.count:
                return dp.sample(rng)
        return super().secret(rng, L)


@register
class SimpleLoop(VisitAll):
    name = "simpleloop"


def circles(rng, board, case, key="circles"):
    for i, v in case.data[key].items():
        board.sym(*case.G.cells[i], "circle_L", 1 if v == "w" else 2)


@register
class Balance(Loops):
    name = "balance"

    def both(self, w, i):
        ds = w.dirs(i)
        return [w.arm(i, d) for d in ds]

    def clues(self, rng, case, w):
        cl, ci = {}, {}
        for i in some(rng, bits(w.cells)):
            a, b = self.both(w, i)
            ci[i] = "w" if a == b else "b"
            if rng.random() < 0.05:
                ci[i] = rng.choice("wb")
            if rng.random() < 0.4:
                cl[i] = "?" if rng.random() < 0.1 else a + b
        case.data["circles"], case.data["clues"] = ci, cl

    clue_min = 1

    def ok(self, w, data):
        for i, v in data["circles"].items():
            if not w.on(i):
                return False
        for i, v in data["circles"].items():
            a, b = self.both(w, i)
            if (a == b) != (v == "w"):
                return False
            n = data["clues"].get(i, "?")
            if n != "?" and a + b != n:
                return False
        return True

    def draw(self, board, rng, case):
        circles(rng, board, case)
        for i, v in case.data["clues"].items():
            put_num(board, rng, *case.G.cells[i], v)


@register
class Castle(Loops):
    name = "castle"

    def val(self, w, i, d):
        G = w.L.G
        r, c = G.cells[i]
        if d in "ud":
            rows = range(0, r) if d == "u" else range(r, G.R)
            return sum(1 for x in rows if w.has(G.i(x, c), "d"))
        cols = range(0, c) if d == "l" else range(c, G.C)
        return sum(1 for x in cols if w.has(G.i(r, x), "r"))

    def clues(self, rng, case, w):
        G = case.G
        cl, col = {}, {}
        for i in some(rng, bits(G.full & ~w.cells)):
            d = rng.choice("uldr")
            v = self.val(w, i, d)
            t = rng.random()
            cl[i] = None if t < 0.25 else [v, d]
            col[i] = "in" if w.inside() >> i & 1 else "out"
            if rng.random() < 0.25:
                col[i] = "gray"
            if rng.random() < 0.04:
                col[i] = rng.choice(["in", "out"])
            if cl[i] is None and col[i] == "in":
                cl[i] = "blank" if rng.random() < 0.6 else [v, d]
        case.data["clues"], case.data["col"] = cl, col

    def perturb(self, rng, case):
        ks = [i for i, v in case.data["clues"].items() if isinstance(v, list)]
        if ks:
            v = case.data["clues"][rng.choice(ks)]
            v[0] = max(0, v[0] + rng.choice([-1, 1]))

    def ok(self, w, data):
        for i, v in data["col"].items():
            if w.on(i):
                return False
        ins = w.inside()
        for i, v in data["col"].items():
            if v == "in" and not ins >> i & 1 or v == "out" and ins >> i & 1:
                return False
        for i, v in data["clues"].items():
            if isinstance(v, list) and self.val(w, i, v[1]) != v[0]:
                return False
        return True

    def draw(self, board, rng, case):
        for i, v in case.data["col"].items():
            r, c = case.G.cells[i]
            if v == "out":
                board.surf(r, c, 4)
            elif v == "gray":
                board.surf(r, c, rng.choice([1, 3, 8]))
        for i, v in case.data["clues"].items():
            r, c = case.G.cells[i]
            if v == "blank":
                board.num(r, c, " ")
            elif v:
                board.num(r, c, "%d_%d" % (v[0], "ulrd".index(v[1])), "2")


@register
class Country(LoopRooms):
    name = "country"
    fit = 0.85

    def fitting_rooms(self, rng, case, w):
        o = w.order()
        n = min(len(o), rng.choice([2, 2, 3, 3, 4, 5, 6]))
        segs = [mk(s) for s in segments(rng, w, n)]
        return attach(rng, case.G, segs, case.G.full & ~w.cells, whole=rng.random() < 0.9)

    def layout(self, rng, case, s):
        super().layout(rng, case, s)
        if len(case.data["rooms"]) < 2:
            raise Retry("one room")
        return 0, 0

    def clues(self, rng, case, w):
        case.data["clues"] = {k: "?" if rng.random() < 0.1 else pop(w.cells & case.data["rooms"][k])
                              for k in some(rng, range(len(case.data["rooms"])))}

    def ok(self, w, data):
        G = w.L.G
        for m in data["rooms"]:
            if w.crossings(m) != 2:
                return False
        for k, v in data["clues"].items():
            if v != "?" and pop(w.cells & data["rooms"][k]) != v:
                return False
        for a, b in borders_of(G, data["rooms"]):
            if not w.on(G.i(*a)) and not w.on(G.i(*b)):
                return False
        return True

    def draw(self, board, rng, case):
        for k, v in case.data["clues"].items():
            self.put_in_room(board, rng, case, k, v)


@register
class Nothing(LoopRooms):
    name = "nothing"
    fit = 0.85

    def fitting_rooms(self, rng, case, w):
        o = w.order()
        n = min(len(o), rng.choice([2, 2, 3, 3, 4, 5, 6]))
        segs = [mk(s) for s in segments(rng, w, n)]
        return segs + case.G.comps(case.G.full & ~w.cells)

    def ok(self, w, data):
        G = w.L.G
        for m in data["rooms"]:
            v = m & w.cells
            if v and (v != m or w.crossings(m) > 2):
                return False
        for a, b in borders_of(G, data["rooms"]):
            if not w.on(G.i(*a)) and not w.on(G.i(*b)):
                return False
        return True

    def skip_walk(self, w, data):
        # a loop that never leaves one room: "passes each room once" does not settle whether it counts
        return any(m & w.cells == w.cells for m in data["rooms"])


@register
class Detour(LoopRooms):
    name = "detour"
    enum_sizes = [((3, 4), 1), ((4, 3), 1), ((4, 4), 3), ((2, 5), .4), ((5, 2), .4), ((4, 5), 2), ((5, 4), 2), ((6, 3), .6),
                  ((6, 4), 2), ((4, 6), 2), ((2, 2), .2), ((5, 6), 2), ((6, 5), 2), ((3, 3), .2)]
    win_sizes = [((6, 6), 2), ((4, 7), 1), ((7, 4), 1), ((6, 7), 1), ((5, 8), .7), ((8, 6), .7), ((8, 8), .4)]

    def secret(self, rng, L):
        dp = LoopDP(L, must=L.G.full)
        return dp.sample(rng) if dp.count else 0

    def layout(self, rng, case, s):
        super().layout(rng, case, s)
        return case.G.full, 0

    def val(self, w, m):
        return sum(1 for i in bits(m) if w.turns(i))

    def clues(self, rng, case, w):
        case.data["clues"] = {k: "?" if rng.random() < 0.1 else self.val(w, case.data["rooms"][k])
                              for k in some(rng, range(len(case.data["rooms"])))}

    def ok(self, w, data):
        return all(v == "?" or self.val(w, data["rooms"][k]) == v for k, v in data["clues"].items())

    def draw(self, board, rng, case):
        for k, v in case.data["clues"].items():
            self.put_in_room(board, rng, case, k, v, "sud")


@register
class Dotchi(LoopRooms):
    name = "dotchi"

    def clues(self, rng, case, w):
        G, data = case.G, case.data
        ci = {}
        kind = [rng.choice("st") for _ in data["rooms"]]
        ix = room_index(G, data["rooms"])
        for i in some(rng, range(G.N)):
            if not w.on(i):
                ci[i] = "b"
            elif (kind[ix[i]] == "s") == w.straight(i) or rng.random() < 0.03:
                ci[i] = "w"
        data["circles"] = ci

    def ok(self, w, data):
        for i, v in data["circles"].items():
            if w.on(i) != (v == "w"):
                return False
        for m in data["rooms"]:
            if len({w.straight(i) for i in bits(m) if data["circles"].get(i) == "w"}) > 1:
                return False
        return True

    def draw(self, board, rng, case):
        circles(rng, board, case)


@register
class DoubleBack(VisitAll, LoopRooms):
    name = "doubleback"
    rooms = True
    fit = 0.9

    def layout(self, rng, case, s):
        w = Walk(case.L, s)
        G = case.G
        b = G.full & ~w.cells
        case.data["black"] = b
        rooms = None
        if rng.random() < 0.9:
            o = w.order()
            for _ in range(12):
                n = 2 * rng.choice([1, 2, 2, 3, 3, 4])
                if n > len(o):
                    continue
                segs = [mk(x) for x in segments(rng, w, n)]
                idx = list(range(n))
                rng.shuffle(idx)
                prs, used = [], set()
                for a in idx:
                    if a in used:
                        continue
                    for c in idx:
                        if c not in used and c != a and (c - a) % n not in (1, n - 1) and G.grow(segs[a]) & segs[c]:
                            prs.append(segs[a] | segs[c])
                            used |= {a, c}
                            break
                    else:
                        break
                if len(used) == n:
                    rooms = prs
                    break
        if rooms is None:
            rooms = [x for m in random_rooms(rng, G) for x in G.comps(m & ~b)]
        case.data["rooms"] = rooms + [1 << i for i in bits(b)]
        case.data["real"] = rooms
        case.data["open"] = 0
        if rng.random() < 0.4:      # a black cell is shut off whether or not its borders are drawn
            case.data["open"] = mk(i for i in bits(b) if rng.random() < 0.7)
        return G.full & ~b, b

    def ok(self, w, data):
        return all(w.crossings(m) == 4 for m in data["real"])


@register
class Geradeweg(Loops):
    name = "geradeweg"

    def lens(self, w, i):
        ds = w.dirs(i)
        if ds in ("ud", "lr"):
            return {w.arm(i, ds[0]) + w.arm(i, ds[1])}
        return {w.arm(i, d) for d in ds}

    def clues(self, rng, case, w):
        cl = {}
        for i in some(rng, range(case.G.N)):
            v = self.lens(w, i)
            if len(v) < 2:
                cl[i] = ("?" if rng.random() < 0.12 else v.pop()) if v else 0
        if rng.random() < 0.6:
            cl = {i: v for i, v in cl.items() if v != 0}
        case.data["clues"] = cl

    def ok(self, w, data):
        for i, v in data["clues"].items():
            if w.on(i) != (v != 0):
                return False
        for i, v in data["clues"].items():
            if v != 0:
                x = self.lens(w, i)
                if len(x) > 1 or v != "?" and x != {v}:
                    return False
        return True

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            put_num(board, rng, *case.G.cells[i], v)


class YajiBase(Loops):
    """cells off the loop are shaded unless they are clue cells; shaded cells do not touch"""
    gray = True

    def layout(self, rng, case, s):
        w = Walk(case.L, s)
        G = case.G
        if self.rooms:
            case.data["rooms"] = self.make_rooms(rng, case, s)
        off = bits(G.full & ~w.cells)
        rng.shuffle(off)
        black = gray = 0
        p = rng.choice([0, 0.2, 0.5])
        for i in off:
            if G.nb[i] & black or rng.random() < p:
                gray |= 1 << i
            else:
                black |= 1 << i
        case.data["gray"] = gray if self.gray else 0
        case.data["hint"] = black
        return (0, gray) if self.gray else (0, 0)

    def black(self, w, data):
        return w.L.G.full & ~w.cells & ~data["gray"]

    def ok(self, w, data):
        b = self.black(w, data)
        return not w.L.G.adjacent(b) and self.clue_ok(w, b, data)

    def clue_ok(self, w, b, data):
        return True

    def view_more(self, case, view, m):
        want = case.G.list(self.black(Walk(case.L, m), case.data))
        got = sorted(view.shaded())
        return m if got == sorted(want) else "shaded cells %r beside the loop %s" % (got, show_lines(case.L, m))

    def pin(self, case, sol, rng):
        if rng.random() < 0.25:
            left = [i for i in bits(self.black(Walk(case.L, sol), case.data)) if not case.data.get("sh", 0) >> i & 1]
            if left:
                i = rng.choice(left)
                case.data["sh"] = case.data.get("sh", 0) | 1 << i
                case.board.surf(*case.G.cells[i], rng.choice([1, 3, 8, 4]), rng.choice("pa"))
                inc = case.L.inc[i]
                return lambda m: not m & inc
        return super().pin(case, sol, rng)


@register
class Koburin(YajiBase):
    name = "koburin"

    def clues(self, rng, case, w):
        b = self.black(w, case.data)
        case.data["clues"] = {i: "?" if rng.random() < 0.3 else pop(case.G.nb[i] & b) for i in bits(case.data["gray"])}

    def clue_ok(self, w, b, data):
        return all(v == "?" or pop(w.L.G.nb[i] & b) == v for i, v in data["clues"].items())

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            put_num(board, rng, *case.G.cells[i], rng.choice(["?", " "]) if v == "?" else v)


@register
class Yajilin(YajiBase):
    name = "yajilin"

    def val(self, G, b, i, d):
        return sum(1 for j in G.ray(*G.cells[i], DXY[d]) if b >> j & 1)

    def clues(self, rng, case, w):
        b = self.black(w, case.data)
        cl = {}
        for i in bits(case.data["gray"]):
            d = rng.choice("uldr")
            cl[i] = "?" if rng.random() < 0.2 else [self.val(case.G, b, i, d), d]
        case.data["clues"] = cl

    def perturb(self, rng, case):
        ks = [i for i, v in case.data["clues"].items() if v != "?"]
        if ks:
            v = case.data["clues"][rng.choice(ks)]
            v[0] = max(0, v[0] + rng.choice([-1, 1]))

    def clue_ok(self, w, b, data):
        return all(v == "?" or self.val(w.L.G, b, i, v[1]) == v[0] for i, v in data["clues"].items())

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            if v == "?":
                board.num(*case.G.cells[i], rng.choice(["?", " ", ""]))
            else:
                board.num(*case.G.cells[i], "%d_%d" % (v[0], "ulrd".index(v[1])), "2")


@register
class YajilinRegions(YajiBase, LoopRooms):
    name = "yajilin_regions"
    gray = False
    rooms = True

    def secret(self, rng, L):
        # off-loop cells must not touch: sample loops that visit a random cover
        G = L.G
        off = 0
        for i in rng.sample(range(G.N), G.N):
            if rng.random() < 0.5 and not G.nb[i] & off:
                off |= 1 << i
        for _ in range(40):
            dp = LoopDP(L, must=G.full & ~off & ~sum(1 << i for i in bits(G.full) if not G.nb[i] & off and rng.random() < .3))
            if dp.count:
                return dp.sample(rng)
            if not off:
                break
            off &= ~(1 << rng.choice(bits(off)))
        return super().secret(rng, L)

    def clues(self, rng, case, w):
        b = case.G.full & ~w.cells
        case.data["clues"] = {k: "?" if rng.random() < 0.1 else pop(b & case.data["rooms"][k])
                              for k in some(rng, range(len(case.data["rooms"])))}

    def clue_ok(self, w, b, data):
        return all(v == "?" or pop(b & data["rooms"][k]) == v for k, v in data["clues"].items())

    def draw(self, board, rng, case):
        for k, v in case.data["clues"].items():
            self.put_in_room(board, rng, case, k, v, "sud")


@register
class Masyu(Loops):
    name = "masyu"

    def kind(self, w, i):
        G = w.L.G
        if w.straight(i):
            return "w" if any(w.turns(j) for j in w.nbrs(i)) else None
        if w.turns(i):
            return "b" if all(w.straight(j) for j in w.nbrs(i)) else None
        return None

    def clues(self, rng, case, w):
        ci = {}
        for i in some(rng, bits(w.cells)):
            v = self.kind(w, i)
            if rng.random() < 0.03:
                v = rng.choice("wb")
            if v:
                ci[i] = v
        case.data["circles"] = ci

    def ok(self, w, data):
        return all(self.kind(w, i) == v for i, v in data["circles"].items())

    def draw(self, board, rng, case):
        circles(rng, board, case)


@register
class MoonSun(LoopRooms):
    name = "moonsun"
    fit = 0.9

    def fitting_rooms(self, rng, case, w):
        o = w.order()
        n = min(len(o) // 2 * 2, rng.choice([2, 2, 4, 4, 6]))
        segs = [mk(s) for s in segments(rng, w, n)]
        return attach(rng, case.G, segs, case.G.full & ~w.cells)

    def layout(self, rng, case, s):
        super().layout(rng, case, s)
        if len(case.data["rooms"]) % 2:
            raise Retry("odd")
        return 0, 0

    def clues(self, rng, case, w):
        G, data = case.G, case.data
        ix = room_index(G, data["rooms"])
        # alternate along the loop
        kind, cur, last = {}, 0, None
        for i in w.order():
            if ix[i] != last:
                last = ix[i]
                kind.setdefault(last, cur)
                cur ^= 1
        p = rng.choice([0.15, 0.4, 0.8])
        data["ms"] = {}
        for k, m in enumerate(data["rooms"]):
            vis = bits(m & w.cells)
            if not vis:
                continue
            for i in bits(m):
                if rng.random() < p:
                    data["ms"][i] = kind[k] if w.on(i) else 1 - kind[k]
            if not any(i in data["ms"] for i in vis):
                data["ms"][rng.choice(vis)] = kind[k]
        if rng.random() < 0.1 and data["ms"]:
            i = rng.choice(sorted(data["ms"]))
            if rng.random() < 0.5:
                data["ms"][i] ^= 1
            else:
                del data["ms"][i]

    def ok(self, w, data):
        kind = []
        for m in data["rooms"]:
            if w.crossings(m) != 2:
                return False
            vis = {x: set() for x in (0, 1)}
            for i, v in data["ms"].items():
                if m >> i & 1:
                    vis[v].add(w.on(i))
            # all of one kind visited and none of the other, at least one visited
            poss = [v for v in (0, 1) if vis[v] == {True} and vis[1 - v] <= {False}]
            if not poss:
                return False
            kind.append(poss[0])
        ix = room_index(w.L.G, data["rooms"])
        for k in bits(w.m):
            a, b = w.L.edges[k]
            if ix[a] != ix[b] and kind[ix[a]] == kind[ix[b]]:
                return False
        return True

    def draw(self, board, rng, case):
        for i, v in case.data["ms"].items():
            board.sym(*case.G.cells[i], "sun_moon", v + 1)


VSIZES = [((2, 2), 1), ((2, 3), 2), ((3, 2), 2), ((3, 3), 4), ((1, 3), .3), ((4, 1), .3), ((2, 4), 1.5), ((4, 2), 1.5),
          ((3, 4), 3), ((4, 3), 3), ((1, 1), .1)]
VWIN = [((4, 4), 2), ((5, 4), 1), ((4, 5), 1), ((5, 5), 2), ((3, 6), .7), ((6, 3), .7), ((6, 6), .5), ((2, 8), .4)]


class VLoops(Loops):
    vertex = True
    enum_sizes = VSIZES
    win_sizes = VWIN


@register
class Slitherlink(VLoops):
    name = "slitherlink"
    kind = "edges"
    sheep = 0.0

    def around(self, w, i):
        """(edges, vertices) of the loop around a cell"""
        G = grid(w.L.G.R - 1, w.L.G.C - 1)
        V = w.L.G
        r, c = G.cells[i]
        a = V.i(r, c)
        e = sum(1 for x, d in ((a, "r"), (a, "d"), (a + V.C, "r"), (a + 1, "d")) if w.has(x, d))
        v = sum(1 for x in (a, a + 1, a + V.C, a + V.C + 1) if w.on(x))
        return e, v

    def val(self, w, i):
        e, v = self.around(w, i)
        return {"edges": e, "vertices": v, "touch": v - e}[self.kind]

    def inside_cell(self, w, i):
        V = w.L.G
        r, c = grid(V.R - 1, V.C - 1).cells[i]
        return sum(1 for x in range(r + 1) if w.has(V.i(x, c), "r")) % 2 == 1

    def clues(self, rng, case, w):
        cl = {}
        for i in some(rng, range(case.G.N)):
            if rng.random() < self.sheep:
                cl[i] = "S" if self.inside_cell(w, i) else "W"
            else:
                cl[i] = self.val(w, i)
        case.data["clues"] = cl

    def ok(self, w, data):
        for i, v in data["clues"].items():
            if v in ("S", "W"):
                if self.inside_cell(w, i) != (v == "S"):
                    return False
            elif self.val(w, i) != v:
                return False
        return True

    def skip_walk(self, w, data):
        return self.kind == "touch" and pop(w.m) == 4

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            put_num(board, rng, *case.G.cells[i], v)


@register
class SlitherSheep(Slitherlink):
    name, solver, family = "slitherlink/sheep", "slitherlink", "option"
    sheep = 0.4

    def params(self, rng, data):
        return {"swslither": True}


@register
class SlitherTouch(Slitherlink):
    name, solver, family = "slitherlink/touch", "slitherlink", "option"
    kind = "touch"
    sheep = 0.2

    def params(self, rng, data):
        return {"tslither": True, "swslither": True}


@register
class SlitherVertex(Slitherlink):
    name, solver, family = "slitherlink/vertex", "slitherlink", "option"
    kind = "vertices"
    sheep = 0.2

    def params(self, rng, data):
        return {"vslither": True, "swslither": True}


@register
class Myopia(VLoops):
    name = "myopia"

    def val(self, w, i):
        """directions of the nearest loop segments, or None when none is seen"""
        V = w.L.G
        r, c = grid(V.R - 1, V.C - 1).cells[i]
        dist = {}
        for d in "uldr":
            k = 0
            while True:
                if d == "u":
                    x = (r - k, c, "r") if r - k >= 0 else None
                elif d == "d":
                    x = (r + 1 + k, c, "r") if r + 1 + k < V.R else None
                elif d == "l":
                    x = (r, c - k, "d") if c - k >= 0 else None
                else:
                    x = (r, c + 1 + k, "d") if c + 1 + k < V.C else None
                if x is None:
                    break
                if w.has(V.i(x[0], x[1]), x[2]):
                    dist[d] = k
                    break
                k += 1
        if not dist:
            return None
        n = min(dist.values())
        return "".join(d for d in "uldr" if dist.get(d) == n)

    def clues(self, rng, case, w):
        cl = {}
        for i in some(rng, range(case.G.N)):
            v = self.val(w, i)
            if v:
                cl[i] = v
            elif rng.random() < 0.3:
                cl[i] = "uldr"
            if v and rng.random() < 0.03:
                cl[i] = "".join(d for d in "uldr" if rng.random() < 0.5) or "u"
        case.data["clues"] = cl

    def ok(self, w, data):
        return all(self.val(w, i) == v for i, v in data["clues"].items())

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            st = [int("l" in v), int("u" in v), int("r" in v), int("d" in v), 0, 0, 0, 0]
            board.sym(*case.G.cells[i], "arrow_cross", st)


@register
class Onsen(LoopRooms):
    name = "onsen"
    multi = True
    window = 0.35
    fit = 0.9

    def secret(self, rng, L):
        for _ in range(20):
            s = super().secret(rng, L)
            if s:
                return s
        raise Retry("empty")

    def fitting_rooms(self, rng, case, w):
        """rooms built from equal stretches of the loops"""
        G, L = case.G, case.L
        best = None
        for _ in range(6):
            masks = []
            for comp in L.components(w.m):
                o = Walk(L, comp).order()
                divs = [n for n in range(1, len(o) + 1) if len(o) % n == 0 and n > 1]
                n = rng.choice(divs)
                k = rng.randrange(len(o))
                o = o[k:] + o[:k]
                masks += [mk(o[a:a + n]) for a in range(0, len(o), n)]
            masks = attach(rng, G, masks, G.full & ~w.cells)
            # merge some neighbouring rooms visited by different loops
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                comps = [L.cells_of(c) for c in L.components(w.m)]
                prs = [(a, b) for a in range(len(masks)) for b in range(a) if G.grow(masks[a]) & masks[b] and
                       not any(c & masks[a] and c & masks[b] for c in comps)]
                if prs:
                    a, b = rng.choice(prs)
                    masks[b] |= masks[a]
                    del masks[a]
            best = masks
        return best

    def clues(self, rng, case, w):
        cl = {}
        L, G = case.L, case.G
        for comp in L.components(w.m):
            cs = L.cells_of(comp)
            i = rng.choice(bits(cs))
            room = next(m for m in case.data["rooms"] if m >> i & 1)
            cl[i] = "?" if rng.random() < 0.35 else pop(cs & room)
        case.data["clues"] = cl

    clue_min = 1

    def ok(self, w, data):
        if not w.m:
            return False
        for m in data["rooms"]:
            if not m & w.cells:
                return False
        for i in data["clues"]:
            if not w.on(i):
                return False
        for comp in w.L.components(w.m):
            cs = w.L.cells_of(comp)
            have = [i for i in data["clues"] if cs >> i & 1]
            if len(have) != 1:
                return False
            v = data["clues"][have[0]]
            v = None if v == "?" else v
            lw = Walk(w.L, comp)
            for m in data["rooms"]:
                n = pop(m & cs)
                if n:
                    if v is None:
                        v = n
                    if n != v or lw.crossings(m) > 2:
                        return False
        return True

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            put_num(board, rng, *case.G.cells[i], v)


@lru_cache(32)
def pipe_sets(R, C):
    """single closed curves through every cell that may cross themselves straight"""
    L = lines(R, C)
    out = []
    for m in L.even():
        if any(not m & inc for inc in L.inc):
            continue
        if pipe_single(L, m):
            out.append(m)
    return out


def pipe_single(L, m):
    w = Walk(L, m)
    start = (m & -m).bit_length() - 1
    prev, cur = L.edges[start]
    first, n = (prev, cur), 0
    st = {"u": -L.G.C, "d": L.G.C, "l": -1, "r": 1}
    while True:
        n += 1
        d = next(k for k, x in st.items() if x == cur - prev) if L.G.C > 1 else ("d" if cur > prev else "u")
        if L.deg(cur, m) == 4:
            nxt = cur + st[d]
        else:
            nxt = next(j for j in w.nbrs(cur) if j != prev)
        prev, cur = cur, nxt
        if (prev, cur) == first:
            break
        if n > 4 * L.M:
            return False
    return n == pop(m)


@register
class PipeLink(Loops):
    name = "pipelink"
    enum_sizes = [((3, 3), 1), ((3, 4), 2), ((4, 3), 2), ((4, 4), 4), ((4, 5), 1), ((5, 4), 1), ((2, 5), .3), ((3, 6), 1),
                  ((6, 3), 1), ((2, 2), .1), ((3, 5), 1)]

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.enum_sizes)
        G, L = grid(R, C), lines(R, C)
        cand = pipe_sets(R, C)
        data = {"given": {}}
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data)
        case.L = L
        case.on = case.off = 0
        case.expected = set(cand)
        if not cand:
            return case
        s = rng.choice(cand)
        if rng.random() < 0.6:
            for i in some(rng, range(G.N), rng.choice([0.05, .15, .3])):
                data["given"][i] = L.dirs(i, s)
            if rng.random() < 0.1 and data["given"]:
                i = rng.choice(sorted(data["given"]))
                data["given"][i] = L.dirs(i, rng.choice(cand))
        for i, ds in data["given"].items():
            for d in ds:
                board.half(*G.cells[i], d, "p")
            case.expected = {m for m in case.expected if L.dirs(i, m) == ds}
        return case

    def pin(self, case, sol, rng):
        left = [i for i in range(case.G.N) if i not in case.data["given"]]
        if not left:
            return None
        i = rng.choice(left)
        ds = case.L.dirs(i, sol)
        case.data["given"][i] = ds
        for d in ds:
            case.board.half(*case.G.cells[i], d, rng.choice("pa"))
        return lambda m: case.L.dirs(i, m) == ds


@register
class RailPool(VisitAll, LoopRooms):
    name = "railpool"
    rooms = True

    def val(self, w, m):
        out = set()
        for i in bits(m & w.cells):
            ds = w.dirs(i)
            if ds in ("ud", "lr"):
                out.add(w.arm(i, ds[0]) + w.arm(i, ds[1]))
            else:
                out |= {w.arm(i, d) for d in ds}
        return out

    def clues(self, rng, case, w):
        cl = {}
        for k in some(rng, range(len(case.data["rooms"]))):
            v = sorted(self.val(w, case.data["rooms"][k]))
            if 0 < len(v) <= 4 and max(v) <= 9:
                v = ["?" if rng.random() < 0.25 else x for x in v]
                rng.shuffle(v)
                cl[k] = v
        case.data["clues"] = cl

    def perturb(self, rng, case):
        cl = case.data["clues"]
        if cl:
            v = cl[rng.choice(sorted(cl))]
            k = rng.randrange(len(v))
            x = rng.choice([1, 2, 3])
            if x not in v:
                v[k] = x

    def ok(self, w, data):
        for k, v in data["clues"].items():
            have = self.val(w, data["rooms"][k])
            if len(have) != len(v) or any(x != "?" and x not in have for x in v):
                return False
        return True

    def draw(self, board, rng, case):
        self.draw_black(board, rng, case)
        for k, v in case.data["clues"].items():
            free = bits(case.data["rooms"][k] & ~case.data["black"]) or bits(case.data["rooms"][k])
            board.num(*case.G.cells[rng.choice(free)], "".join(map(str, v)), "4")


RING = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


@register
class TapaLoop(Loops):
    name = "tapaloop"
    win_sizes = [((5, 5), 2), ((6, 5), 1), ((5, 6), 1), ((6, 6), 1), ((4, 7), .7), ((7, 4), .7)]

    def val(self, w, i):
        G, L = w.L.G, w.L
        r, c = G.cells[i]
        ring = [G.i(r + a, c + b) if G.ins(r + a, c + b) else None for a, b in RING]
        on = [x is not None and w.on(x) for x in ring]
        link = []
        for k in range(8):
            x, y = ring[k], ring[(k + 1) % 8]
            link.append(x is not None and y is not None and any(y == j for j in w.nbrs(x)))
        if all(link):
            return [8]
        k0 = next(k for k in range(8) if not link[k])      # the stretch break lies after ring cell k0
        out, n = [], 0
        for j in range(1, 9):
            k = (k0 + j) % 8
            if on[k]:
                n += 1
            if not link[k] and n:
                out.append(n)
                n = 0
        return sorted(out) or [0]

    def clues(self, rng, case, w):
        cl = {}
        for i in bits(case.data["black"]):
            v = [("?" if rng.random() < 0.2 else x) for x in self.val(w, i)]
            rng.shuffle(v)
            cl[i] = v
        case.data["clues"] = cl

    def layout(self, rng, case, s):
        w = Walk(case.L, s)
        off = bits(case.G.full & ~w.cells)
        if case.params.get("visit_all"):
            ch = off
        else:
            ch = some(rng, off, rng.choice([.15, .3, .6, 1]))
        b = mk(ch)
        case.data["black"] = b
        return (case.G.full & ~b if case.params.get("visit_all") else 0), b

    def perturb(self, rng, case):
        cl = case.data["clues"]
        if cl:
            v = cl[rng.choice(sorted(cl))]
            k = rng.randrange(len(v))
            if v[k] not in ("?", 0):
                v[k] = min(8, max(1, v[k] + rng.choice([-1, 1])))

    def ok(self, w, data):
        for i, v in data["clues"].items():
            have = self.val(w, i)
            if len(have) != len(v):
                return False
            for x in v:
                if x != "?":
                    if x not in have:
                        return False
                    have.remove(x)
        return True

    def draw(self, board, rng, case):
        for i, v in case.data["clues"].items():
            board.num(*case.G.cells[i], "".join(map(str, v)), "4")


@register
class TapaLoopAll(TapaLoop):
    name, solver, family = "tapaloop/visit_all", "tapaloop", "option"

    def params(self, rng, data):
        return {"visit_all": True}


@register
class Nagare(Loops):
    """solutions are (edge mask): the drawing does not show which way round the loop is travelled"""
    name = "nagare"
    pins_ok = False
    window = 0.0
    enum_sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((4, 4), 4), ((3, 5), 1), ((5, 3), 1), ((2, 5), .4), ((4, 5), 1)]
    cap = 150

    def layout(self, rng, case, s):
        w = Walk(case.L, s)
        G = case.G
        o = w.order()
        if rng.random() < 0.5:
            o = o[::-1]
        go = self.flow(w, o)
        arrows, winds, black = {}, {}, 0
        free = bits(G.full & ~w.cells)
        for i in free:
            if rng.random() < 0.3:
                black |= 1 << i
        wcells = [i for i in free if not black >> i & 1 and rng.random() < 0.6]
        blk0 = black | mk(wcells)
        for i in wcells:
            fit = [d for d in "uldr" if all(j not in go or self.goes(go[j], d) for j in self.range(G, i, d, blk0))]
            hid = [d for d in fit if not self.wind_ok(G, i, d, go)]      # only allowed because something stops the wind
            opts = (hid if hid and rng.random() < 0.7 else fit) if rng.random() < 0.95 else ["u", "d"]
            if opts:
                winds[i] = rng.choice(opts)
        # winds stop at black cells and wind cells; decide again with all of them known
        blk = black | mk(winds)
        for i in list(winds):
            rg = self.range(G, i, winds[i], blk)
            if any(j in go and not self.goes(go[j], winds[i]) for j in rg) and rng.random() < 0.9:
                del winds[i]
        p = rng.choice([0.05, 0.1, 0.3])
        for i in o:
            if rng.random() < p:
                arrows[i] = go[i][1]
        if rng.random() < 0.05 and arrows:
            arrows[rng.choice(sorted(arrows))] = rng.choice("uldr")
        case.data.update(arrows=arrows, winds=winds, black=black)
        return mk(arrows), mk(winds) | black

    @staticmethod
    def flow(w, o):
        """cell -> (direction moved to come in, direction moved to go out)"""
        st = {-w.L.G.C: "u", w.L.G.C: "d", -1: "l", 1: "r"}
        if w.L.G.C == 1:
            st = {-1: "u", 1: "d"}
        n = len(o)
        return {o[k]: (st[o[k] - o[k - 1]], st[o[(k + 1) % n] - o[k]]) for k in range(n)}

    @staticmethod
    def goes(io, d):
        return d in io

    def range(self, G, i, d, blk):
        out = []
        for j in G.ray(*G.cells[i], DXY[d]):
            if blk >> j & 1:
                break
            out.append(j)
        return out

    def wind_ok(self, G, i, d, go):
        return all(j not in go or self.goes(go[j], d) for j in G.ray(*G.cells[i], DXY[d]))

    def ok(self, w, data):
        G = w.L.G
        if any(not w.on(i) for i in data["arrows"]):
            return False
        blk = data["black"] | mk(data["winds"])
        for o in (w.order(), w.order()[::-1]):
            go = self.flow(w, o)
            if all(go[i] == (d, d) for i, d in data["arrows"].items()) and \
                    all(j not in go or self.goes(go[j], d) for i, d in data["winds"].items()
                        for j in self.range(G, i, d, blk)):
                return True
        return False

    def draw(self, board, rng, case):
        num = {"l": 1, "u": 3, "r": 5, "d": 7}
        for i in bits(case.data["black"]):
            board.surf(*case.G.cells[i], rng.choice([1, 3, 8, 4]))
        for i, d in case.data["arrows"].items():
            board.sym(*case.G.cells[i], "arrow_B_B", num[d])
        for i, d in case.data["winds"].items():
            board.sym(*case.G.cells[i], "arrow_B_W", num[d])
            if rng.random() < 0.5:
                board.surf(*case.G.cells[i], 4)

    def layout_pins(self):
        return None


# ---- paths --------------------------------------------------------------------------------------------------

def haisu_paths(G, a, b, limit=60000):
    """Hamiltonian paths from a to b as lists of cells"""
    out = []
    N = G.N
    budget = [limit]

    def rec(cur, seen, path):
        budget[0] -= 1
        if budget[0] < 0:
            raise Retry("too big")
        if cur == b:
            if len(path) == N:
                out.append(list(path))
            return
        left = G.full & ~seen
        if G.flood(left & -left, left) != left or not left >> b & 1:
            return
        ends = 0
        for i in bits(left):
            if i != b and pop(G.nb[i] & (left | 1 << cur)) < 2:
                return
        for j in bits(G.nb[cur] & left):
            path.append(j)
            rec(j, seen | 1 << j, path)
            path.pop()

    rec(a, 1 << a, [a])
    return out


def random_hamiltonian(rng, G):
    """backbite from a snake"""
    p = []
    for r in range(G.R):
        row = [G.i(r, c) for c in range(G.C)]
        p += row if r % 2 == 0 else row[::-1]
    for _ in range(8 * G.N):
        if rng.random() < 0.5:
            p.reverse()
        e = p[-1]
        j = rng.choice(bits(G.nb[e]))
        k = p.index(j)
        if k < len(p) - 2:
            p = p[:k + 1] + p[:k:-1]
    return p


def path_mask(G, L, p):
    m = 0
    st = {-G.C: "u", G.C: "d", -1: "l", 1: "r"} if G.C > 1 else {-1: "u", 1: "d"}
    for a, b in zip(p, p[1:]):
        m |= 1 << L.dir[a, st[b - a]]
    return m


@register
class Haisu(Spec):
    name = "haisu"
    family = "loop"
    sizes = [((3, 3), 3), ((3, 4), 2), ((4, 3), 2), ((4, 4), 3), ((2, 4), .7), ((5, 2), .7), ((3, 5), 2), ((4, 5), 2),
             ((5, 4), 2), ((5, 5), 2), ((3, 6), 1), ((1, 4), .2), ((4, 6), .7)]

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G, L = grid(R, C), lines(R, C)
        s = random_hamiltonian(rng, G)
        rooms = random_rooms(rng, G)
        ix = room_index(G, rooms)
        a, b = s[0], s[-1]
        vis = self.visits(s, ix)
        cl = {i: vis[i] for i in some(rng, range(G.N), rng.choice([.1, .3, .7])) if i not in (a, b)}
        if cl and rng.random() < 0.2:
            i = rng.choice(sorted(cl))
            cl[i] = max(1, cl[i] + rng.choice([-1, 1]))
        data = {"S": a, "G": b, "rooms": rooms, "clues": cl}
        board = self.new_board(rng, R, C)
        for x, y in borders_of(G, rooms):
            board.wall_between(x, y)
        board.num(*G.cells[a], "S")
        board.num(*G.cells[b], "G")
        for i, v in cl.items():
            put_num(board, rng, *G.cells[i], v)
        case = Case(self, G, board, data)
        case.L = L
        case.expected = set()
        for p in haisu_paths(G, a, b):
            v = self.visits(p, ix)
            if all(v[i] == n for i, n in cl.items()):
                case.expected.add(path_mask(G, L, p))
        if len(case.expected) > self.cap:
            raise Retry("too many")
        return case

    @staticmethod
    def visits(p, ix):
        cnt, out, last = {}, {}, None
        for i in p:
            if ix[i] != last:
                last = ix[i]
                cnt[last] = cnt.get(last, 0) + 1
            out[i] = cnt[last]
        return out

    def view(self, case, view):
        return read_lines(case, view)

    def show(self, case, sol):
        return sol if isinstance(sol, str) else show_lines(case.L, sol) + " ends %d %d" % (case.data["S"], case.data["G"])


def disjoint_paths(nb, starts, step_ok, finish, limit=40000):
    """ways to draw vertex-disjoint simple paths one after another.

    nb: node -> neighbours; starts: list of start nodes; finish(k, path) tells whether path k may stop here;
    step_ok(k, path, node) whether it may be extended to node.  Yields lists of paths.
    """
    budget = [limit]
    out = []

    def rec(k, used, done):
        if k == len(starts):
            out.append([list(p) for p in done])
            return
        s = starts[k]
        if s in used:
            return
        walk(k, [s], used | {s}, done)

    def walk(k, path, used, done):
        budget[0] -= 1
        if budget[0] < 0:
            raise Retry("too big")
        if finish(k, path):
            rec(k + 1, used, done + [path[:]])
            return
        for n in nb[path[-1]]:
            if n not in used and step_ok(k, path, n):
                path.append(n)
                walk(k, path, used | {n}, done)
                path.pop()

    rec(0, frozenset(), [])
    return out


def random_paths(rng, G, minlen=2, keep=1.0):
    """a random set of disjoint paths of at least minlen cells; returns (paths, leftover mask)"""
    left = set(range(G.N))
    paths, stuck = [], set()
    while left - stuck:
        free = sorted(left - stuck)
        best = min(pop(G.nb[i] & mk(left)) for i in free)
        i = rng.choice([x for x in free if pop(G.nb[x] & mk(left)) == best]) if rng.random() < 0.7 else rng.choice(free)
        p = [i]
        left.discard(i)
        while True:
            opts = [j for j in bits(G.nb[p[-1]]) if j in left and not any(j in bits(G.nb[x]) for x in p[:-1])]
            if not opts or len(p) >= minlen and rng.random() < 0.12:
                break
            j = rng.choice(opts)
            p.append(j)
            left.discard(j)
        if len(p) < minlen:
            left |= set(p)
            stuck.add(i)
        else:
            paths.append(p)
    # leftover cells: try to append to path ends
    for i in sorted(left):
        for p in paths:
            for e in (0, -1):
                if i in left and G.nb[i] >> p[e] & 1 and not any(G.nb[i] >> x & 1 for x in p if x != p[e]):
                    p.insert(0 if e == 0 else len(p), i)
                    left.discard(i)
    return paths, mk(left)


class PathPins:
    """pins shared by the path puzzles whose solutions are edge masks on case.L"""

    def init_pins(self, case):
        case.on = case.off = 0

    def pin(self, case, sol, rng):
        return Loops.pin(self, case, sol, rng)

    def mark(self, case, rng, k, on):
        return Loops.mark(self, case, rng, k, on)

    vertex = False
    pins_ok = True


class NumlinBase(PathPins, Spec):
    family = "loop"
    solver = "numlin"
    sizes = [((3, 3), 3), ((3, 4), 2), ((4, 3), 2), ((4, 4), 3), ((2, 4), .7), ((5, 2), .7), ((3, 5), 2), ((4, 5), 1),
             ((5, 4), 1), ((5, 5), 1), ((1, 4), .2)]
    visit_all = True
    no_2x2 = True
    given = {}

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G, L = grid(R, C), lines(R, C)
        for _ in range(60):
            paths, left = random_paths(rng, G)
            if paths and (not left or not self.visit_all):
                break
        else:
            raise Retry("no cover")
        if not self.visit_all:
            rng.shuffle(paths)
            paths = paths[:rng.choice([1, 2, 3, 4])]
        elif min(R, C) > 2 and R * C > 9 and rng.random() < 0.15:   # clues only inside: an idle loop could run around
            rim = {i for i, (r, c) in enumerate(G.cells) if r in (0, R - 1) or c in (0, C - 1)}
            inner = []
            for p in paths:
                seg = [[]]
                for i in p:
                    seg[-1].append(i) if i not in rim else seg.append([])
                inner += [x for x in seg if len(x) > 1]
            paths = inner or paths
        pairs = [(p[0], p[-1]) for p in paths]
        if rng.random() < 0.12 and len(pairs) > 1:
            (a, b), (c, d) = pairs[0], pairs[1]
            pairs[0], pairs[1] = (a, d), (c, b)
        if rng.random() < 0.5:
            names = rng.sample(range(0, 30), len(pairs))
        elif rng.random() < 0.7:
            names = list(range(1, len(pairs) + 1))
        else:
            names = rng.sample("ABCDEFGHIJKLMNOP", len(pairs))
        data = {"pairs": pairs, "names": names}
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data, dict(self.given))
        case.L = L
        self.init_pins(case)
        for (a, b), n in zip(pairs, names):
            for i in (a, b):
                put_num(board, rng, *G.cells[i], n)
        ends = {i for p in pairs for i in p}
        exp = set()
        sols = disjoint_paths([bits(x) for x in G.nb], [a for a, _ in pairs],
                              lambda k, p, n: n == pairs[k][1] or n not in ends,
                              lambda k, p: p[-1] == pairs[k][1])
        for ps in sols:
            if self.visit_all and sum(map(len, ps)) != G.N:
                continue
            if self.no_2x2 and any(not G.no2x2(mk(p)) for p in ps):
                continue
            m = 0
            for p in ps:
                m |= path_mask(G, L, p)
            exp.add(m)
        case.expected = exp
        s = 0
        for p in paths:
            s |= path_mask(G, L, p)
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 2, 3])):
                q = self.pin(case, s, rng)
                if q:
                    case.expected = {m for m in case.expected if q(m)}
        return case

    def view(self, case, view):
        return read_lines(case, view)

    def show(self, case, sol):
        return sol if isinstance(sol, str) else show_lines(case.L, sol) + " %x" % sol


@register
class Numlin(NumlinBase):
    name = "numlin"


@register
class NumlinBoth(Numlin):
    name, solver, family = "numlin/both", "numlin", "option"


@register
class NumlinFree(NumlinBase):
    name, family = "numlin/free", "option"
    visit_all = no_2x2 = False
    given = {"visit_all": False, "no_2x2": False}


@register
class NumlinAll(NumlinBase):
    name, family = "numlin/visit_all", "option"
    no_2x2 = False
    given = {"visit_all": True, "no_2x2": False}


@register
class NumlinNo2x2(NumlinBase):
    name, family = "numlin/no_2x2", "option"
    visit_all = False
    given = {"visit_all": False, "no_2x2": True}


@register
class Anglers(Spec):
    """solutions are frozensets of pairs of cells (some numbers stand outside the grid)"""
    name = "anglers"
    family = "loop"
    margin = (1, 1, 1, 1)
    sizes = NumlinBase.sizes

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G = grid(R, C)
        paths, left = random_paths(rng, G, minlen=1)
        paths = [p for p in paths if p]
        black = left
        outs, nums, fish, info = set(), {}, [], {}
        for p in paths:
            if rng.random() < 0.5:
                p.reverse()
            r, c = G.cells[p[0]]
            o = [(r + a, c + b) for a, b in DXY.values() if not G.ins(r + a, c + b)]
            o = [x for x in o if x not in outs]
            if o and (len(p) == 1 or rng.random() < 0.7):
                x = rng.choice(o)
                outs.add(x)
                n = len(p)
            elif len(p) > 1:
                x, n = (r, c), len(p) - 1
            else:
                black |= 1 << p[0]
                continue
            nums[x] = "?" if rng.random() < 0.3 else n
            fish.append(G.cells[p[-1]])
            info[x] = p
        if not nums:
            raise Retry("none")
        if rng.random() < 0.15:
            k = rng.choice(sorted(nums))
            if nums[k] != "?":
                nums[k] = max(1, nums[k] + rng.choice([-1, 1]))
        cells = [x for i, x in enumerate(G.cells) if not black >> i & 1]
        allc = set(cells) | set(nums)
        nb = {x: [(x[0] + a, x[1] + b) for a, b in DXY.values() if (x[0] + a, x[1] + b) in allc] for x in allc}
        data = {"nums": nums, "fish": fish, "black": black}
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data)
        for x, v in nums.items():
            put_num(board, rng, *x, v)
        for x in fish:
            board.sym(*x, "tents", 3)
        for i in bits(black):
            board.surf(*G.cells[i], rng.choice([1, 3, 8, 4]))
        starts = sorted(nums)
        fs = set(fish)
        case.expected = set()
        for ps in disjoint_paths(nb, starts, lambda k, p, n: n not in nums,
                                 lambda k, p: p[-1] in fs and len(p) > 1):
            if sum(map(len, ps)) != len(allc):
                continue
            if any(nums[p[0]] not in ("?", len(p) - 1) for p in ps):
                continue
            case.expected.add(frozenset(tuple(sorted((a, b))) for p in ps for a, b in zip(p, p[1:])))
        case.used = set()
        return case

    def pin(self, case, sol, rng):
        G = case.G
        prs = [((r, c), (r + a, c + b)) for r, c in G.cells for a, b in ((0, 1), (1, 0)) if G.ins(r + a, c + b)]
        prs = [p for p in prs if p not in case.used]
        if not prs:
            return None
        p = rng.choice(prs)
        case.used.add(p)
        if p in sol:
            case.board.line(*p, rng.choice("pa"))
            return lambda s: p in s
        case.board.linex(*p, rng.choice("pa"))
        return lambda s: p not in s

    def view(self, case, view):
        out = set()
        ok = set(case.G.cells) | set(case.data["nums"])
        for r, c, d in view.halves:
            a, b = DXY[d]
            if (r, c) not in ok or (r + a, c + b) not in ok:
                return "line outside at (%d, %d)" % (r, c)
            if (r + a, c + b, OPP[d]) not in view.halves:
                return "half line at (%d, %d) %s" % (r, c, d)
            out.add(tuple(sorted(((r, c), (r + a, c + b)))))
        return frozenset(out)

    def show(self, case, sol):
        return sol if isinstance(sol, str) else repr(sorted(sol))


@register
class Firefly(PathPins, Spec):
    name = "firefly"
    family = "loop"
    vertex = True
    sizes = [((2, 2), 3), ((2, 3), 3), ((3, 2), 3), ((3, 3), 3), ((1, 3), .5), ((4, 1), .5), ((2, 4), 1), ((4, 3), 1)]

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G, L = grid(R, C), lines(R + 1, C + 1)
        V = L.G
        n = rng.choice([2, 2, 3, 3, 4, 5, 6])
        if n > V.N:
            raise Retry("full")
        dots = {}
        for i in rng.sample(range(V.N), n):
            dots[i] = rng.choice([d for d in "rdlu" if (i, d) in L.dir])
        data = {"dots": dots, "clues": {}}
        sols = self.fill(V, L, dots)
        good = [s for s in sols if not s[2]]
        if not good and rng.random() < 0.85:
            raise Retry("none")
        if good:
            m, bends, _ = rng.choice(good)
            p = rng.choice([0, .3, .7, 1])
            data["clues"] = {i: b for i, b in bends.items() if rng.random() < p}
            if data["clues"] and rng.random() < 0.2:
                i = rng.choice(sorted(data["clues"]))
                data["clues"][i] = max(0, data["clues"][i] + rng.choice([-1, 1]))
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data)
        case.L = L
        self.init_pins(case)
        for i, d in dots.items():
            r, c = V.cells[i]
            board.sym(r - 1, c - 1, "firefly", "rdlu".index(d) + 1, cat=1)
            if i in data["clues"]:
                put_num(board, rng, r - 1, c - 1, data["clues"][i], cat=1)
            elif rng.random() < 0.2:
                board.num(r - 1, c - 1, "?", "1", 1)
        case.expected, case.skips = set(), set()
        for m, bends, selfend in sols:
            if selfend:
                case.skips.add(m)
            elif all(bends[i] == v for i, v in data["clues"].items()):
                case.expected.add(m)
        case.expected -= case.skips
        return case

    def skip(self, case, sol):
        return sol in case.skips

    def fill(self, V, L, dots):
        """(edge mask, bends per firefly, does a beam end at its own firefly)"""
        st = {"u": -V.C, "d": V.C, "l": -1, "r": 1}
        order = sorted(dots)
        out = []
        budget = [30000]

        def rec(k, used, m, bends, own):
            if k == len(order):
                cells = L.cells_of(m)
                comp = 1 << order[0]
                while True:
                    n = comp
                    for e in bits(m):
                        a, b = L.edges[e]
                        if (comp >> a | comp >> b) & 1:
                            n |= 1 << a | 1 << b
                    if n == comp:
                        break
                    comp = n
                if comp == cells and all(comp >> i & 1 for i in order):
                    out.append((m, dict(bends), own))
                return
            walk(k, order[k], dots[order[k]], 0, used, m, bends, own)

        def walk(k, cur, d, b, used, m, bends, own):
            budget[0] -= 1
            if budget[0] < 0:
                raise Retry("too big")
            e = L.dir.get((cur, d))
            if e is None or m >> e & 1:
                return
            nx = cur + st[d]
            m2 = m | 1 << e
            if nx in dots:
                if d == OPP[dots[nx]]:
                    return
                bends[order[k]] = b
                rec(k + 1, used, m2, bends, own or nx == order[k])
                return
            if nx in used:
                return
            for d2 in "udlr":
                if d2 != OPP[d]:
                    walk(k, nx, d2, b + (d2 != d), used | {nx}, m2, bends, own)

        rec(0, frozenset(), 0, {}, False)
        # every firefly must shine: an edge may not be shared by two beams (ensured above)
        return out

    def view(self, case, view):
        return read_borders(case, view)

    def show(self, case, sol):
        if isinstance(sol, str):
            return sol
        return show_lines(case.L, sol) + " %x" % sol


@register
class Hashi(Spec):
    """solutions are frozensets of (island, island, number of bridges)"""
    name = "hashi"
    family = "loop"
    sizes = [((3, 3), 2), ((3, 5), 2), ((5, 3), 2), ((4, 4), 2), ((5, 5), 4), ((4, 6), 1), ((6, 6), 2), ((1, 5), .3), ((7, 7), 1)]

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G = grid(R, C)
        n = rng.choice([2, 3, 4, 5, 6, 7, 8])
        isl = [rng.randrange(G.N)]
        used = {isl[0]}
        bridges = {}
        for _ in range(60):
            if len(isl) >= n:
                break
            i = rng.choice(isl)
            d = rng.choice("udlr")
            ray = G.ray(*G.cells[i], DXY[d])
            if len(ray) < 2:
                continue
            k = rng.randrange(1, len(ray))
            if any(j in used for j in ray[:k + 1]):
                continue
            j = ray[k]
            used |= set(ray[:k + 1])
            isl.append(j)
            bridges[tuple(sorted((i, j)))] = rng.choice([1, 2])
        if len(isl) < 2:
            raise Retry("one island")
        isl.sort()
        prs = self.pairs(G, isl)
        for p in prs:
            if p not in bridges and rng.random() < 0.5 and not any(self.cross(G, p, q) for q in bridges):
                bridges[p] = rng.choice([1, 2])
        num = {i: sum(v for p, v in bridges.items() if i in p) for i in isl}
        if rng.random() < 0.15:
            i = rng.choice(isl)
            num[i] = max(1, num[i] + rng.choice([-1, 1]))
        p = rng.choice([0, 0.1, 0.4])
        num = {i: "?" if rng.random() < p else v for i, v in num.items()}
        data = {"num": num}
        board = self.new_board(rng, R, C)
        case = Case(self, G, board, data)
        case.used = set()
        for i, v in num.items():
            put_num(board, rng, *G.cells[i], v)
        case.expected = self.fill(G, isl, prs, num)
        return case

    @staticmethod
    def pairs(G, isl):
        out = []
        for i in isl:
            for d in "dr":
                for j in G.ray(*G.cells[i], DXY[d]):
                    if j in isl:
                        out.append((i, j))
                        break
        return out

    @staticmethod
    def between(G, p):
        (r, c), (r2, c2) = G.cells[p[0]], G.cells[p[1]]
        if r == r2:
            return {(r, x) for x in range(c + 1, c2)}
        return {(x, c) for x in range(r + 1, r2)}

    def cross(self, G, p, q):
        return bool(self.between(G, p) & self.between(G, q))

    def fill(self, G, isl, prs, num):
        res = set()
        budget = [60000]
        last = {i: max([k for k, p in enumerate(prs) if i in p], default=-1) for i in isl}

        def rec(k, val, deg):
            budget[0] -= 1
            if budget[0] < 0:
                raise Retry("too big")
            for i in isl:
                v = num[i]
                if v != "?" and (deg[i] > v or last[i] < k and deg[i] != v):
                    return
            if k == len(prs):
                comp = {isl[0]}
                grow = True
                while grow:
                    grow = False
                    for p in val:
                        if (p[0] in comp) != (p[1] in comp):
                            comp |= set(p)
                            grow = True
                if len(comp) == len(isl):
                    res.add(frozenset((a, b, v) for (a, b), v in val.items()))
                return
            p = prs[k]
            rec(k + 1, val, deg)
            if not any(self.cross(G, p, q) for q in val):
                for v in (1, 2):
                    val[p] = v
                    deg[p[0]] += v
                    deg[p[1]] += v
                    rec(k + 1, val, deg)
                    deg[p[0]] -= v
                    deg[p[1]] -= v
                    del val[p]

        rec(0, {}, {i: 0 for i in isl})
        return res

    def pin(self, case, sol, rng):
        left = [x for x in sol if x[:2] not in case.used]
        if not left:
            return None
        a, b, v = rng.choice(sorted(left))
        case.used.add((a, b))
        (r, c), (r2, c2) = case.G.cells[a], case.G.cells[b]
        n = max(r2 - r, c2 - c)
        dr, dc = (r2 - r) // n, (c2 - c) // n
        k = rng.randrange(n)
        lay = rng.choice("pa")
        case.board.line((r + k * dr, c + k * dc), (r + (k + 1) * dr, c + (k + 1) * dc), lay, 30 if v == 2 else 3)
        return lambda s: (a, b, v) in s

    def view(self, case, view):
        G = case.G
        isl = set(case.data["num"])
        out = set()
        hv = {}
        for (r, c, d), st in view.halves.items():
            if st not in (3, 30):
                return "line style %r" % st
            hv[r, c, d] = 2 if st == 30 else 1
        left = dict(hv)
        for i in sorted(isl):
            for d in "dr":
                r, c = G.cells[i]
                v = hv.get((r, c, d))
                if v is None:
                    continue
                a, b = DXY[d]
                while True:
                    if left.pop((r, c, d), None) != v or left.pop((r + a, c + b, OPP[d]), None) != v:
                        return "broken bridge at (%d, %d)" % (r, c)
                    r, c = r + a, c + b
                    if not G.ins(r, c):
                        return "bridge leaves the grid"
                    if G.i(r, c) in isl:
                        out.add((i, G.i(r, c), v))
                        break
        if left:
            return "stray lines %r" % sorted(left)[:3]
        return frozenset(out)

    def show(self, case, sol):
        return sol if isinstance(sol, str) else repr(sorted(sol))
