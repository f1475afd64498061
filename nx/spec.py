"""Reference specifications: what a puzzle's rules permit, written independently of the solvers under test.

A `Spec` makes random cases (a drawn board plus the abstract clue data), computes the complete set of permitted
fillings by enumeration, and reads a solver's answer back from the drawn result.
"""

from nx import grids
from nx.penpa import Board, View, parse

SPECS = {}


def register(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


class Case:
    def __init__(self, spec, G, board, data, params=None):
        self.spec, self.G, self.board, self.data = spec, G, board, data
        self.params = params or {}
        self.expected = None
        self.accept = self.secret = None
        self.kind = "enum"

    def describe(self):
        return {"puzzle": self.spec.solver, "size": [self.G.R, self.G.C], "kind": self.kind,
                "params": self.params, "url": self.board.url()}


class Retry(Exception):
    """this random attempt does not make a usable case"""


class Spec:
    name = None
    solver = None
    family = None
    margin = None
    weight = 1
    sound_only = False        # options that leave permitted fillings out on purpose
    cap = 120

    def __init__(self):
        self.solver = self.solver or self.name

    # to be provided --------------------------------------------------------------------------------------
    def make(self, rng, oracle=None):
        raise NotImplementedError

    def view(self, case, view):
        raise NotImplementedError

    def skip(self, case, sol):
        return False

    def pin(self, case, sol, rng):
        """draw one more mark agreeing with sol; returns a predicate on solutions, or None if there is none left"""
        return None

    def show(self, case, sol):
        return repr(sol)

    # shared ----------------------------------------------------------------------------------------------
    def new_board(self, rng, R, C):
        m = self.margin
        if m is None:
            m = (0, 0, 0, 0)
            if rng.random() < 0.15:
                m = tuple(rng.choice([0, 0, 1, 2]) for _ in range(4))
        elif rng.random() < 0.2:
            m = tuple(x + rng.choice([0, 0, 1]) for x in m)
        return Board(R, C, m)

    def trim(self, case, rng):
        """add marks until the number of permitted fillings is small enough to list completely"""
        guard = 0
        while len(case.expected) > self.cap and guard < 200:
            guard += 1
            pool = getattr(case, "pool", None)
            if pool is None:
                pool = case.pool = sorted(case.expected, key=repr)
                case.secret = rng.choice(pool)
            p = self.pin(case, case.secret, rng)
            if p is None:
                raise Retry("cannot trim")
            case.expected = {s for s in case.expected if p(s)}
        if len(case.expected) > self.cap:
            raise Retry("too many")


def wchoice(rng, pairs):
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][0]


def put_num(board, rng, r, c, v, cat=0, sub="1"):
    """write a number the way the editor stores it: sometimes as JSON number, sometimes as text"""
    if isinstance(v, int) and rng.random() < 0.5:
        v = str(v)
    board.num(r, c, v, sub, cat)


QMARKS = ["?", " ", "?"]


# --- shading -------------------------------------------------------------------------------------------------

class Shade(Spec):
    """solutions are bit masks of shaded cells"""
    family = "shade"
    enum_sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((2, 5), 1), ((1, 6), .4), ((6, 1), .4), ((4, 4), 2),
                  ((2, 2), .3), ((3, 5), 1), ((5, 3), 1), ((1, 1), .15), ((2, 7), .5), ((7, 2), .5)]
    win_sizes = [((5, 5), 2), ((4, 6), 1), ((6, 5), 1), ((6, 6), 1), ((3, 8), .5), ((8, 4), .5)]
    window = 0.3
    rooms = False
    variants = [None]
    free_cells = 9

    def __init__(self):
        super().__init__()
        self._base = {}

    # rule pieces
    def static_ok(self, G, m, v=None):
        return True

    def layout(self, rng, G, data):
        if self.rooms:
            data["rooms"] = self.make_rooms(rng, G)

    def make_rooms(self, rng, G):
        return grids.random_rooms(rng, G)

    def layout_ok(self, G, m, data):
        return True

    def clues(self, rng, G, s, data):
        data["clues"] = {}

    def clue_ok(self, G, m, data):
        return True

    def draw(self, board, rng, G, data):
        pass

    def params(self, rng, data):
        return {}

    def perturb(self, rng, G, data):
        cl = data.get("clues")
        ks = [k for k, v in (cl or {}).items() if isinstance(v, int)]
        if ks:
            k = rng.choice(sorted(ks, key=repr))
            cl[k] = max(self.clue_min, cl[k] + rng.choice([-1, 1]))

    clue_min = 0

    # machinery
    def base(self, G, v):
        key = (G.R, G.C, v)
        if key not in self._base:
            self._base[key] = [m for m in range(1 << G.N) if self.static_ok(G, m, v)]
        return self._base[key]

    def ok(self, G, m, data):
        return self.static_ok(G, m, data["variant"]) and self.layout_ok(G, m, data) and self.clue_ok(G, m, data)

    def skip_mask(self, G, m, data):
        return False

    def skip(self, case, sol):
        return self.skip_mask(case.G, sol, case.data)

    def pick(self, rng, G, cand):
        a = rng.choice(cand)
        if rng.random() < 0.5:
            b = rng.choice(cand)
            if grids.pop(b) > grids.pop(a):
                a = b
        return a

    def draw_rooms(self, board, rng, G, rooms):
        outer = rng.random() < 0.5
        for a, b in grids.borders_of(G, rooms):
            board.wall_between(a, b)
        if outer:
            for r in range(G.R):
                board.left(r, 0)
                board.left(r, G.C)
            for c in range(G.C):
                board.top(0, c)
                board.top(G.R, c)

    def mark(self, board, rng, G, i, dark):
        r, c = G.cells[i]
        lay = "p" if rng.random() < 0.5 else "a"
        board.surf(r, c, rng.choice(self.dark_codes) if dark else 2, lay)

    dark_codes = [1, 3, 8, 4]
    marks = True

    def make(self, rng, oracle=None):
        win = oracle is not None and rng.random() < self.window
        R, C = wchoice(rng, self.win_sizes if win else self.enum_sizes)
        G = grids.grid(R, C)
        data = {"variant": rng.choice(self.variants), "win": win}
        large = win and rng.random() < self.large_p
        self.layout(rng, G, data)
        params = self.params(rng, data)
        if not win:
            cand = [m for m in self.base(G, data["variant"]) if self.layout_ok(G, m, data)]
            good = [m for m in cand if not self.skip_mask(G, m, data)]
            s = self.pick(rng, G, good) if good else rng.getrandbits(G.N)
            self.clues(rng, G, s, data)
            if rng.random() < 0.25:
                self.perturb(rng, G, data)
            exp = {m for m in cand if self.clue_ok(G, m, data)}
        else:
            data["clues"] = {}
            s = self.big(rng, G, data, params, oracle)
            self.clues(rng, G, s, data)
            if rng.random() < 0.15:
                self.perturb(rng, G, data)
            free = self.pick_free(rng, G) if not large else self.pick_unmarked(rng, G)
            fm = sum(1 << i for i in free)
            exp = set()
            rest = s & ~fm
            sub = fm
            while not large:
                if self.ok(G, rest | sub, data):
                    exp.add(rest | sub)
                if not sub:
                    break
                sub = (sub - 1) & fm
        board = self.new_board(rng, R, C)
        if self.rooms and "rooms" in data:
            self.draw_rooms(board, rng, G, data["rooms"])
        self.draw(board, rng, G, data)
        case = Case(self, G, board, data, params)
        case.expected = {m for m in exp if not self.skip_mask(G, m, data)}
        case.pins = 0
        case.secret_hint = s
        if win:
            case.kind = "large" if large else "window"
            if large:
                if not self.ok(G, s, data) or self.skip_mask(G, s, data):
                    raise Retry("altered")
                case.secret = s
                case.accept = lambda m: self.ok(G, m, data) and (not self.marks or (m ^ s) & case.marked == 0)
                case.marked = 0
            for i in range(G.N):
                if not fm >> i & 1 and self.can_mark(case, i):
                    self.mark(board, rng, G, i, s >> i & 1)
                    if large:
                        case.marked |= 1 << i
                if not fm >> i & 1:
                    case.pins |= 1 << i
        elif self.marks and rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = self.pin(case, s, rng)
                if p:
                    case.expected = {m for m in case.expected if p(m)}
        return case

    large_p = 0.3

    def pick_unmarked(self, rng, G):
        p = rng.choice([0.5, 0.8, 1])
        return [i for i in range(G.N) if rng.random() < p]

    def pick_free(self, rng, G):
        k = self.free_cells
        if rng.random() < 0.5:
            return rng.sample(range(G.N), min(k, G.N))
        seed = rng.randrange(G.N)
        cur = 1 << seed
        while grids.pop(cur) < min(k, G.N):
            cur |= 1 << rng.choice(grids.bits(G.grow(cur) & ~cur))
        return grids.bits(cur)

    def big(self, rng, G, data, params, oracle):
        """a permitted filling of a larger clue-free board, found with the solver's help and checked by ours"""
        pins = [(i, rng.random() < self.big_density) for i in rng.sample(range(G.N), min(G.N, rng.choice([2, 3, 4, 5])))]
        while True:
            board = self.new_board(rng, G.R, G.C)
            if self.rooms and "rooms" in data:
                self.draw_rooms(board, rng, G, data["rooms"])
            self.big_draw(board, rng, G, data)
            for i, dark in pins:
                self.mark(board, rng, G, i, dark)
            case = Case(self, G, board, data, params)
            case.kind = "seed"
            sols = oracle(case, 12)
            for s in sols:
                if not self.skip_mask(G, s, data) and not self.ok(G, s, data):
                    raise Unsound(case, s)
            sols = [s for s in sols if not self.skip_mask(G, s, data)]
            if sols:
                return rng.choice(sols)
            if not pins:
                raise Retry("no seed")
            pins = pins[:len(pins) // 2]

    big_density = 0.4

    def big_draw(self, board, rng, G, data):
        self.draw(board, rng, G, data)

    def view(self, case, view):
        return case.G.mask([(r, c) for r, c in view.shaded() if case.G.ins(r, c)])

    def pin(self, case, sol, rng):
        if not self.marks:
            return None
        left = [i for i in range(case.G.N) if not case.pins >> i & 1 and self.can_mark(case, i)]
        if not left:
            return None
        i = rng.choice(left)
        case.pins |= 1 << i
        v = sol >> i & 1
        self.mark(case.board, rng, case.G, i, v)
        return lambda m: (m >> i & 1) == v

    def can_mark(self, case, i):
        return True

    def show(self, case, sol):
        G = case.G
        return "/".join("".join("#" if sol >> G.i(r, c) & 1 else "." for c in range(G.C)) for r in range(G.R))


class Unsound(Exception):
    """a filling returned while preparing a case is itself not permitted by the rules"""

    def __init__(self, case, sol):
        super().__init__("unsound")
        self.case, self.sol = case, sol


def regions_of(G, view):
    """the regions drawn on a board: a frozenset of masks, or None when a drawn border lies inside a region"""
    seen, out = 0, []
    for i in range(G.N):
        if seen >> i & 1:
            continue
        comp, todo = 1 << i, [i]
        while todo:
            r, c = G.cells[todo.pop()]
            for a, b, wall in ((r - 1, c, (r, c) in view.tops), (r + 1, c, (r + 1, c) in view.tops),
                               (r, c - 1, (r, c) in view.lefts), (r, c + 1, (r, c + 1) in view.lefts)):
                if G.ins(a, b) and not wall and not comp >> G.i(a, b) & 1:
                    comp |= G.bit(a, b)
                    todo.append(G.i(a, b))
        seen |= comp
        out.append(comp)
    ix = grids.room_index(G, out)
    for r, c in view.tops:
        if 0 < r < G.R and 0 <= c < G.C and ix[G.i(r, c)] == ix[G.i(r - 1, c)]:
            return "border inside a region above (%d, %d)" % (r, c)
    for r, c in view.lefts:
        if 0 < c < G.C and 0 <= r < G.R and ix[G.i(r, c)] == ix[G.i(r, c - 1)]:
            return "border inside a region left of (%d, %d)" % (r, c)
    return frozenset(out)


def show_regions(G, regs):
    if isinstance(regs, str):
        return regs
    ix = grids.room_index(G, sorted(regs, key=lambda m: m & -m))
    return "/".join("".join("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[ix[G.i(r, c)] % 52] for c in range(G.C))
                    for r in range(G.R))
