"""Rules of the shading puzzles.  A solution is the bit mask of shaded cells."""

from functools import lru_cache

from nx.grids import (ORTH, bits, canon, grid, named_shapes, orientations, partitions, polyominoes, pop, random_rooms,
                      room_index, borders_of, runs)
from nx.spec import QMARKS, Case, Retry, Shade, Spec, put_num, regions_of, register, show_regions, wchoice


@lru_cache(None)
def bars(G, k):
    """masks of k consecutive cells in a row or a column"""
    out = []
    for r, c in G.cells:
        if c + k <= G.C:
            out.append(G.mask([(r, c + x) for x in range(k)]))
        if r + k <= G.R:
            out.append(G.mask([(r + x, c) for x in range(k)]))
    return out


def no_bar(G, m, k):
    for b in bars(G, k):
        if m & b == b:
            return False
    return True


def some(rng, keys, p=None):
    p = rng.choice([0.1, 0.3, 0.6, 1.0]) if p is None else p
    return [k for k in keys if rng.random() < p]


class RoomShade(Shade):
    """rooms with at most one number each"""
    rooms = True
    qmark = True

    def room_val(self, G, m, room):
        return pop(m & room)

    def clues(self, rng, G, s, data):
        cl = {}
        for k in some(rng, range(len(data["rooms"]))):
            cl[k] = "?" if self.qmark and rng.random() < 0.1 else max(self.clue_min, self.room_val(G, s, data["rooms"][k]))
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        for k, v in data["clues"].items():
            if v != "?" and self.room_val(G, m, data["rooms"][k]) != v:
                return False
        return True

    def draw(self, board, rng, G, data):
        for k, v in data.get("clues", {}).items():
            r, c = G.cells[rng.choice(bits(data["rooms"][k]))]
            put_num(board, rng, r, c, v)


class CellShade(Shade):
    """numbers in cells; data["clues"] maps cell index -> number or "?" """
    qmark = True
    where = None          # "white": clue cells are unshaded, "black": shaded, None: anywhere
    qmarks = QMARKS

    def val(self, G, m, i):
        raise NotImplementedError

    def clue_cells(self, rng, G, s):
        pool = range(G.N)
        if self.where == "white":
            pool = bits(G.full & ~s)
        elif self.where == "black":
            pool = bits(s)
        return some(rng, pool)

    def clues(self, rng, G, s, data):
        cl = {}
        for i in self.clue_cells(rng, G, s):
            v = self.val(G, s, i)
            if v is not None:
                cl[i] = "?" if self.qmark and rng.random() < 0.12 else v
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        for i, v in data["clues"].items():
            b = m >> i & 1
            if self.where == "white" and b or self.where == "black" and not b:
                return False
        for i, v in data["clues"].items():
            if v != "?" and self.val(G, m, i) != v:
                return False
        return True

    def draw(self, board, rng, G, data):
        for i, v in data.get("clues", {}).items():
            put_num(board, rng, *G.cells[i], rng.choice(self.qmarks) if v == "?" else v)


# -------------------------------------------------------------------------------------------------------------

@register
class Aqre(RoomShade):
    name = "aqre"

    def static_ok(self, G, m, v=None):
        return G.connected(m) and no_bar(G, m, 4) and no_bar(G, G.full & ~m, 4)


@register
class Aquapelago(CellShade):
    name = "aquapelago"
    where = "black"

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        return not G.adjacent(m) and G.no2x2(w) and G.connected(w)

    def val(self, G, m, i):
        return pop(G.flood8(1 << i, m))      # no two are orthogonal neighbours, so 8-connected is diagonal


@register
class Canal(CellShade):
    name = "canal"
    where = "white"

    def static_ok(self, G, m, v=None):
        return G.no2x2(m) and G.connected(m)

    def val(self, G, m, i):
        return G.sees(i, m)


class _CaveBase(CellShade):
    where = "white"

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        return G.connected(w) and G.reaches_border(m)


@register
class Cave(_CaveBase):
    name = "cave"
    clue_min = 1

    def params(self, rng, data):
        return {"product": False}

    def val(self, G, m, i):
        return G.sees(i, G.full & ~m) + 1


@register
class CaveProduct(_CaveBase):
    name = "cave/product"
    solver = "cave"
    family = "option"
    clue_min = 1

    def params(self, rng, data):
        return {"product": True}

    def val(self, G, m, i):
        r, c = G.cells[i]
        n = []
        for ds in (((-1, 0), (1, 0)), ((0, -1), (0, 1))):
            k = 1
            for d in ds:
                for j in G.ray(r, c, d):
                    if m >> j & 1:
                        break
                    k += 1
            n.append(k)
        return n[0] * n[1]


@register
class CBanana(CellShade):
    name = "cbanana"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        return all(G.is_rect(k) for k in G.comps(m)) and not any(G.is_rect(k) for k in G.comps(G.full & ~m))

    def val(self, G, m, i):
        return pop(G.comp_at(i, m if m >> i & 1 else G.full & ~m))


@register
class Chocona(RoomShade):
    name = "chocona"

    def static_ok(self, G, m, v=None):
        return all(G.is_rect(k) for k in G.comps(m))


@register
class CircleSquare(Shade):
    name = "circlesquare"

    def static_ok(self, G, m, v=None):
        if not (G.connected(m) and G.no2x2(m)):
            return False
        for k in G.comps(G.full & ~m):
            a, b = G.dims(k)
            if a != b or a * b != pop(k):
                return False
        return True

    def clues(self, rng, G, s, data):
        data["clues"] = {i: s >> i & 1 for i in some(rng, range(G.N))}

    def clue_ok(self, G, m, data):
        return all((m >> i & 1) == v for i, v in data["clues"].items())

    def perturb(self, rng, G, data):
        if data["clues"]:
            i = rng.choice(sorted(data["clues"]))
            data["clues"][i] ^= 1

    def draw(self, board, rng, G, data):
        for i, v in data["clues"].items():
            board.sym(*G.cells[i], "circle_M", 2 if v else 1)


@register
class Cocktail(RoomShade):
    name = "cocktail"

    def static_ok(self, G, m, v=None):
        return G.connected8(m) and G.no2x2(m)

    def layout_ok(self, G, m, data):
        return all(G.connected(m & k) for k in data["rooms"]) and not across(G, m, data)


def across(G, m, data):
    """two shaded cells adjacent across a room border?"""
    if "bord" not in data:
        data["bord"] = [G.bit(*a) | G.bit(*b) for a, b in borders_of(G, data["rooms"])]
    for p in data["bord"]:
        if m & p == p:
            return True
    return False


@register
class Context(CellShade):
    name = "context"
    qmark = False

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def val(self, G, m, i):
        if m >> i & 1:
            return pop(G.nb8[i] & ~G.nb[i] & m)
        return pop(G.nb[i] & m)


class OutsideRuns(Shade):
    """clue lists above the columns and left of the rows"""
    margin = (3, 0, 3, 0)
    ordered = True

    def line(self, G, m, key):
        k, i = key
        if k == "r":
            return runs([m >> (i * G.C + c) & 1 for c in range(G.C)])
        return runs([m >> (r * G.C + i) & 1 for r in range(G.R)])


@register
class Coral(OutsideRuns):
    name = "coral"

    def static_ok(self, G, m, v=None):
        return G.connected(m) and G.no2x2(m) and G.reaches_border(G.full & ~m)

    def clues(self, rng, G, s, data):
        keys = [("r", i) for i in range(G.R)] + [("c", i) for i in range(G.C)]
        cl = {}
        for k in some(rng, keys):
            v = self.line(G, s, k)
            if v:
                rng.shuffle(v)
                cl[k] = v
        data["clues"] = cl

    def perturb(self, rng, G, data):
        if data["clues"]:
            k = rng.choice(sorted(data["clues"]))
            v = data["clues"][k]
            j = rng.randrange(len(v))
            v[j] = max(1, v[j] + rng.choice([-1, 1]))

    def clue_ok(self, G, m, data):
        return all(sorted(self.line(G, m, k)) == sorted(v) for k, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for (k, i), v in data.get("clues", {}).items():
            for n, x in enumerate(v):
                if k == "r":
                    put_num(board, rng, i, -1 - n, x)
                else:
                    put_num(board, rng, -1 - n, i, x)

    def new_board(self, rng, R, C):
        self.margin = (max(1, (R + 1) // 2), 0, max(1, (C + 1) // 2), 0)
        return super().new_board(rng, R, C)


@register
class Creek(CellShade):
    """numbers on grid vertices count the shaded cells touching them"""
    name = "creek"
    margin = (1, 1, 1, 1)

    def static_ok(self, G, m, v=None):
        return G.connected(G.full & ~m)

    def clues(self, rng, G, s, data):
        cl = {}
        for v in some(rng, [(r, c) for r in range(G.R + 1) for c in range(G.C + 1)]):
            cl[v] = "?" if rng.random() < 0.1 else self.around(G, s, v)
        data["clues"] = cl

    def around(self, G, m, v):
        r, c = v
        return sum(m >> G.i(a, b) & 1 for a in (r - 1, r) for b in (c - 1, c) if G.ins(a, b))

    def clue_ok(self, G, m, data):
        return all(v == "?" or self.around(G, m, k) == v for k, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for (r, c), v in data.get("clues", {}).items():
            put_num(board, rng, r - 1, c - 1, v, cat=1)


@register
class Dominion(Shade):
    name = "dominion"

    def static_ok(self, G, m, v=None):
        return all(pop(k) == 2 for k in G.comps(m))

    def clues(self, rng, G, s, data):
        cl = {}
        full = rng.random() < 0.7
        for k, w in enumerate(G.comps(G.full & ~s)):
            if not full and rng.random() < 0.3:
                continue
            cells = bits(w)
            n = min(len(cells), rng.choice([1, 1, 2, 3]))
            for i in rng.sample(cells, n):
                cl[i] = "?" if rng.random() < 0.08 else "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[k % 26]
        data["clues"] = cl

    def perturb(self, rng, G, data):
        if data["clues"]:
            data["clues"][rng.choice(sorted(data["clues"]))] = rng.choice("ABC")

    def clue_ok(self, G, m, data):
        if any(m >> i & 1 for i in data["clues"]):
            return False
        where = {}
        for n, w in enumerate(G.comps(G.full & ~m)):
            letters = {v for i, v in data["clues"].items() if w >> i & 1 and v != "?"}
            if len(letters) != 1:
                return False
            for x in letters:
                if where.setdefault(x, n) != n:
                    return False
        return True

    def skip_mask(self, G, m, data):
        # a region holding only question marks: whether that counts as lettered is a matter of taste
        if not data.get("clues"):
            return False
        return any(all(data["clues"].get(i, "?") == "?" for i in bits(w)) and any(i in data["clues"] for i in bits(w))
                   for w in G.comps(G.full & ~m))

    def big(self, rng, G, data, params, oracle):
        return scatter_dominoes(rng, G)

    def draw(self, board, rng, G, data):
        for i, v in data.get("clues", {}).items():
            board.num(*G.cells[i], v)


def scatter_dominoes(rng, G):
    m = 0
    for _ in range(40):
        i = rng.randrange(G.N)
        nb = bits(G.nb[i])
        j = rng.choice(nb) if nb else i
        d = 1 << i | 1 << j
        if i != j and not G.grow(d) & m:
            m |= d
    return m


@register
class Fillpix(CellShade):
    name = "fillpix"

    def val(self, G, m, i):
        return pop((G.nb8[i] | 1 << i) & m)

    def big(self, rng, G, data, params, oracle):
        return rng.getrandbits(G.N)


def span_ok(G, data):
    """masks of unshaded straight stretches that would cross two room borders"""
    if "spans" not in data:
        ix = room_index(G, data["rooms"])
        out = []
        for lines in ([[G.i(r, c) for c in range(G.C)] for r in range(G.R)],
                      [[G.i(r, c) for r in range(G.R)] for c in range(G.C)]):
            for ln in lines:
                for a in range(len(ln)):
                    n = 0
                    for b in range(a + 1, len(ln)):
                        n += ix[ln[b]] != ix[ln[b - 1]]
                        if n == 2:
                            out.append(sum(1 << i for i in ln[a:b + 1]))
                            break
        data["spans"] = out
    return data["spans"]


@register
class Heyablock(RoomShade):
    name = "heyablock"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        return G.connected(G.full & ~m)

    def layout_ok(self, G, m, data):
        if across(G, m, data) or not all(G.connected(m & k) for k in data["rooms"]):
            return False
        return all(m & s for s in span_ok(G, data))

    def clue_ok(self, G, m, data):
        for k, room in enumerate(data["rooms"]):
            v = data["clues"].get(k, "?")
            if v == "?" and not m & room or v != "?" and pop(m & room) != v:
                return False
        return True


@register
class Heyawake(RoomShade):
    name = "heyawake"

    def params(self, rng, data):
        return {"fast_mode": False, "limit_border": 0, "limit_2x2": 0}

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def layout_ok(self, G, m, data):
        return all(m & s for s in span_ok(G, data))


@register
class HeyawakeFast(Heyawake):
    name, solver, family = "heyawake/fast_mode", "heyawake", "option"
    sound_only = True
    window = 0.0

    def params(self, rng, data):
        return {"fast_mode": True, "limit_border": rng.choice([0, 0, 1, "2"]), "limit_2x2": rng.choice([0, 0, 1, "2"])}


@register
class Hinge(RoomShade):
    name = "hinge"
    window = 0.35

    def axes(self, G, data):
        """maximal straight border lines: list of (kind, position, frozenset of crossed cell pairs)"""
        if "axes" not in data:
            ix = room_index(G, data["rooms"])
            out = []
            for r in range(1, G.R):
                cur = []
                for c in range(G.C + 1):
                    if c < G.C and ix[G.i(r, c)] != ix[G.i(r - 1, c)]:
                        cur.append(1 << G.i(r, c) | 1 << G.i(r - 1, c))
                    elif cur:
                        out.append(("H", r, tuple(cur)))
                        cur = []
            for c in range(1, G.C):
                cur = []
                for r in range(G.R + 1):
                    if r < G.R and ix[G.i(r, c)] != ix[G.i(r, c - 1)]:
                        cur.append(1 << G.i(r, c) | 1 << G.i(r, c - 1))
                    elif cur:
                        out.append(("V", c, tuple(cur)))
                        cur = []
            data["axes"] = out
        return data["axes"]

    def layout_ok(self, G, m, data):
        for k in G.comps(m):
            hit = [a for a in self.axes(G, data) if any(k & p == p for p in a[2])]
            if len(hit) != 1:
                return False
            kind, x, _ = hit[0]
            for i in bits(k):
                r, c = G.cells[i]
                if kind == "H":
                    r = 2 * x - 1 - r
                else:
                    c = 2 * x - 1 - c
                if not G.ins(r, c) or not k >> G.i(r, c) & 1:
                    return False
        return True


@register
class Hitori(Shade):
    name = "hitori"

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def clues(self, rng, G, s, data):
        n = max(G.R, G.C) + rng.choice([-1, 0, 0, 1, 4])
        n = max(1, n)
        cl = {}
        holes = rng.random() < 0.3
        for i, (r, c) in enumerate(G.cells):
            used = {v for j, v in cl.items() if not s >> j & 1 and (G.cells[j][0] == r or G.cells[j][1] == c)}
            opts = [v for v in range(1, n + 1) if v not in used]
            if s >> i & 1 and used and rng.random() < 0.8:
                opts = sorted(used)
            if opts and not (holes and rng.random() < 0.15):
                cl[i] = rng.choice(opts)
        if rng.random() < 0.2:
            cl = {i: v + 9 for i, v in cl.items()}
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        seen = set()
        for i, v in data["clues"].items():
            if not m >> i & 1:
                r, c = G.cells[i]
                for key in (("r", r, v), ("c", c, v)):
                    if key in seen:
                        return False
                    seen.add(key)
        return True

    def draw(self, board, rng, G, data):
        for i, v in data.get("clues", {}).items():
            put_num(board, rng, *G.cells[i], v)


@register
class Kurochute(CellShade):
    name = "kurochute"
    where = "white"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def ends(self, G, i, n):
        r, c = G.cells[i]
        return [G.i(r + a * n, c + b * n) for a, b in ORTH if G.ins(r + a * n, c + b * n)]

    def clues(self, rng, G, s, data):
        cl = {}
        for i in self.clue_cells(rng, G, s):
            opts = [n for n in range(1, max(G.R, G.C)) if sum(s >> j & 1 for j in self.ends(G, i, n)) == 1]
            if opts:
                cl[i] = "?" if rng.random() < 0.1 else rng.choice(opts)
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        return all(not m >> i & 1 and (v == "?" or sum(m >> j & 1 for j in self.ends(G, i, v)) == 1)
                   for i, v in data["clues"].items())


@register
class Kurodoko(CellShade):
    name = "kurodoko"
    where = "white"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def val(self, G, m, i):
        return G.sees(i, G.full & ~m) + 1


@register
class Kurotto(CellShade):
    name = "kurotto"
    where = "white"

    def val(self, G, m, i):
        n = 0
        left = G.nb[i] & m
        while left:
            k = G.flood(left & -left, m)
            n += pop(k)
            left &= ~k
        return n

    def big(self, rng, G, data, params, oracle):
        return rng.getrandbits(G.N) & rng.getrandbits(G.N)


def one_clue_each(G, regions, clues, sizes=True):
    """every region holds exactly one clue, and as many cells as it says"""
    for k in regions:
        hit = [v for i, v in clues.items() if k >> i & 1]
        if len(hit) != 1 or hit[0] != "?" and hit[0] != pop(k):
            return False
    return True


class Islands(CellShade):
    """one clue per unshaded region"""
    where = "white"
    clue_min = 1

    def regions(self, G, m):
        return G.comps(G.full & ~m)

    def clues(self, rng, G, s, data):
        cl = {}
        q = rng.choice([0, 0.2, 0.6])
        for k in self.regions(G, s):
            i = rng.choice(bits(k))
            cl[i] = "?" if rng.random() < q else pop(k)
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        if any(m >> i & 1 for i in data["clues"]):
            return False
        return one_clue_each(G, self.regions(G, m), data["clues"])

    def seed_mask(self, rng, G):
        return None

    def big(self, rng, G, data, params, oracle):
        """grow a random filling: flip cells as long as the clue-free rules still hold"""
        s = self.start(rng, G, data)
        if s is None:
            raise Retry("no seed")
        for _ in range(G.N * 6):
            t = s ^ 1 << rng.randrange(G.N)
            if rng.random() < 0.5:
                t ^= 1 << rng.randrange(G.N)
            if self.static_ok(G, t, data["variant"]) and self.layout_ok(G, t, data):
                s = t
        return s

    def start(self, rng, G, data):
        for _ in range(300):
            m = rng.getrandbits(G.N) & rng.getrandbits(G.N)
            if self.static_ok(G, m, data["variant"]) and self.layout_ok(G, m, data):
                return m
        for m in (0, G.full):
            if self.static_ok(G, m, data["variant"]) and self.layout_ok(G, m, data):
                return m
        return None


@register
class LightShadow(Islands):
    name = "lightshadow"
    where = None

    def regions(self, G, m):
        return G.comps(G.full & ~m) + G.comps(m)

    def clues(self, rng, G, s, data):
        super().clues(rng, G, s, data)
        data["dark"] = {i for i in data["clues"] if s >> i & 1}

    def clue_ok(self, G, m, data):
        for i in data["clues"]:
            if (m >> i & 1) != (i in data["dark"]):
                return False
        return one_clue_each(G, self.regions(G, m), data["clues"])

    def draw(self, board, rng, G, data):
        super().draw(board, rng, G, data)
        for i in data.get("dark", ()):
            board.surf(*G.cells[i], 4)

    dark_codes = [4]

    def can_mark(self, case, i):
        return i not in case.data["clues"]

    def mark(self, board, rng, G, i, dark):
        if "%d" % board.idx(*G.cells[i]) not in board.layers["p"]["number"]:
            super().mark(board, rng, G, i, dark)


def rooms_of(rng, G, minsize, tries=60):
    for _ in range(tries):
        rooms = random_rooms(rng, G, target=max(1, min(G.N // minsize, rng.choice([1, 2, 2, 3, 4]))))
        if all(pop(k) >= minsize for k in rooms):
            return rooms
    return [G.full]


class _Lits(RoomShade):
    enum_sizes = [((3, 4), 2), ((4, 3), 2), ((3, 5), 2), ((5, 3), 1), ((4, 4), 3), ((2, 6), 1), ((2, 4), 1), ((2, 8), 1)]
    inverse = False

    def make_rooms(self, rng, G):
        return rooms_of(rng, G, 4)

    def params(self, rng, data):
        return {"invlitso": self.inverse}

    def static_ok(self, G, m, v=None):
        return G.connected(m) and G.no2x2(m)

    def clues(self, rng, G, s, data):
        data["clues"] = {}

    def layout_ok(self, G, m, data):
        t = G.full & ~m if self.inverse else m
        shape = []
        for k in data["rooms"]:
            x = t & k
            if pop(x) != 4 or not G.connected(x):
                return False
            shape.append(canon(G.list(x)))
        for i in range(len(shape)):
            for j in range(i):
                if shape[i] == shape[j] and G.grow(t & data["rooms"][i]) & t & data["rooms"][j]:
                    return False
        return True


@register
class Lits(_Lits):
    name = "lits"


@register
class InvLitso(_Lits):
    name = "lits/invlitso"
    solver = "lits"
    family = "option"
    inverse = True


def all_squares(G, m):
    for k in G.comps(m):
        a, b = G.dims(k)
        if a != b or a * b != pop(k):
            return False
    return True


@register
class LookAir(CellShade):
    name = "lookair"
    enum_sizes = Shade.enum_sizes + [((1, 8), .5), ((8, 1), .5)]

    def static_ok(self, G, m, v=None):
        if not all_squares(G, m):
            return False
        size, own = {}, {}
        for n, k in enumerate(G.comps(m)):
            for i in bits(k):
                size[i], own[i] = pop(k), n
        for lines in ([[G.i(r, c) for c in range(G.C)] for r in range(G.R)],
                      [[G.i(r, c) for r in range(G.R)] for c in range(G.C)]):
            for ln in lines:
                last = None
                for i in ln:
                    if i in size:
                        if last is not None and own[last] != own[i] and size[last] == size[i]:
                            return False
                        last = i
        return True

    def val(self, G, m, i):
        return pop((G.nb[i] | 1 << i) & m)


@register
class Mannequin(RoomShade):
    name = "mannequin"

    def make_rooms(self, rng, G):
        return rooms_of(rng, G, 2)

    def static_ok(self, G, m, v=None):
        return G.connected(G.full & ~m)

    def room_val(self, G, m, room):
        if pop(m & room) != 2:
            return 0
        a, b = bits(m & room)
        seen, n = 1 << a, 0
        while not seen >> b & 1:
            seen = G.grow(seen) & room
            n += 1
        return n - 1

    def layout_ok(self, G, m, data):
        if any(pop(m & k) != 2 for k in data["rooms"]):
            return False
        d = [self.room_val(G, m, k) for k in data["rooms"]]
        for i, a in enumerate(data["rooms"]):
            for j in range(i):
                if d[i] == d[j] and G.grow(a) & data["rooms"][j]:
                    return False
        return True


@register
class Martini(Shade):
    name = "martini"
    rooms = True

    def static_ok(self, G, m, v=None):
        return G.connected8(m)

    def layout_ok(self, G, m, data):
        return not across(G, m, data) and all(G.connected(m & k) for k in data["rooms"])

    def clues(self, rng, G, s, data):
        data["circ"] = {i: s >> i & 1 for i in some(rng, range(G.N))}
        cl = {}
        for i, v in data["circ"].items():
            if not v and rng.random() < 0.5:
                cl[i] = "?" if rng.random() < 0.15 else self.val(G, s, i, data)
        data["clues"] = cl

    clue_min = 1

    def val(self, G, m, i, data):
        k = G.comp_at(i, G.full & ~m)
        return sum(1 for j, v in data.get("circ", {}).items() if not v and k >> j & 1)

    def clue_ok(self, G, m, data):
        if any((m >> i & 1) != v for i, v in data.get("circ", {}).items()):
            return False
        return all(v == "?" or self.val(G, m, i, data) == v for i, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for i, v in data.get("circ", {}).items():
            board.sym(*G.cells[i], "circle_L", 2 if v else 1)
        for i, v in data.get("clues", {}).items():
            put_num(board, rng, *G.cells[i], v)


class _Mochi(CellShade):
    where = "white"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        return G.no2x2(m) and G.connected8(w) and all(G.is_rect(k) for k in G.comps(w))

    def clues(self, rng, G, s, data):
        cl = {}
        p = rng.choice([0.4, 0.8, 1])
        q = rng.choice([0, 0.3])
        for k in G.comps(G.full & ~s):
            if rng.random() < p:
                cl[rng.choice(bits(k))] = "?" if rng.random() < q else pop(k)
        if not cl:
            cl[rng.randrange(G.N)] = "?"
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        if any(m >> i & 1 for i in data["clues"]):
            return False
        for k in G.comps(G.full & ~m):
            hit = [v for i, v in data["clues"].items() if k >> i & 1]
            if len(hit) > 1 or hit and hit[0] != "?" and hit[0] != pop(k):
                return False
        return True

    def big_draw(self, board, rng, G, data):
        # the solver wants at least one clue
        i = rng.randrange(G.N)
        data["clues"] = {i: "?"}
        board.num(*G.cells[i], "?")


@register
class Mochikoro(_Mochi):
    name = "mochikoro"


@register
class Mochinyoro(_Mochi):
    name = "mochinyoro"

    def static_ok(self, G, m, v=None):
        return super().static_ok(G, m, v) and not any(G.is_rect(k) for k in G.comps(m))


@register
class Nonogram(OutsideRuns):
    name = "nonogram"
    window = 0.4

    def clues(self, rng, G, s, data):
        keys = [("r", i) for i in range(G.R)] + [("c", i) for i in range(G.C)]
        cl = {}
        q = rng.choice([0, 0, 0.3])
        for k in keys:       # a line without any clue is not part of the notation
            cl[k] = [("?" if rng.random() < q else x) for x in self.line(G, s, k)] or [0]
        data["clues"] = cl

    def perturb(self, rng, G, data):
        if data["clues"]:
            k = rng.choice(sorted(data["clues"]))
            v = data["clues"][k]
            j = rng.randrange(len(v))
            if v[j] != "?":
                v[j] = max(1, v[j] + rng.choice([-1, 1]))

    def clue_ok(self, G, m, data):
        for k, v in data["clues"].items():
            have = self.line(G, m, k)
            want = [] if v == [0] else v
            if len(have) != len(want) or any(a != b for a, b in zip(have, want) if b != "?"):
                return False
        return True

    def draw(self, board, rng, G, data):
        for (k, i), v in data.get("clues", {}).items():
            for n, x in enumerate(v):
                at = n - len(v)
                if k == "r":
                    put_num(board, rng, i, at, x)
                else:
                    put_num(board, rng, at, i, x)

    def new_board(self, rng, R, C):
        self.margin = (max(1, (R + 1) // 2), 0, max(1, (C + 1) // 2), 0)
        return super().new_board(rng, R, C)

    def big(self, rng, G, data, params, oracle):
        return rng.getrandbits(G.N)


@register
class Norinori(RoomShade):
    name = "norinori"

    def make_rooms(self, rng, G):
        return rooms_of(rng, G, 2)

    def static_ok(self, G, m, v=None):
        return all(pop(k) == 2 for k in G.comps(m))

    def clues(self, rng, G, s, data):
        data["clues"] = {}

    def layout_ok(self, G, m, data):
        return all(pop(m & k) == 2 for k in data["rooms"])


@register
class Norinuri(Islands):
    name = "norinuri"

    def static_ok(self, G, m, v=None):
        return all(pop(k) == 2 for k in G.comps(m))

    def start(self, rng, G, data):
        return scatter_dominoes(rng, G)


@register
class NoThree(Shade):
    """dots: one of the cells touching the dot is shaded"""
    name = "nothree"

    def static_ok(self, G, m, v=None):
        if G.adjacent(m) or not G.connected(G.full & ~m):
            return False
        for lines in ([[m >> G.i(r, c) & 1 for c in range(G.C)] for r in range(G.R)],
                      [[m >> G.i(r, c) & 1 for r in range(G.R)] for c in range(G.C)]):
            for ln in lines:
                at = [i for i, x in enumerate(ln) if x]
                if any(at[k + 1] - at[k] == at[k] - at[k - 1] for k in range(1, len(at) - 1)):
                    return False
        return True

    enum_sizes = Shade.enum_sizes + [((1, 9), .5), ((2, 8), 1), ((8, 2), 1)]

    def dots(self, G):
        out = []
        for r, c in G.cells:
            out.append((0, r, c, G.bit(r, c)))
            if r + 1 < G.R:
                out.append((2, r, c, G.bit(r, c) | G.bit(r + 1, c)))
            if c + 1 < G.C:
                out.append((3, r, c, G.bit(r, c) | G.bit(r, c + 1)))
            if r + 1 < G.R and c + 1 < G.C:
                out.append((1, r, c, G.mask([(r, c), (r + 1, c), (r, c + 1), (r + 1, c + 1)])))
        return out

    def clues(self, rng, G, s, data):
        good = [d for d in self.dots(G) if pop(d[3] & s) == 1]
        data["clues"] = some(rng, good, rng.choice([0.1, 0.3, 0.6]))

    def perturb(self, rng, G, data):
        data["clues"].append(rng.choice(self.dots(G)))

    def clue_ok(self, G, m, data):
        return all(pop(d[3] & m) == 1 for d in data["clues"])

    def draw(self, board, rng, G, data):
        for cat, r, c, _ in data["clues"]:
            board.sym(r, c, "circle_SS", rng.choice([1, 2]), cat=cat)


@register
class Nuribou(Islands):
    name = "nuribou"

    def static_ok(self, G, m, v=None):
        size = {}
        for k in G.comps(m):
            a, b = G.dims(k)
            if a != 1 and b != 1:
                return False
            for i in bits(k):
                size[i] = pop(k)
        for i in bits(m):
            for j in bits(G.nb8[i] & ~G.nb[i] & m):
                if size[i] == size[j]:
                    return False
        return True


@register
class Nurikabe(Islands):
    name = "nurikabe"

    def static_ok(self, G, m, v=None):
        return G.no2x2(m) and G.connected(m)


@register
class Nurimisaki(CellShade):
    name = "nurimisaki"
    where = "white"
    clue_min = 1

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        return G.no2x2(m) and G.no2x2(w) and G.connected(w)

    def ends(self, G, m):
        w = G.full & ~m
        return sum(1 << i for i in bits(w) if pop(G.nb[i] & w) == 1)

    def clues(self, rng, G, s, data):
        q = rng.choice([0.2, 0.6, 1])
        data["clues"] = {i: "?" if rng.random() < q else self.val(G, s, i) for i in bits(self.ends(G, s))}

    def val(self, G, m, i):
        return G.sees(i, G.full & ~m) + 1

    def clue_ok(self, G, m, data):
        if self.ends(G, m) != sum(1 << i for i in data["clues"]):
            return False
        return all(v == "?" or self.val(G, m, i) == v for i, v in data["clues"].items())

    def skip_mask(self, G, m, data):
        return m == 0

    def big(self, rng, G, data, params, oracle):
        return Islands.big(self, rng, G, data, params, oracle)

    start = Islands.start


@register
class Nuriuzu(Shade):
    """a dot is the centre of rotational symmetry of the unshaded region it lies in"""
    name = "nuriuzu"

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        if not (G.no2x2(m) and G.no2x2(w)):
            return False
        return all(self.centre(G, k) for k in G.comps(w))

    def centre(self, G, k):
        cs = G.list(k)
        y = min(r for r, _ in cs) + max(r for r, _ in cs)
        x = min(c for _, c in cs) + max(c for _, c in cs)
        s = set(cs)
        if any((y - r, x - c) not in s for r, c in cs) or (y % 2 and x % 2):
            return None
        mid = G.mask({(y // 2, x // 2), ((y + 1) // 2, (x + 1) // 2)})
        return (y, x) if mid & k == mid else None

    def clues(self, rng, G, s, data):
        data["clues"] = [self.centre(G, k) for k in G.comps(G.full & ~s)]

    def perturb(self, rng, G, data):
        if data["clues"]:
            data["clues"].pop(rng.randrange(len(data["clues"])))
            if not data["clues"]:
                data["clues"].append((0, 0))

    def layout_ok(self, G, m, data):
        return m != G.full

    def clue_ok(self, G, m, data):
        return sorted(self.centre(G, k) for k in G.comps(G.full & ~m)) == sorted(data["clues"])

    def ok(self, G, m, data):
        return m != G.full and super().ok(G, m, data)

    def draw(self, board, rng, G, data):
        for y, x in set(data["clues"]):
            board.sym(y // 2, x // 2, "circle_SS", 1, cat=2 if y % 2 else 3 if x % 2 else 0)

    def big(self, rng, G, data, params, oracle):
        s = None
        for _ in range(400):
            m = rng.getrandbits(G.N) | rng.getrandbits(G.N)
            if self.static_ok(G, m):
                s = m
                break
        if s is None:
            s = G.mask([(r, c) for r, c in G.cells if (r + c) % 2])
        for _ in range(G.N * 8):
            t = s ^ 1 << rng.randrange(G.N)
            if rng.random() < 0.5:
                t ^= 1 << rng.randrange(G.N)
            if self.static_ok(G, t) and t != G.full:
                s = t
        return s


@register
class Paintarea(Shade):
    name = "paintarea"
    rooms = True

    def make_rooms(self, rng, G):
        return random_rooms(rng, G, target=rng.choice([max(1, G.N // 3), max(1, G.N // 2), max(1, 2 * G.N // 3), 4]))

    def static_ok(self, G, m, v=None):
        return G.connected(m) and G.no2x2(m) and G.no2x2(G.full & ~m)

    def layout_ok(self, G, m, data):
        return all(m & k in (0, k) for k in data["rooms"])

    def clues(self, rng, G, s, data):
        data["clues"] = {i: "?" if rng.random() < 0.1 else pop(G.nb[i] & s) for i in some(rng, range(G.N))}

    def clue_ok(self, G, m, data):
        return all(v == "?" or pop(G.nb[i] & m) == v for i, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for i, v in data["clues"].items():
            put_num(board, rng, *G.cells[i], v)


@register
class Shimaguni(RoomShade):
    name = "shimaguni"

    def layout_ok(self, G, m, data):
        if across(G, m, data):
            return False
        n = []
        for k in data["rooms"]:
            if not m & k or not G.connected(m & k):
                return False
            n.append(pop(m & k))
        if "touch" not in data:
            ix = room_index(G, data["rooms"])
            data["touch"] = {(ix[G.i(*a)], ix[G.i(*b)]) for a, b in borders_of(G, data["rooms"])}
        return all(n[a] != n[b] for a, b in data["touch"])

    clue_min = 1


@register
class Snake(Shade):
    name = "snake"
    margin = (1, 0, 1, 0)

    def static_ok(self, G, m, v=None):
        if not m or not G.connected(m) or pop(m) < 2:
            return False
        ends = 0
        for i in bits(m):
            d = pop(G.nb[i] & m)
            if d > 2:
                return False
            ends += d == 1
        if ends != 2:
            return False
        for sq in G.sq:        # the path does not touch itself at a corner
            if pop(sq & m) == 2:
                a, b = bits(sq & m)
                if not G.nb[a] >> b & 1:
                    return False
            if sq & m == sq:
                return False
        return True

    def clues(self, rng, G, s, data):
        cl = {}
        for k in some(rng, [("r", i) for i in range(G.R)] + [("c", i) for i in range(G.C)]):
            cl[k] = "?" if rng.random() < 0.1 else pop(s & (G.rows if k[0] == "r" else G.cols)[k[1]])
        data["clues"] = cl
        data["circ"] = {i: pop(G.nb[i] & s) == 1 for i in some(rng, bits(s), rng.choice([0, .1, .3]))}

    def clue_ok(self, G, m, data):
        for (k, i), v in data["clues"].items():
            if v != "?" and pop(m & (G.rows if k == "r" else G.cols)[i]) != v:
                return False
        return all(m >> i & 1 and (pop(G.nb[i] & m) == 1) == e for i, e in data.get("circ", {}).items())

    def draw(self, board, rng, G, data):
        for (k, i), v in data["clues"].items():
            put_num(board, rng, *((i, -1) if k == "r" else (-1, i)), v)
        for i, e in data.get("circ", {}).items():
            board.sym(*G.cells[i], "circle_L", 2 if e else 1)


@register
class Stostone(RoomShade):
    name = "stostone"
    clue_min = 1
    enum_sizes = [((2, 3), 1), ((4, 3), 3), ((4, 4), 3), ((2, 5), 1), ((2, 2), .3), ((6, 2), 1), ((2, 7), .5),
                  ((6, 1), .3), ((4, 2), 1)]
    win_sizes = [((4, 5), 1), ((6, 4), 1), ((6, 6), 1), ((4, 6), 1)]

    def make_rooms(self, rng, G):
        return random_rooms(rng, G, target=rng.choice([G.C, max(1, G.C - 1), G.C + 1, 3, 4]))

    def static_ok(self, G, m, v=None):
        if any(pop(m & k) * 2 != G.R for k in G.cols):
            return False
        fall = {}
        for k in G.cols:
            cs = bits(m & k)
            for n, i in enumerate(cs):
                fall[i] = G.R - len(cs) + n - i // G.C
        return all(len({fall[i] for i in bits(k)}) == 1 for k in G.comps(m))

    def layout_ok(self, G, m, data):
        return not across(G, m, data) and all(m & k and G.connected(m & k) for k in data["rooms"])


RING = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


@register
class Tapa(Shade):
    name = "tapa"

    def static_ok(self, G, m, v=None):
        return G.connected(m) and G.no2x2(m)

    def val(self, G, m, i):
        r, c = G.cells[i]
        s = [G.ins(r + a, c + b) and m >> G.i(r + a, c + b) & 1 for a, b in RING]
        if all(s):
            return [8]
        k = next(j for j in range(8) if not s[j])
        return sorted(runs(s[k:] + s[:k])) or [0]

    def clues(self, rng, G, s, data):
        cl = {}
        for i in some(rng, bits(G.full & ~s), rng.choice([.1, .3, .6])):
            v = [("?" if rng.random() < 0.2 else x) for x in self.val(G, s, i)]
            rng.shuffle(v)
            cl[i] = v
        data["clues"] = cl

    def perturb(self, rng, G, data):
        if data["clues"]:
            i = rng.choice(sorted(data["clues"]))
            v = data["clues"][i]
            k = rng.randrange(len(v))
            if v[k] != "?" and v != [0]:
                v[k] = max(1, v[k] + rng.choice([-1, 1]))

    def clue_ok(self, G, m, data):
        for i, v in data["clues"].items():
            if m >> i & 1:
                return False
        for i, v in data["clues"].items():
            have = self.val(G, m, i)
            if len(have) != len(v):
                return False
            for x in v:
                if x != "?":
                    if x not in have:
                        return False
                    have.remove(x)
        return True

    def draw(self, board, rng, G, data):
        for i, v in data["clues"].items():
            board.num(*G.cells[i], "".join(map(str, v)), "4")


@register
class Tasquare(CellShade):
    name = "tasquare"
    where = "white"
    clue_min = 0

    def static_ok(self, G, m, v=None):
        if not G.connected(G.full & ~m):
            return False
        for k in G.comps(m):
            a, b = G.dims(k)
            if a != b or a * b != pop(k):
                return False
        return True

    def val(self, G, m, i):
        return pop(G.flood(G.nb[i] & m, m))

    def clues(self, rng, G, s, data):
        super().clues(rng, G, s, data)
        for i, v in data["clues"].items():
            if v == "?" and not G.nb[i] & s:
                data["clues"][i] = 0

    def clue_ok(self, G, m, data):
        return super().clue_ok(G, m, data) and all(G.nb[i] & m for i, v in data["clues"].items() if v == "?")


class ArrowShade(Shade):
    """a number and an arrow: how many cells in that direction are shaded"""
    sure = True

    def clues(self, rng, G, s, data):
        cl = {}
        for i in some(rng, bits(G.full & ~s) if self.sure else range(G.N)):
            d = rng.randrange(4)
            cl[i] = (self.count(G, s, i, d), d)
            if s >> i & 1:
                cl[i] = (rng.randrange(3), d)
        data["clues"] = cl

    def count(self, G, m, i, d):
        return sum(m >> j & 1 for j in G.ray(*G.cells[i], [(-1, 0), (0, -1), (0, 1), (1, 0)][d]))

    def perturb(self, rng, G, data):
        if data["clues"]:
            i = rng.choice(sorted(data["clues"]))
            v, d = data["clues"][i]
            data["clues"][i] = (max(0, v + rng.choice([1, -1])), d)

    def clue_ok(self, G, m, data):
        for i, (v, d) in data["clues"].items():
            if m >> i & 1:
                if self.sure:
                    return False
            elif self.count(G, m, i, d) != v:
                return False
        return True

    def draw(self, board, rng, G, data):
        for i, (v, d) in data["clues"].items():
            board.num(*G.cells[i], "%d_%d" % (v, d), "2")


@register
class Tetrochain(ArrowShade):
    name = "tetrochain"
    enum_sizes = [((3, 4), 2), ((4, 3), 2), ((4, 4), 4), ((2, 6), 1), ((6, 2), 1), ((3, 5), 2), ((5, 3), 2), ((2, 3), .3)]
    win_sizes = Shade.win_sizes + [((6, 7), 1)]

    def static_ok(self, G, m, v=None):
        if pop(m) % 4:
            return False
        kind = {}
        for k in G.comps(m):
            if pop(k) != 4:
                return False
            t = canon(G.list(k))
            for i in bits(k):
                kind[i] = t
        for i in bits(m):
            for j in bits(G.nb8[i] & ~G.nb[i] & m):
                if j > i and kind[i] == kind[j] and not G.flood(1 << i, m) >> j & 1:
                    return False
        return G.connected8(m)

    def big(self, rng, G, data, params, oracle):
        s = super().big(rng, G, data, params, oracle)
        return s


@register
class YajiKazu(ArrowShade):
    name = "yajikazu"
    sure = False

    def static_ok(self, G, m, v=None):
        return m != 0 and not G.adjacent(m) and G.connected(G.full & ~m)

    def ok(self, G, m, data):
        return super().ok(G, m, data)


@register
class Tilepaint(Shade):
    name = "tilepaint"
    rooms = True
    margin = (1, 0, 1, 0)

    def make_rooms(self, rng, G):
        return random_rooms(rng, G, target=rng.choice([max(1, G.N // 3), max(1, G.N // 2), max(1, 2 * G.N // 3), 4]))

    def layout_ok(self, G, m, data):
        return all(m & k in (0, k) for k in data["rooms"])

    lines_p = None

    def clues(self, rng, G, s, data):
        cl = {}
        for k in some(rng, [("r", i) for i in range(G.R)] + [("c", i) for i in range(G.C)]):
            cl[k] = pop(s & (G.rows if k[0] == "r" else G.cols)[k[1]])
        data["clues"] = cl

    def clue_ok(self, G, m, data):
        return all(pop(m & (G.rows if k == "r" else G.cols)[i]) == v for (k, i), v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for (k, i), v in data["clues"].items():
            v = v if rng.random() < 0.5 else str(v)
            if k == "r":
                board.sud(i, -1, 1, v)
            else:
                board.sud(-1, i, 2, v)


@register
class Aquarium(Tilepaint):
    name = "aquarium"

    def make_rooms(self, rng, G):
        return random_rooms(rng, G, target=rng.choice([2, 3, 4, 5, 6]))

    def layout_ok(self, G, m, data):
        for k in data["rooms"]:
            hit = bits(m & k)
            if hit and any(i // G.C >= hit[0] // G.C for i in bits(k & ~m)):
                return False
        return True

    def draw(self, board, rng, G, data):
        for (k, i), v in data["clues"].items():
            put_num(board, rng, *((i, -1) if k == "r" else (-1, i)), v)


@register
class Usoone(Shade):
    """every room holding numbers has exactly one that is wrong"""
    name = "usoone"
    rooms = True

    def static_ok(self, G, m, v=None):
        return not G.adjacent(m) and G.connected(G.full & ~m)

    def clues(self, rng, G, s, data):
        cl = {}
        for k in some(rng, data["rooms"], rng.choice([.5, 1])):
            at = some(rng, bits(k & ~s), rng.choice([.3, .6, 1]))
            if at:
                bad = rng.choice(at)
                for i in at:
                    v = pop(G.nb[i] & s)
                    cl[i] = rng.choice([x for x in range(5) if x != v]) if i == bad else v
        data["clues"] = cl

    def liars(self, G, m, data):
        return {i for i, v in data["clues"].items() if pop(G.nb[i] & m) != v}

    def clue_ok(self, G, m, data):
        if any(m >> i & 1 for i in data["clues"]):
            return False
        bad = self.liars(G, m, data)
        for k in data["rooms"]:
            here = [i for i in data["clues"] if k >> i & 1]
            if here and sum(i in bad for i in here) != 1:
                return False
        return True

    def draw(self, board, rng, G, data):
        for i, v in data["clues"].items():
            put_num(board, rng, *G.cells[i], v)

    def view(self, case, view):
        m = super().view(case, view)
        G, d = case.G, case.data
        bad = self.liars(G, m, d)
        good = {i: view.symbol.get(G.cells[i] + (0,)) for i in d["clues"]}
        for i in d["clues"]:
            s = good[i]
            if not s or s[1] != "ox_E" or s[0] not in (([4, 7]) if i in bad else [1]):
                return m | 1 << G.N
        return m

    def pin(self, case, sol, rng):
        cl = sorted(case.data["clues"])
        if cl and rng.random() < 0.3 and case.kind == "enum":
            i = rng.choice(cl)
            G, d = case.G, case.data
            bad = i in self.liars(G, sol, d)
            # a mark must not contradict an earlier one on the same cell
            if case.pins >> (G.N + i) & 1:
                return super().pin(case, sol, rng)
            case.pins |= 1 << (G.N + i)
            case.board.sym(*G.cells[i], "ox_E", rng.choice([4, 7]) if bad else 1)
            return lambda m: (i in self.liars(G, m, d)) == bad
        return super().pin(case, sol, rng)


@register
class YinYang(Shade):
    """the mask holds the cells of the black circles"""
    name = "yinyang"
    window = 0.35

    def static_ok(self, G, m, v=None):
        w = G.full & ~m
        return G.connected(m) and G.connected(w) and G.no2x2(m) and G.no2x2(w)

    def skip_mask(self, G, m, data):
        return m in (0, G.full)

    def clues(self, rng, G, s, data):
        data["clues"] = {i: s >> i & 1 for i in some(rng, range(G.N), rng.choice([0, .1, .3]))}

    def perturb(self, rng, G, data):
        if data["clues"] and not data["win"]:
            data["clues"][rng.choice(sorted(data["clues"]))] ^= 1

    def clue_ok(self, G, m, data):
        return all((m >> i & 1) == v for i, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for i, v in data["clues"].items():
            board.sym(*G.cells[i], "circle_M", 2 if v else 1)

    def can_mark(self, case, i):
        return i not in case.data["clues"]

    def mark(self, board, rng, G, i, dark):
        board.sym(*G.cells[i], "circle_M", 2 if dark else 1, layer=rng.choice("pa"))

    def view(self, case, view):
        G = case.G
        m = 0
        for i, (r, c) in enumerate(G.cells):
            s = view.symbol.get((r, c, 0))
            if not s or s[1] != "circle_M" or s[0] not in (1, 2):
                return -1
            m |= (s[0] == 2) << i
        return m


@register
class Box(Shade):
    name = "box"
    margin = (1, 1, 1, 1)
    enum_sizes = [((3, 3), 2), ((3, 4), 3), ((4, 3), 3), ((2, 5), 1), ((4, 4), 1), ((2, 2), .3), ((1, 4), .3)]

    def layout(self, rng, G, data):
        hi = rng.choice([3, 5, 9, 20])
        data["wr"] = [rng.randint(1, hi) for _ in range(G.R)]
        data["wc"] = [rng.randint(1, hi) for _ in range(G.C)]
        if rng.random() < .5:
            data["wr"] = list(range(1, G.R + 1))
            data["wc"] = list(range(1, G.C + 1))

    def val(self, G, m, k, data):
        if k[0] == "c":
            return sum(data["wr"][i // G.C] for i in bits(m & G.cols[k[1]]))
        return sum(data["wc"][i % G.C] for i in bits(m & G.rows[k[1]]))

    def clues(self, rng, G, s, data):
        keys = [("r", i) for i in range(G.R)] + [("c", i) for i in range(G.C)]
        data["clues"] = {k: self.val(G, s, k, data) for k in some(rng, keys, rng.choice([.6, 1, 1]))}

    def clue_ok(self, G, m, data):
        return all(self.val(G, m, k, data) == v for k, v in data["clues"].items())

    def draw(self, board, rng, G, data):
        for (k, i), v in data["clues"].items():
            put_num(board, rng, *((i, -1) if k == "r" else (-1, i)), v)
        for i, v in enumerate(data["wr"]):
            put_num(board, rng, i, G.C, v)
        for i, v in enumerate(data["wc"]):
            put_num(board, rng, G.R, i, v)


@register
class Patchwork(Spec):
    """solutions: (set of square patches, mask of black cells)"""
    name = "patchwork"
    family = "shade"
    sizes = [((2, 2), 1), ((2, 3), 2), ((3, 2), 2), ((3, 3), 4), ((3, 4), 3), ((4, 3), 3), ((4, 4), 2), ((1, 5), .3)]

    def make(self, rng, oracle=None):
        R, C = wchoice(rng, self.sizes)
        G = grid(R, C)
        if (R, C) not in _tilings:
            _tilings[R, C] = list(partitions(G, lambda m: G.is_rect(m) and len(set(G.dims(m))) == 1))
        til = _tilings[R, C]
        dens = rng.choice([0, .2, .4, .6])
        gray = sum(1 << i for i in range(G.N) if rng.random() < dens)
        sols = []
        for t in til:
            ends = borders_of(G, t)
            bad = [(G.bit(*a), G.bit(*b)) for a, b in ends if not gray & (G.bit(*a) | G.bit(*b))]
            for m in self.colours(G, gray, bad):
                sols.append((frozenset(t), m))
            if len(sols) > 60000:
                raise Retry("too many")
        if not sols:
            raise Retry("none")
        s = rng.choice(sols)
        cl = {}
        for i in some(rng, range(G.N)):
            v = pop(next(k for k in s[0] if k >> i & 1) & s[1])
            cl[i] = "?" if rng.random() < .1 else v
        if rng.random() < .25:
            ks = [k for k in cl if cl[k] != "?"]
            if ks:
                k = rng.choice(ks)
                cl[k] = max(0, cl[k] + rng.choice([1, -1]))
        data = {"gray": gray, "clues": cl}
        board = self.new_board(rng, R, C)
        for i in bits(gray):
            board.surf(*G.cells[i], rng.choice([1, 3, 8]))
        for i, v in cl.items():
            put_num(board, rng, *G.cells[i], v)
        case = Case(self, G, board, data)
        case.pins, case.epins = gray, set()
        case.expected = {x for x in sols if all(v == "?" or pop(next(k for k in x[0] if k >> i & 1) & x[1]) == v
                                                for i, v in cl.items())}
        return case

    def colours(self, G, gray, pairs):
        nb = {}
        for a, b in pairs:
            nb.setdefault(a, []).append(b)
            nb.setdefault(b, []).append(a)

        def rec(i, m):
            if i == G.N:
                yield m
                return
            b = 1 << i
            if gray & b:
                yield from rec(i + 1, m)
                return
            low = [x for x in nb.get(b, ()) if x < b]
            if all(m & x for x in low):
                yield from rec(i + 1, m)
            if not any(m & x for x in low):
                yield from rec(i + 1, m | b)
        return rec(0, 0)

    def pin(self, case, sol, rng):
        G = case.G
        if rng.random() < .6:
            left = [i for i in range(G.N) if not case.pins >> i & 1]
            if left:
                i = rng.choice(left)
                case.pins |= 1 << i
                v = sol[1] >> i & 1
                case.board.surf(*G.cells[i], 4 if v else 2, rng.choice("pa"))
                return lambda x: (x[1] >> i & 1) == v
        pairs = [(a, b) for a in G.cells for b in ((a[0] + 1, a[1]), (a[0], a[1] + 1)) if G.ins(*b)]
        pairs = [p for p in pairs if p not in case.epins]
        if not pairs:
            return None
        p = rng.choice(pairs)
        case.epins.add(p)
        both = G.bit(*p[0]) | G.bit(*p[1])
        v = not any(k & both == both for k in sol[0])
        lay = rng.choice("pa")
        (case.board.wall_between if v else case.board.wallx_between)(*p, lay)
        return lambda x: (not any(k & both == both for k in x[0])) == v

    def view(self, case, view):
        regs = regions_of(case.G, view)
        m = 0
        for r, c in view.shaded():
            if view.surface[r, c] == 4:
                m |= case.G.bit(r, c)
        return regs, m & ~case.data["gray"]

    def show(self, case, sol):
        return show_regions(case.G, sol[0]) + " black " + Shade.show(self, case, sol[1])


_tilings = {}
