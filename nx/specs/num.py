"""Reference rules of the number placement puzzles.

A filling is a tuple with one entry per cell: a number, or None for a cell that stays empty.
"""

import itertools

from nx import grids
from nx.grids import bits, grid, pop
from nx.spec import Case, QMARKS, Retry, Shade, Spec, put_num, register, wchoice

NB4 = ((-1, 0), (1, 0), (0, -1), (0, 1))


def draw_rooms(board, rng, G, rooms):
    Shade.draw_rooms(None, board, rng, G, rooms)


def some_rooms(rng, G, sizes):
    """rooms of about one of the given average sizes"""
    return grids.random_rooms(rng, G, target=max(1, round(G.N / rng.choice(sizes))))


def room_cells(rooms):
    return [bits(m) for m in rooms]


class Num(Spec):
    """numbers by constraint search: `constraints` gives (cells, predicate on the whole list of values)"""
    family = "num"
    sizes = [((3, 3), 2), ((3, 4), 2), ((4, 3), 2), ((2, 5), 1), ((5, 2), 1), ((4, 4), 2), ((1, 4), .3), ((4, 1), .3), ((2, 2), .3)]
    budget = 25000
    givens_p = 0.5
    perturb_p = 0.22
    wrong_given_p = 0.05
    empties = False        # empty cells exist
    empty_marks = False    # and can be marked by the user

    def size(self, rng):
        return wchoice(rng, self.sizes)

    def setup(self, rng, G, data):
        pass

    def params(self, rng, data):
        return {}

    def cells(self, G, data):
        return list(range(G.N))

    def dom(self, G, data, i):
        raise NotImplementedError

    def groups(self, G, data):
        return []

    def constraints(self, G, data):
        return []

    def clue_constraints(self, G, data):
        return []

    def clues(self, rng, G, s, data):
        pass

    def final(self, G, data, vals):
        return True

    def perturb(self, rng, G, data):
        cl = data.get("clues")
        ks = [k for k, v in (cl or {}).items() if isinstance(v, int)]
        if ks:
            k = rng.choice(sorted(ks, key=repr))
            cl[k] = max(1, cl[k] + rng.choice([-1, 1]))

    def draw(self, board, rng, G, data):
        pass

    # -- search
    def solutions(self, G, data, givens, rng=None, clues=True, budget=None):
        """all fillings; raises Retry("budget") when the search is too long"""
        order = self.cells(G, data)
        place = {i: k for k, i in enumerate(order)}
        ready = [[] for _ in order]
        cons = list(self.constraints(G, data)) + (list(self.clue_constraints(G, data)) if clues else [])
        for g in self.groups(G, data):
            for a, b in itertools.combinations(g, 2):
                cons.append(((a, b), lambda v, a=a, b=b: v[a] is None or v[a] != v[b]))
        for scope, f in cons:
            ks = [place[i] for i in scope if i in place]
            if ks:
                ready[max(ks)].append(f)
            elif not f([None] * G.N):
                return
        doms = []
        for i in order:
            d = list(self.dom(G, data, i))
            if i in givens:
                d = [v for v in d if v == givens[i]]
            if rng is not None:
                rng.shuffle(d)
            doms.append(d)
        vals = [None] * G.N
        left = [budget or self.budget]
        n = len(order)

        def go(k):
            if k == n:
                if self.final(G, data, vals):
                    yield tuple(vals)
                return
            i = order[k]
            for v in doms[k]:
                left[0] -= 1
                if left[0] < 0:
                    raise Retry("budget")
                vals[i] = v
                for f in ready[k]:
                    if not f(vals):
                        break
                else:
                    yield from go(k + 1)
            vals[i] = None

        yield from go(0)

    def secret(self, rng, G, data):
        for _ in range(6):
            try:
                for s in self.solutions(G, data, {}, rng, clues=False, budget=6000):
                    return s
                return None
            except Retry:
                continue
        return None

    def list_all(self, G, data, givens, cap):
        out = set()
        for s in self.solutions(G, data, givens):
            out.add(s)
            if len(out) > cap:
                return None
        return out

    def can_give(self, case, i, v):
        return v is not None or self.empty_marks

    def give(self, board, rng, i, G, v, data):
        r, c = G.cells[i]
        if v is None:
            self.mark_empty(board, rng, r, c)
        else:
            self.put_given(board, rng, r, c, v)

    def put_given(self, board, rng, r, c, v):
        if rng.random() < 0.5:
            v = str(v)
        board.num(r, c, v, layer="p" if rng.random() < 0.6 else "a")

    def mark_empty(self, board, rng, r, c):
        board.surf(r, c, rng.choice([1, 3, 4, 4, 8]), "p" if rng.random() < 0.5 else "a")

    def wrong(self, G, data, i):
        """a number that can never stand in cell i"""
        d = [v for v in self.dom(G, data, i) if v is not None]
        return (max(d) + 1, min(d) - 1) if d else (1,)

    large_p = 0.12
    large_sizes = [((5, 5), 2), ((5, 6), 1), ((6, 5), 1), ((6, 6), 1), ((4, 7), 1), ((7, 4), 1)]

    def allowed(self, G, data, s):
        """the rules and clues applied to a whole filling"""
        v = list(s)
        if len(v) != G.N or any(v[i] not in self.dom(G, data, i) for i in self.cells(G, data)):
            return False
        for g in self.groups(G, data):
            w = [v[i] for i in g if v[i] is not None]
            if len(w) != len(set(w)):
                return False
        if not all(f(v) for _, f in self.constraints(G, data)) or not all(f(v) for _, f in self.clue_constraints(G, data)):
            return False
        return self.final(G, data, v)

    def make_large(self, rng):
        R, C = wchoice(rng, self.large_sizes)
        G = grid(R, C)
        data = {"clues": {}, "large": True}
        self.setup(rng, G, data)
        params = self.params(rng, data)
        s = self.secret(rng, G, data)
        if s is None:
            raise Retry("no filling")
        self.clues(rng, G, s, data)
        board = self.new_board(rng, R, C)
        self.draw(board, rng, G, data)
        case = Case(self, G, board, data, params)
        case.kind, case.secret = "large", s
        p = rng.choice([0.1, 0.3, 0.6])
        givens = case.givens = {i: s[i] for i in self.cells(G, data) if rng.random() < p and self.can_give(case, i, s[i])}
        for i, v in sorted(givens.items()):
            self.give(board, rng, i, G, v, data)
        case.accept = lambda t: all(t[i] == v for i, v in givens.items()) and self.allowed(G, data, t)
        if not case.accept(s):
            raise Retry("altered")
        return case

    def make(self, rng, oracle=None):
        if self.large_sizes and rng.random() < self.large_p:
            return self.make_large(rng)
        R, C = self.size(rng)
        G = grid(R, C)
        data = {"clues": {}}
        self.setup(rng, G, data)
        params = self.params(rng, data)
        s = self.secret(rng, G, data)
        if s is None:
            raise Retry("no filling")
        self.clues(rng, G, s, data)
        if rng.random() < self.perturb_p:
            self.perturb(rng, G, data)
        board = self.new_board(rng, R, C)
        self.draw(board, rng, G, data)
        case = Case(self, G, board, data, params)
        givens = {}
        act = self.cells(G, data)
        if rng.random() < self.givens_p:
            for i in rng.sample(act, min(len(act), rng.choice([1, 2, 3, 4]))):
                if self.can_give(case, i, s[i]):
                    givens[i] = s[i]
        exp = None
        while exp is None:
            try:
                exp = self.list_all(G, data, givens, self.cap)
            except Retry:
                exp = None
            if exp is None:
                free = [i for i in act if i not in givens and self.can_give(case, i, s[i])]
                if not free:
                    raise Retry("no more givens")
                for i in rng.sample(free, min(len(free), 1 + G.N // 12)):
                    givens[i] = s[i]
        if givens and rng.random() < self.wrong_given_p:
            k = rng.choice(sorted(givens))
            if givens[k] is not None:
                givens[k] = rng.choice(self.wrong(G, data, k))
                if givens[k] >= 0:
                    exp = set()
                else:
                    raise Retry("negative")
        for i, v in sorted(givens.items()):
            self.give(board, rng, i, G, v, data)
        case.givens = givens
        case.expected = exp
        return case

    # -- reading
    def view(self, case, view):
        G = case.G
        out = [None] * G.N
        for i in self.cells(G, case.data):
            v = view.number.get((*G.cells[i], 0))
            if v is not None:
                try:
                    out[i] = int(v[0])
                except ValueError:
                    return "cell %s shows %r" % (G.cells[i], v[0])
        return self.also(case, view, tuple(out))

    def also(self, case, view, vals):
        return vals

    def show(self, case, s):
        if isinstance(s, str):
            return s
        G = case.G
        return "/".join(" ".join("." if s[G.i(r, c)] is None else str(s[G.i(r, c)]) for c in range(G.C)) for r in range(G.R))


def gray_view(case, view, vals):
    """empty cells are shown shaded, and only they"""
    G = case.G
    for i in case.spec.cells(G, case.data):
        if (vals[i] is None) != (G.cells[i] in view.shaded()):
            return "cell %s: number %s, shaded %s" % (G.cells[i], vals[i], G.cells[i] in view.shaded())
    return vals


class Latin(Num):
    large_sizes = [((6, 6), 1), ((7, 7), 1)]
    ns = [(4, 4), (5, 3), (3, 1), (2, .3), (1, .1), (6, 1)]

    def size(self, rng):
        n = wchoice(rng, self.ns)
        return n, n

    def dom(self, G, data, i):
        return range(1, G.R + 1)

    def groups(self, G, data):
        return latin_groups(G)


def latin_groups(G):
    return [[G.i(r, c) for c in range(G.C)] for r in range(G.R)] + [[G.i(r, c) for r in range(G.R)] for c in range(G.C)]


def neighbours(G, i):
    return bits(G.nb[i])


def local(G, i, cells=None):
    nb = [j for j in bits(G.nb[i]) if cells is None or j in cells]
    return nb


@register
class Bosanowa(Num):
    name = "bosanowa"
    sizes = [((3, 3), 3), ((3, 4), 2), ((4, 3), 2), ((2, 4), 1), ((1, 5), .4), ((5, 1), .4), ((4, 4), 1), ((2, 2), .3), ((2, 3), 1)]

    def setup(self, rng, G, data):
        data["holes"] = frozenset(rng.sample(range(G.N), rng.choice([0, 0, 1, 2, 3]) if G.N > 6 else rng.choice([0, 0, 1])))
        data["max"] = 10

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["holes"]]

    def dom(self, G, data, i):
        return range(1, data["max"] + 1)

    def constraints(self, G, data):
        act = set(self.cells(G, data))
        for i in act:
            nb = local(G, i, act)
            yield ([i] + nb, lambda v, i=i, nb=nb: v[i] == sum(abs(v[i] - v[j]) for j in nb))

    def draw(self, board, rng, G, data):
        for i in data["holes"]:
            board.surf(*G.cells[i], rng.choice([1, 3, 4, 4, 8]))

    secret_budget = 40000

    def secret(self, rng, G, data):
        try:
            for s in self.solutions(G, data, {}, rng, clues=False, budget=40000):
                return s
        except Retry:
            pass
        return None


@register
class BosanowaMax(Bosanowa):
    name, solver, family = "bosanowa/max_number", "bosanowa", "option"

    def setup(self, rng, G, data):
        super().setup(rng, G, data)
        data["max"] = rng.choice([3, 4, 5, 6, 8, 12, 15])

    def params(self, rng, data):
        return {"max_number": str(data["max"]) if rng.random() < 0.7 else data["max"]}


class Roomy(Num):
    hi = 5

    def setup(self, rng, G, data):
        data["rooms"] = some_rooms(rng, G, [2, 3, self.hi, self.hi])
        data["ix"] = grids.room_index(G, data["rooms"])
        data["rc"] = room_cells(data["rooms"])

    def dom(self, G, data, i):
        return range(1, len(data["rc"][data["ix"][i]]) + 1)

    def groups(self, G, data):
        return data["rc"]

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])


@register
class Cojun(Roomy):
    name = "cojun"

    def constraints(self, G, data):
        for i in range(G.N):
            r, c = G.cells[i]
            for j in neighbours(G, i):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] != v[j])
            if r + 1 < G.R and data["ix"][i] == data["ix"][G.i(r + 1, c)]:
                j = G.i(r + 1, c)
                yield ((i, j), lambda v, i=i, j=j: v[i] > v[j])


@register
class DoppelBlock(Num):
    name = "doppelblock"
    margin = (1, 0, 1, 0)
    empties = empty_marks = True

    def size(self, rng):
        n = wchoice(rng, [(4, 4), (5, 3), (3, 1), (2, .4), (6, .5)])
        return n, n

    def dom(self, G, data, i):
        return [None] + list(range(1, G.R - 1))

    def groups(self, G, data):
        return latin_groups(G)

    def constraints(self, G, data):
        for ln in latin_groups(G):
            for k in range(1, len(ln) + 1):      # two blacks per line, and room for them
                part, rest = ln[:k], len(ln) - k
                yield (part, lambda v, p=part, rest=rest: 2 - rest <= sum(v[i] is None for i in p) <= 2)

    def between(self, v, ln):
        a, b = [k for k, i in enumerate(ln) if v[i] is None]
        return sum(v[i] for i in ln[a + 1:b])

    def lines(self, G):
        d = {("c", c): [G.i(r, c) for r in range(G.R)] for c in range(G.C)}
        d.update({("r", r): [G.i(r, c) for c in range(G.C)] for r in range(G.R)})
        return d

    def clues(self, rng, G, s, data):
        p = rng.choice([0.3, 0.6, 1])
        for k, ln in self.lines(G).items():
            if rng.random() < p:
                data["clues"][k] = self.between(s, ln) if rng.random() < 0.9 else rng.choice(QMARKS[:1])

    def perturb(self, rng, G, data):
        ks = sorted((k for k, v in data["clues"].items() if isinstance(v, int)))
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        L = self.lines(G)
        for k, n in data["clues"].items():
            if isinstance(n, int):
                yield (L[k], lambda v, ln=L[k], n=n: self.between(v, ln) == n)

    def draw(self, board, rng, G, data):
        for (kind, k), n in data["clues"].items():
            if kind == "c":
                put_num(board, rng, -1, k, n)
            else:
                put_num(board, rng, k, -1, n)

    also = staticmethod(gray_view)


@register
class EasyAsABC(Num):
    name = "easyasabc"
    margin = (1, 1, 1, 1)
    letters = [("ABC", 1)]
    empties = True

    def size(self, rng):
        n = wchoice(rng, [(4, 4), (5, 3), (3, 1)])
        return n, n

    def setup(self, rng, G, data):
        data["letters"] = wchoice(rng, self.letters)
        if len(data["letters"]) > G.R:
            raise Retry("letters")

    def params(self, rng, data):
        return {"letters": data["letters"]} if self.family == "option" or rng.random() < 0.5 else {}

    def dom(self, G, data, i):
        return [None] + list(data["letters"])

    def groups(self, G, data):
        return latin_groups(G)

    def constraints(self, G, data):
        k = len(data["letters"])
        for ln in latin_groups(G):
            for e in range(1, len(ln) + 1):
                part = ln[:e]
                yield (part, lambda v, p=part, m=len(ln) - k: sum(v[i] is None for i in p) <= m)

    def sights(self, G):
        d = {}
        for c in range(G.C):
            col = [G.i(r, c) for r in range(G.R)]
            d[-1, c], d[G.R, c] = col, col[::-1]
        for r in range(G.R):
            row = [G.i(r, c) for c in range(G.C)]
            d[r, -1], d[r, G.C] = row, row[::-1]
        return d

    def first(self, v, ln):
        return next((v[i] for i in ln if v[i] is not None), None)

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.4, 0.7])
        for k, ln in self.sights(G).items():
            if rng.random() < p:
                data["clues"][k] = self.first(s, ln)

    def perturb(self, rng, G, data):
        if data["clues"]:
            k = rng.choice(sorted(data["clues"]))
            data["clues"][k] = rng.choice(data["letters"])

    def clue_constraints(self, G, data):
        S = self.sights(G)
        for k, x in data["clues"].items():
            yield (S[k], lambda v, ln=S[k], x=x: self.first(v, ln) == x)

    def draw(self, board, rng, G, data):
        for (r, c), x in data["clues"].items():
            board.num(r, c, x)

    def put_given(self, board, rng, r, c, v):
        board.num(r, c, v, layer="p" if rng.random() < 0.6 else "a")

    wrong_given_p = 0

    def view(self, case, view):
        G = case.G
        out = []
        for i in range(G.N):
            v = view.number.get((*G.cells[i], 0))
            out.append(None if v is None else str(v[0]))
        return tuple(out)


@register
class EasyAsABCLetters(EasyAsABC):
    name, solver, family = "easyasabc/letters", "easyasabc", "option"
    letters = [("AB", 1), ("ABCD", 1), ("XYZ", 1), ("CBA", 1), ("A", .5), ("QWER", 1), ("abc", 1), ("123", 1), ("ab", .5)]


@register
class Factors(Latin):
    name = "factors"

    def setup(self, rng, G, data):
        data["rooms"] = some_rooms(rng, G, [2, 3, 4])
        if max(pop(m) for m in data["rooms"]) > 7:
            raise Retry("large room")
        data["rc"] = room_cells(data["rooms"])

    def clues(self, rng, G, s, data):
        p = rng.choice([0.3, 0.7, 1])
        for k, cells in enumerate(data["rc"]):
            if rng.random() < p:
                n = 1
                for i in cells:
                    n *= s[i]
                data["clues"][k] = n
        data["at"] = {k: rng.choice(data["rc"][k]) for k in data["clues"]}

    def clue_constraints(self, G, data):
        for k, n in data["clues"].items():
            cells = data["rc"][k]

            def full(v, cells=cells, n=n):
                x = 1
                for i in cells:
                    x *= v[i]
                return x == n
            yield (cells, full)

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])
        for k, n in data["clues"].items():
            board.sud(*G.cells[data["at"][k]], 0, str(n) if rng.random() < 0.5 else n)

    def view(self, case, view):
        return super().view(case, view)


@register
class Fillomino(Num):
    name = "fillomino"
    fast = True
    budget = 5000
    sizes = [((3, 3), 4), ((3, 4), 3), ((4, 3), 3), ((4, 4), 1), ((2, 5), 1), ((1, 6), .3), ((6, 1), .3), ((4, 5), .2), ((5, 4), .2), ((2, 2), .2)]
    cap = 60

    def params(self, rng, data):
        return {}

    def dom(self, G, data, i):
        return range(1, G.N + 1)

    def part(self, G, v, k):
        """components of the first k+1 cells can still get their right size"""
        last = k
        for i in (k, k - G.C, k - 1, k + 1 - G.C):
            if i < 0:
                continue
            n = v[i]
            comp, todo, room = {i}, [i], set()
            while todo:
                for j in bits(G.nb[todo.pop()]):
                    if j > last:
                        room.add(j)
                    elif v[j] == n and j not in comp:
                        comp.add(j)
                        todo.append(j)
            if len(comp) > n or len(comp) < n and not room:
                return False
            if len(comp) < n:
                wide, todo = set(comp), list(comp)
                while todo:
                    for j in bits(G.nb[todo.pop()]):
                        if j not in wide and (j > last or v[j] == n):
                            wide.add(j)
                            todo.append(j)
                if len(wide) < n:
                    return False
        return True

    def constraints(self, G, data):
        for k in range(G.N):
            yield ((k,), lambda v, k=k: self.part(G, v, k))

    def comps(self, G, v):
        seen, out = set(), []
        for i in range(G.N):
            if i in seen:
                continue
            comp, todo = {i}, [i]
            while todo:
                for j in bits(G.nb[todo.pop()]):
                    if v[j] == v[i] and j not in comp:
                        comp.add(j)
                        todo.append(j)
            seen |= comp
            out.append(comp)
        return out

    def final(self, G, data, vals):
        return all(len(c) == vals[min(c)] for c in self.comps(G, vals))

    def secret(self, rng, G, data):
        for _ in range(30):
            rooms = some_rooms(rng, G, [3, 4, 5, 7])
            v = [None] * G.N
            for m in rooms:
                for i in bits(m):
                    v[i] = pop(m)
            if self.final(G, data, v):
                return tuple(v)
        return None

    givens_p = 1

    def make(self, rng, oracle=None):
        case = super().make(rng, oracle)
        G = case.G
        case.done = set()
        if case.accept is not None:
            return case
        if rng.random() < 0.3 and case.expected:
            s = rng.choice(sorted(case.expected))
            for _ in range(rng.choice([1, 2, 3])):
                i = rng.randrange(G.N)
                if not G.nb[i]:
                    continue
                j = rng.choice(bits(G.nb[i]))
                if (min(i, j), max(i, j)) in case.done:
                    continue
                case.done.add((min(i, j), max(i, j)))
                lay = "p" if rng.random() < 0.5 else "a"
                diff = s[i] != s[j]
                (case.board.wall_between if diff else case.board.wallx_between)(G.cells[i], G.cells[j], lay)
                case.expected = {t for t in case.expected if (t[i] != t[j]) == diff}
        return case

    def clued(self, case, comp):
        return any(i in comp for i in case.givens)

    def skip(self, case, sol):
        """fast mode only promises regions without a clue of up to five cells"""
        if not self.fast or isinstance(sol, str):
            return False
        G = case.G
        if None in sol or not self.final(G, case.data, sol):
            return False
        return any(len(c) > 5 and not self.clued(case, c) for c in self.comps(G, sol))

    def make_done(self, case):
        case.expected = {s for s in case.expected if not self.skip(case, s)}

    def also(self, case, view, vals):
        G = case.G
        if None in vals:
            return vals
        for i in range(G.N):
            for j in bits(G.nb[i]):
                if j < i:
                    continue
                (r, c), (r2, c2) = G.cells[i], G.cells[j]
                wall = (r2, c2) in (view.tops if c == c2 else view.lefts)
                if wall != (vals[i] != vals[j]):
                    return "border between %s and %s: %s" % ((r, c), (r2, c2), wall)
        return vals

    def put_given(self, board, rng, r, c, v):
        if rng.random() < 0.5:
            v = str(v)
        board.num(r, c, v)


_make = Fillomino.make


def _fill_make(self, rng, oracle=None):
    case = _make(self, rng, oracle)
    if case.accept is None:
        self.make_done(case)
    return case


Fillomino.make = _fill_make


@register
class FillominoExact(Fillomino):
    name, solver, family = "fillomino/exact", "fillomino", "option"
    fast = False

    def params(self, rng, data):
        return {"fast_mode": False}


@register
class FillominoFast(Fillomino):
    name, solver, family = "fillomino/fast_mode", "fillomino", "option"


class OnePer(Roomy):
    """one number in each room: the size of the room"""
    empties = empty_marks = True
    hi = 4

    def groups(self, G, data):
        return []

    def dom(self, G, data, i):
        return [None, len(data["rc"][data["ix"][i]])]

    def constraints(self, G, data):
        for cells in data["rc"]:
            yield (cells, lambda v, cells=cells: sum(v[i] is not None for i in cells) == 1)
            yield (cells[:-1], lambda v, cells=cells: sum(v[i] is not None for i in cells[:-1]) <= 1)
        yield from self.more(G, data)

    wrong_given_p = 0.08


@register
class Hanare(OnePer):
    name = "hanare"

    def more(self, G, data):
        for ln in latin_groups(G):
            def ok(v, ln=ln):
                at = [k for k, i in enumerate(ln) if v[i] is not None]
                return all(abs(v[ln[a]] - v[ln[b]]) == b - a - 1 for a, b in zip(at, at[1:]))
            for e in range(2, len(ln) + 1):
                yield (ln[:e], lambda v, p=ln[:e], ok=ok: ok(v, p))

    def mark_empty(self, board, rng, r, c):
        board.surf(r, c, 2, "p" if rng.random() < 0.5 else "a")


@register
class Putteria(OnePer):
    name = "putteria"

    def more(self, G, data):
        for i in range(G.N):
            for j in neighbours(G, i):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] is None or v[j] is None)
        for ln in latin_groups(G):
            for a, b in itertools.combinations(ln, 2):
                yield ((a, b), lambda v, a=a, b=b: v[a] is None or v[a] != v[b])

    def mark_empty(self, board, rng, r, c):
        if rng.random() < 0.3:
            board.num(r, c, rng.choice("x-X"))
        else:
            super().mark_empty(board, rng, r, c)

    def view(self, case, view):
        G = case.G
        out = []
        for i in range(G.N):
            v = view.number.get((*G.cells[i], 0))
            v = None if v is None or str(v[0]) in "x-X" else int(v[0])
            if (v is None) != (G.cells[i] in view.shaded()) and not (v is None and (*G.cells[i], 0) in view.number):
                return "cell %s: number %s, shaded %s" % (G.cells[i], v, G.cells[i] in view.shaded())
            out.append(v)
        return tuple(out)


@register
class Kakuro(Num):
    name = "kakuro"
    givens_p = 0.4
    wrong_given_p = 0
    budget = 60000

    def size(self, rng):
        return wchoice(rng, [((3, 3), 3), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((2, 4), .5), ((4, 2), .5), ((5, 4), 1), ((4, 5), 1), ((5, 5), .5)])

    def setup(self, rng, G, data):
        holes = {i for i in range(G.N) if not G.cells[i][0] or not G.cells[i][1]}
        inner = [i for i in range(G.N) if i not in holes]
        holes |= set(rng.sample(inner, rng.choice([0, 0, 1, 2]) if len(inner) > 3 else 0))
        data["holes"] = frozenset(holes)
        data["runs"] = {}
        for i in holes:
            r, c = G.cells[i]
            across = []
            while c + len(across) + 1 < G.C and G.i(r, c + len(across) + 1) not in holes:
                across.append(G.i(r, c + len(across) + 1))
            down = []
            while r + len(down) + 1 < G.R and G.i(r + len(down) + 1, c) not in holes:
                down.append(G.i(r + len(down) + 1, c))
            if across:
                data["runs"][i, 1] = across
            if down:
                data["runs"][i, 2] = down

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["holes"]]

    def dom(self, G, data, i):
        return range(1, 10)

    def groups(self, G, data):
        return data["runs"].values()

    def clues(self, rng, G, s, data):
        p = rng.choice([0.6, 0.9, 1, 1])
        for k, run in data["runs"].items():
            if rng.random() < p:
                data["clues"][k] = sum(s[i] for i in run)
            elif rng.random() < 0.3:
                data["clues"][k] = "?"
        for i in self.cells(G, data):      # a cell on its own without a clue is left alone
            if all(len(run) == 1 and not isinstance(data["clues"].get(k), int) for k, run in data["runs"].items() if i in run):
                raise Retry("lone cell")

    def clue_constraints(self, G, data):
        for k, n in data["clues"].items():
            if isinstance(n, int):
                run = data["runs"][k]
                yield (run, lambda v, run=run, n=n: sum(v[i] for i in run) == n)

                def room(v, part, rest, n):
                    t = sum(v[i] for i in part)
                    free = sorted(set(range(1, 10)) - {v[i] for i in part})
                    return t + sum(free[:rest]) <= n <= t + sum(free[len(free) - rest:])
                for e in range(1, len(run)):
                    yield (run[:e], lambda v, p=run[:e], rest=len(run) - e, n=n, room=room: room(v, p, rest, n))

    def draw(self, board, rng, G, data):
        for i in data["holes"]:
            board.sym(*G.cells[i], "kakuro", rng.choice([1, 1, 1, 2, 3, 4]))
        for (i, k), n in data["clues"].items():
            board.sud(*G.cells[i], k, str(n) if rng.random() < 0.5 else n)


@register
class Kakuru(Num):
    name = "kakuru"
    givens_p = 0
    budget = 60000
    sizes = [((3, 3), 3), ((3, 4), 3), ((4, 3), 3), ((4, 4), 2), ((2, 4), 1), ((5, 3), 1), ((1, 4), .3)]

    def setup(self, rng, G, data):
        k = rng.choice([G.N // 3, G.N // 2, 2 * G.N // 3])
        data["holes"] = frozenset(rng.sample(range(G.N), max(1, k)))

    def around(self, G, data, i):
        r, c = G.cells[i]
        return [G.i(a, b) for a in (r - 1, r, r + 1) for b in (c - 1, c, c + 1)
                if G.ins(a, b) and (a, b) != (r, c) and G.i(a, b) not in data["holes"]]

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["holes"]]

    def dom(self, G, data, i):
        return range(1, 10)

    def constraints(self, G, data):
        for i in self.cells(G, data):
            for j in self.around(G, data, i):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] != v[j])

    def secret(self, rng, G, data):
        # which dark cells have a clue is part of the board, so it is drawn before the filling
        data["clued"] = [i for i in sorted(data["holes"]) if rng.random() < 0.85]
        return super().secret(rng, G, data)

    def groups(self, G, data):
        return [self.around(G, data, i) for i in data["clued"]]

    def clues(self, rng, G, s, data):
        for i in data["clued"]:
            data["clues"][i] = sum(s[j] for j in self.around(G, data, i)) if rng.random() < 0.93 else "?"

    def clue_constraints(self, G, data):
        for i, n in data["clues"].items():
            if isinstance(n, int):
                ar = self.around(G, data, i)
                yield (ar, lambda v, ar=ar, n=n: sum(v[j] for j in ar) == n)

                def room(v, part, rest, n):
                    t = sum(v[i] for i in part)
                    free = sorted(set(range(1, 10)) - {v[i] for i in part})
                    return t + sum(free[:rest]) <= n <= t + sum(free[len(free) - rest:])
                for e in range(1, len(ar)):
                    yield (ar[:e], lambda v, p=ar[:e], rest=len(ar) - e, n=n, room=room: room(v, p, rest, n))

    def draw(self, board, rng, G, data):
        for i in data["holes"]:
            board.surf(*G.cells[i], rng.choice([1, 3, 4, 4, 8]))
        for i, n in data["clues"].items():
            put_num(board, rng, *G.cells[i], n)

    def can_give(self, case, i, v):
        return False


@register
class Kazunori(Num):
    name = "kazunori"
    sizes = [((2, 4), 1), ((4, 2), 1), ((3, 4), 3), ((4, 3), 3), ((4, 4), 3), ((4, 5), 1), ((2, 2), .2), ((2, 3), .5), ((1, 4), .3), ((3, 2), .5)]

    def setup(self, rng, G, data):
        doms = random_dominoes(rng, G)
        if doms is None:
            raise Retry("no tiling")
        rooms = list(doms)
        for _ in range(rng.choice([1, 2, 3, 4]) if len(rooms) > 1 else 0):
            a = rng.choice(rooms)
            near = [b for b in rooms if b != a and G.grow(a) & b]
            if near and len(bits(a)) <= 4:
                b = rng.choice(near)
                rooms = [x for x in rooms if x not in (a, b)] + [a | b]
        data["rooms"] = rooms
        data["ix"] = grids.room_index(G, rooms)
        data["rc"] = room_cells(rooms)

    def dom(self, G, data, i):
        return range(1, len(data["rc"][data["ix"][i]]) // 2 + 1)

    def constraints(self, G, data):
        for cells in data["rc"]:
            for e in range(3, len(cells) + 1):
                yield (cells[:e], lambda v, p=cells[:e]: all(x is None or [v[i] for i in p].count(x) <= 2 for x in [v[i] for i in p]))
        for i in range(G.N):
            nb = [j for j in neighbours(G, i) if data["ix"][j] == data["ix"][i]]
            yield ([i] + nb, lambda v, i=i, nb=nb: sum(v[j] == v[i] for j in nb) == 1)
        for r in range(G.R - 1):
            for c in range(G.C - 1):
                q = [G.i(r, c), G.i(r, c + 1), G.i(r + 1, c), G.i(r + 1, c + 1)]
                yield (q, lambda v, q=q: len({v[i] for i in q}) > 1)

    def clues(self, rng, G, s, data):
        p = rng.choice([0.1, 0.3, 0.6])
        for i in range(G.N):
            for j in neighbours(G, i):
                if j > i and rng.random() < p:
                    data["clues"][i, j] = s[i] + s[j] if rng.random() < 0.93 else "?"

    def clue_constraints(self, G, data):
        for (i, j), n in data["clues"].items():
            if isinstance(n, int):
                yield ((i, j), lambda v, i=i, j=j, n=n: v[i] + v[j] == n)

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])
        for (i, j), n in data["clues"].items():
            put_num(board, rng, *G.cells[i], n, cat=3 if G.cells[i][0] == G.cells[j][0] else 2)


def random_dominoes(rng, G):
    if G.N % 2:
        return None
    for _ in range(40):
        left, out = G.full, []
        while left:
            i = bits(left)[0] if rng.random() < 0.6 else min(bits(left), key=lambda k: (pop(G.nb[k] & left), rng.random()))
            nb = bits(G.nb[i] & left)
            if not nb:
                break
            j = rng.choice(nb)
            out.append(1 << i | 1 << j)
            left &= ~out[-1]
        if not left:
            return out
    return None


class Between(Latin):
    """Latin squares with signs between cells; data["clues"] maps ordered pairs of neighbouring cells"""

    def pairs(self, G):
        return [(i, j) for i in range(G.N) for j in neighbours(G, i) if j > i]

    def side(self, G, i, j):
        return 3 if G.cells[i][0] == G.cells[j][0] else 2


@register
class Kropki(Between):
    name = "kropki"

    def colour(self, a, b):
        k = set()
        if abs(a - b) == 1:
            k.add(1)
        if a == 2 * b or b == 2 * a:
            k.add(2)
        return k

    def clues(self, rng, G, s, data):
        for i, j in self.pairs(G):
            k = self.colour(s[i], s[j])
            if k:
                data["clues"][i, j] = rng.choice(sorted(k))

    def perturb(self, rng, G, data):
        i, j = rng.choice(self.pairs(G) or [(0, 0)])
        if i != j:
            if (i, j) in data["clues"] and rng.random() < 0.5:
                del data["clues"][i, j]
            else:
                data["clues"][i, j] = rng.choice([1, 2])

    def clue_constraints(self, G, data):
        for i, j in self.pairs(G):
            x = data["clues"].get((i, j))
            yield ((i, j), lambda v, i=i, j=j, x=x: x in self.colour(v[i], v[j]) if x else not self.colour(v[i], v[j]))

    def draw(self, board, rng, G, data):
        for (i, j), x in data["clues"].items():
            board.sym(*G.cells[i], "circle_SS", x, cat=self.side(G, i, j))


@register
class Minarism(Between):
    name = "minarism"

    def clues(self, rng, G, s, data):
        p = rng.choice([0.1, 0.25, 0.5])
        for i, j in self.pairs(G):
            if rng.random() < p:
                data["clues"][i, j] = rng.choice(["<" if s[i] < s[j] else ">", abs(s[i] - s[j])])
                if rng.random() < 0.05:
                    data["clues"][i, j] = "?"

    def clue_constraints(self, G, data):
        for (i, j), x in data["clues"].items():
            if x == "<":
                yield ((i, j), lambda v, i=i, j=j: v[i] < v[j])
            elif x == ">":
                yield ((i, j), lambda v, i=i, j=j: v[i] > v[j])
            elif isinstance(x, int):
                yield ((i, j), lambda v, i=i, j=j, x=x: abs(v[i] - v[j]) == x)

    def draw(self, board, rng, G, data):
        for (i, j), x in data["clues"].items():
            cat = self.side(G, i, j)
            if x in ("<", ">"):
                board.sym(*G.cells[i], "inequality", {(3, "<"): 1, (2, "<"): 2, (3, ">"): 3, (2, ">"): 4}[cat, x], cat=cat)
            else:
                put_num(board, rng, *G.cells[i], x, cat=cat)


@register
class Skyscrapers(Latin):
    name = "skyscrapers"
    margin = (1, 1, 1, 1)

    def seen(self, v, ln):
        k = top = 0
        for i in ln:
            if v[i] > top:
                top, k = v[i], k + 1
        return k

    def clues(self, rng, G, s, data):
        p = rng.choice([0.2, 0.4, 0.8])
        for k, ln in EasyAsABC.sights(None, G).items():
            if rng.random() < p:
                data["clues"][k] = self.seen(s, ln)

    def clue_constraints(self, G, data):
        S = EasyAsABC.sights(None, G)
        for k, n in data["clues"].items():
            yield (S[k], lambda v, ln=S[k], n=n: self.seen(v, ln) == n)

    def draw(self, board, rng, G, data):
        for (r, c), n in data["clues"].items():
            put_num(board, rng, r, c, n)


@register
class Meander(Roomy):
    name = "meander"

    def setup(self, rng, G, data):
        # rooms that are paths
        left, rooms = G.full, []
        hi = rng.choice([3, 4, 5, 6])
        while left:
            i = rng.choice(bits(left))
            m = 1 << i
            while pop(m) < hi and rng.random() < 0.85:
                nb = bits(G.nb[i] & left & ~m)
                if not nb:
                    break
                i = rng.choice(nb)
                m |= 1 << i
            rooms.append(m)
            left &= ~m
        data["rooms"] = rooms
        data["ix"] = grids.room_index(G, rooms)
        data["rc"] = room_cells(rooms)

    def constraints(self, G, data):
        for i in range(G.N):
            r, c = G.cells[i]
            for a, b in ((r, c + 1), (r + 1, c - 1), (r + 1, c), (r + 1, c + 1)):
                if G.ins(a, b):
                    yield ((i, G.i(a, b)), lambda v, i=i, j=G.i(a, b): v[i] != v[j])
            nb = [j for j in neighbours(G, i) if data["ix"][j] == data["ix"][i]]
            n = len(data["rc"][data["ix"][i]])

            def ok(v, i=i, nb=nb, n=n):
                near = {v[j] for j in nb}
                return (v[i] == 1 or v[i] - 1 in near) and (v[i] == n or v[i] + 1 in near)
            yield ([i] + nb, ok)


@register
class Ripple(Roomy):
    name = "ripple"

    def constraints(self, G, data):
        for ln in latin_groups(G):
            for a, b in itertools.combinations(range(len(ln)), 2):
                yield ((ln[a], ln[b]), lambda v, i=ln[a], j=ln[b], d=b - a: v[i] != v[j] or d - 1 >= v[i])


@register
class Simplegako(Num):
    name = "simplegako"
    budget = 40000

    def dom(self, G, data, i):
        return range(1, G.R + G.C)

    def constraints(self, G, data):
        for r in range(G.R):
            row = [G.i(r, c) for c in range(G.C)]
            for e in range(1, G.C + 1):
                yield (row[:e], lambda v, p=row[:e]: all([v[i] for i in p].count(v[j]) <= v[j] for j in p))
            yield (row, lambda v, row=row: all(v[i] - [v[j] for j in row].count(v[i]) + 1 <= G.R for i in row))
            for c in range(G.C):
                i = row[c]
                for r2 in range(r, G.R):
                    col = [G.i(k, c) for k in range(r2 + 1)]

                    def ok(v, i=i, row=row, col=col, done=r2 == G.R - 1):
                        n = [v[j] for j in row].count(v[i]) + [v[j] for j in col].count(v[i]) - 1
                        return n == v[i] if done else n <= v[i]
                    yield (row + col, ok)


@register
class NumRope(Num):
    name = "numrope"
    sizes = [((3, 3), 3), ((3, 4), 2), ((4, 3), 2), ((4, 4), 2), ((2, 4), 1), ((1, 5), .3), ((5, 2), .5)]
    budget = 60000

    def setup(self, rng, G, data):
        data["holes"] = frozenset(rng.sample(range(G.N), rng.choice([0, 1, 2, 2, 3]) if G.N > 6 else rng.choice([0, 1])))
        left = [i for i in range(G.N) if i not in data["holes"]]
        ropes = []
        while left:
            i = rng.choice(left)
            left.remove(i)
            path = [i]
            while len(path) < 6 and rng.random() < 0.8:
                nb = [j for j in neighbours(G, i) if j in left]
                if not nb:
                    break
                i = rng.choice(nb)
                left.remove(i)
                path.append(i)
            ropes.append(path)
        data["ropes"] = ropes

    def cells(self, G, data):
        return [i for i in range(G.N) if i not in data["holes"]]

    def dom(self, G, data, i):
        return range(1, 10)

    def constraints(self, G, data):
        act = set(self.cells(G, data))
        for i in act:
            for j in local(G, i, act):
                if j > i:
                    yield ((i, j), lambda v, i=i, j=j: v[i] != v[j])
        for p in data["ropes"]:
            for k in range(len(p) - 1):
                yield ((p[k], p[k + 1]), lambda v, a=p[k], b=p[k + 1]: abs(v[a] - v[b]) == 1)
                if k:
                    yield (p[k - 1:k + 2], lambda v, a=p[k - 1], b=p[k], d=p[k + 1]: v[d] - v[b] == v[b] - v[a])

    def clues(self, rng, G, s, data):
        for i in data["holes"]:
            if rng.random() < 0.8:
                nb = [j for j in neighbours(G, i) if j not in data["holes"]]
                data["clues"][i] = sum(s[j] for j in nb)

    def perturb(self, rng, G, data):
        ks = sorted(data["clues"])
        if ks:
            k = rng.choice(ks)
            data["clues"][k] = max(0, data["clues"][k] + rng.choice([-1, 1]))

    def clue_constraints(self, G, data):
        for i, n in data["clues"].items():
            nb = [j for j in neighbours(G, i) if j not in data["holes"]]
            yield (nb, lambda v, nb=nb, n=n: sum(v[j] for j in nb) == n)

    def draw(self, board, rng, G, data):
        for i in data["holes"]:
            board.surf(*G.cells[i], rng.choice([1, 3, 4, 4, 8]))
        for i, n in data["clues"].items():
            put_num(board, rng, *G.cells[i], n)
        for p in data["ropes"]:
            for a, b in zip(p, p[1:]):
                board.line(G.cells[a], G.cells[b])


@register
class Sudoku(Latin):
    name = "sudoku"
    large_sizes = [((9, 9), 3), ((8, 8), 1), ((6, 6), 1)]
    ns = [(4, 6), (6, 2), (8, .7), (9, 1)]
    rules = ()
    cap = 60

    def setup(self, rng, G, data):
        names = ["diagonal", "untouch", "antiknight"]
        k = 0 if self.rules is not None else rng.choice([1, 1, 2, 3] if G.R == 4 else [1] if G.R == 6 else [1, 2, 2])
        data["rules"] = tuple(sorted(rng.sample(names, k)))

    def params(self, rng, data):
        return {x: True for x in data["rules"]}

    def groups(self, G, data):
        n = G.R
        h, w = {4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3)}[n]
        out = latin_groups(G)
        for r in range(0, n, h):
            for c in range(0, n, w):
                out.append([G.i(r + a, c + b) for a in range(h) for b in range(w)])
        if "diagonal" in data["rules"]:
            out.append([G.i(k, k) for k in range(n)])
            out.append([G.i(k, n - 1 - k) for k in range(n)])
        steps = []
        if "untouch" in data["rules"]:
            steps += [(1, 1), (1, -1)]
        if "antiknight" in data["rules"]:
            steps += [(1, 2), (1, -2), (2, 1), (2, -1)]
        for r in range(n):
            for c in range(n):
                for a, b in steps:
                    if G.ins(r + a, c + b):
                        out.append([G.i(r, c), G.i(r + a, c + b)])
        return out

    def make(self, rng, oracle=None):
        self.oracle = oracle
        return super().make(rng, oracle)

    def secret(self, rng, G, data):
        n = G.R
        if n <= 6:
            for k in range(4):      # now and then a square that breaks the extra rules: then there may be no answer at all
                plain = n == 4 and (k or rng.random() < 0.2)
                try:
                    for s in self.solutions(G, dict(data, rules=()) if plain else data, {}, rng, clues=False, budget=30000):
                        return s
                except Retry:
                    continue
            return None
        # large grids: a filling from the solver, checked here, then with its digits exchanged
        board = self.new_board(rng, n, n)
        case = Case(self, G, board, data, self.params(rng, data))
        case.kind = "seed"
        for s in self.oracle(case, 1):
            if isinstance(s, str) or None in s or not all(len({s[i] for i in g}) == len(g) for g in self.groups(G, data)):
                from nx.spec import Unsound
                raise Unsound(case, s)
            p = list(range(1, n + 1))
            rng.shuffle(p)
            return tuple(p[x - 1] for x in s)
        raise Retry("no filling with these rules")

    def list_all(self, G, data, givens, cap):
        if G.R > 6 and len(givens) < G.N - 22:
            return None
        return super().list_all(G, data, givens, cap)


@register
class SudokuVariants(Sudoku):
    name, solver, family = "sudoku/variants", "sudoku", "option"
    rules = None


class Derived(Num):
    """the numbers follow from which cells have one: all patterns are tried"""
    empties = empty_marks = True
    sizes = [((3, 3), 3), ((3, 4), 3), ((4, 3), 3), ((2, 5), 1), ((5, 2), 1), ((1, 5), .3), ((5, 1), .3), ((2, 2), .3), ((2, 6), .7), ((4, 4), .4)]
    cached = True
    skip_empty = True

    def __init__(self):
        super().__init__()
        self._cache = {}

    def dom(self, G, data, i):
        return range(0, G.R + G.C + 1)

    def numbers(self, G, data, m):
        """tuple of numbers for the pattern m, or None if not permitted"""
        raise NotImplementedError

    def everything(self, G, data):
        key = (G.R, G.C)
        if self.cached and key in self._cache:
            return self._cache[key]
        out = []
        for m in range(1 << G.N):
            v = self.numbers(G, data, m)
            if v is not None:
                out.append(v)
        if self.cached:
            self._cache[key] = out
        return out

    def secret(self, rng, G, data):
        data["all"] = self.everything(G, data)
        if not data["all"]:
            return None
        a = rng.choice(data["all"])
        b = rng.choice(data["all"])
        return a if sum(x is not None for x in a) > sum(x is not None for x in b) else b

    def clue_ok(self, G, data, v):
        return True

    large_p = 0.2

    def make_large(self, rng):
        """a few random numbers on a board too large to try all patterns: the answers must be permitted"""
        R, C = wchoice(rng, self.large_sizes)
        G = grid(R, C)
        data = {"clues": {}, "large": True}
        self.setup(rng, G, data)
        params = self.params(rng, data)
        givens = {}
        for i in rng.sample(range(G.N), rng.randint(0, 3)):
            givens[i] = rng.choice([None, None, 1, 2, 2, 3, 4])
        self.clues(rng, G, tuple(givens.get(i, rng.choice([None, 1])) for i in range(G.N)), data)
        board = self.new_board(rng, R, C)
        self.draw(board, rng, G, data)
        case = Case(self, G, board, data, params)
        case.kind, case.secret, case.givens = "large", None, givens
        for i, v in sorted(givens.items()):
            self.give(board, rng, i, G, v, data)

        def accept(t):
            m = sum(1 << i for i in range(G.N) if t[i] is not None)
            return all(t[i] == v for i, v in givens.items()) and self.numbers(G, data, m) == tuple(t) and self.clue_ok(G, data, t)

        case.accept = accept
        return case

    def list_all(self, G, data, givens, cap):
        out = {v for v in data["all"] if all(v[i] == x for i, x in givens.items()) and self.clue_ok(G, data, v)}
        out = {v for v in out if not (self.skip_empty and not any(x is not None for x in v))}
        return out if len(out) <= cap else None

    def skip(self, case, sol):
        return self.skip_empty and not isinstance(sol, str) and all(x is None for x in sol)

    def mark_empty(self, board, rng, r, c):
        board.sym(r, c, "ox_E", rng.choice([4, 7]), layer="p" if rng.random() < 0.5 else "a")

    def give(self, board, rng, i, G, v, data):
        if v is not None and rng.random() < 0.2:
            board.sym(*G.cells[i], "ox_E", 1)
        super().give(board, rng, i, G, v, data)


@register
class Sukoro(Derived):
    name = "sukoro"

    def numbers(self, G, data, m):
        if not G.connected(m):
            return None
        v = tuple(pop(G.nb[i] & m) if m >> i & 1 else None for i in range(G.N))
        for i in bits(m):
            for j in bits(G.nb[i] & m):
                if v[i] == v[j]:
                    return None
        return v


@register
class SukoroRoom(Derived):
    name = "sukororoom"
    cached = False
    sizes = [((3, 3), 3), ((3, 4), 3), ((4, 3), 3), ((2, 5), 1), ((5, 2), 1), ((1, 5), .3), ((2, 2), .3), ((4, 4), 3), ((4, 5), 1)]

    def setup(self, rng, G, data):
        data["rooms"] = some_rooms(rng, G, [2, 3, 4])
        data["rc"] = room_cells(data["rooms"])

    def numbers(self, G, data, m):
        v = tuple(pop(G.nb[i] & m) if m >> i & 1 else None for i in range(G.N))
        if not G.connected(m):
            return None
        for x, cells in zip(data["rooms"], data["rc"]):
            if m & x and (m & x != x or len({v[i] for i in cells}) < len(cells)):
                return None
        return v

    def everything(self, G, data):
        out = []
        rooms = data["rooms"]
        if len(rooms) > 13:
            raise Retry("rooms")
        for k in range(1 << len(rooms)):
            m = sum(rooms[j] for j in bits(k))
            if not G.connected(m):
                continue
            v = tuple(pop(G.nb[i] & m) if m >> i & 1 else None for i in range(G.N))
            if all(len({v[i] for i in data["rc"][j]}) == len(data["rc"][j]) for j in bits(k)):
                out.append(v)
        return out

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])


@register
class ViewSpec(Derived):
    name = "view"

    def numbers(self, G, data, m):
        if not G.connected(m):
            return None
        v = [None] * G.N
        for i in bits(m):
            r, c = G.cells[i]
            n = 0
            for a, b in NB4:
                x, y = r + a, c + b
                while G.ins(x, y) and not m >> G.i(x, y) & 1:
                    n += 1
                    x, y = x + a, y + b
            v[i] = n
        for i in bits(m):
            for j in bits(G.nb[i] & m):
                if v[i] == v[j]:
                    return None
        return tuple(v)


@register
class Nanro(Derived):
    name = "nanro"
    cached = False
    skip_empty = False
    sizes = [((3, 3), 3), ((3, 4), 3), ((4, 3), 3), ((2, 5), 1), ((5, 2), 1), ((1, 5), .3), ((2, 2), .3), ((2, 6), .5)]

    def setup(self, rng, G, data):
        data["rooms"] = some_rooms(rng, G, [2, 3, 4, 5])
        data["ix"] = grids.room_index(G, data["rooms"])

    def numbers(self, G, data, m):
        n = [pop(x & m) for x in data["rooms"]]
        if not all(n) or not G.connected(m):
            return None
        ix = data["ix"]
        for r in range(G.R - 1):
            for c in range(G.C - 1):
                q = G.bit(r, c) | G.bit(r, c + 1) | G.bit(r + 1, c) | G.bit(r + 1, c + 1)
                if m & q == q:
                    return None
        for i in bits(m):
            for j in bits(G.nb[i] & m):
                if ix[i] != ix[j] and n[ix[i]] == n[ix[j]]:
                    return None
        return tuple(n[ix[i]] if m >> i & 1 else None for i in range(G.N))

    def clues(self, rng, G, s, data):
        p = rng.choice([0, 0.3, 0.7])
        for k, x in enumerate(data["rooms"]):
            if rng.random() < p:
                data["clues"][k] = max(1, sum(s[i] is not None for i in bits(x)))
        data["at"] = {k: rng.choice(bits(data["rooms"][k])) for k in data["clues"]}

    def clue_ok(self, G, data, v):
        return all(sum(v[i] is not None for i in bits(data["rooms"][k])) == n for k, n in data["clues"].items())

    def draw(self, board, rng, G, data):
        draw_rooms(board, rng, G, data["rooms"])
        for k, n in data["clues"].items():
            board.sud(*G.cells[data["at"][k]], 0, str(n) if rng.random() < 0.5 else n)

    def mark_empty(self, board, rng, r, c):
        Num.mark_empty(self, board, rng, r, c)

    def give(self, board, rng, i, G, v, data):
        Num.give(self, board, rng, i, G, v, data)

    also = staticmethod(gray_view)
