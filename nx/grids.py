"""Bitmask models of small rectangular grids: the reference semantics of the puzzle rules are written on these."""

from functools import lru_cache

ORTH = [(-1, 0), (1, 0), (0, -1), (0, 1)]
EIGHT = ORTH + [(-1, -1), (-1, 1), (1, -1), (1, 1)]


class Grid:
    def __init__(self, R, C):
        self.R, self.C, self.N = R, C, R * C
        self.full = (1 << self.N) - 1
        self.cells = [(r, c) for r in range(R) for c in range(C)]
        self.first = sum(1 << (r * C) for r in range(R))
        self.last = self.first << (C - 1)
        self.nfirst, self.nlast = self.full & ~self.first, self.full & ~self.last
        self.nb = [sum(1 << self.i(r + a, c + b) for a, b in ORTH if self.ins(r + a, c + b)) for r, c in self.cells]
        self.nb8 = [sum(1 << self.i(r + a, c + b) for a, b in EIGHT if self.ins(r + a, c + b)) for r, c in self.cells]
        self.sq = [(3 << self.i(r, c)) | (3 << self.i(r + 1, c)) for r in range(R - 1) for c in range(C - 1)] if C > 1 else []
        self.rows = [((1 << C) - 1) << (r * C) for r in range(R)]
        self.cols = [self.first << c for c in range(C)]
        self.border = self.rows[0] | self.rows[-1] | self.cols[0] | self.cols[-1]

    def i(self, r, c):
        return r * self.C + c

    def bit(self, r, c):
        return 1 << (r * self.C + c)

    def ins(self, r, c):
        return 0 <= r < self.R and 0 <= c < self.C

    def grow(self, m):
        return (m | ((m & self.nlast) << 1) | ((m & self.nfirst) >> 1) | (m << self.C) | (m >> self.C)) & self.full

    def grow8(self, m):
        h = m | ((m & self.nlast) << 1) | ((m & self.nfirst) >> 1)
        return (h | (h << self.C) | (h >> self.C)) & self.full

    def flood(self, seed, mask):
        seed &= mask
        while True:
            n = self.grow(seed) & mask
            if n == seed:
                return seed
            seed = n

    def flood8(self, seed, mask):
        seed &= mask
        while True:
            n = self.grow8(seed) & mask
            if n == seed:
                return seed
            seed = n

    def connected(self, m):
        return m == 0 or self.flood(m & -m, m) == m

    def connected8(self, m):
        return m == 0 or self.flood8(m & -m, m) == m

    def comps(self, m):
        out = []
        while m:
            k = self.flood(m & -m, m)
            out.append(k)
            m &= ~k
        return out

    def comps8(self, m):
        out = []
        while m:
            k = self.flood8(m & -m, m)
            out.append(k)
            m &= ~k
        return out

    def comp_at(self, i, m):
        return self.flood(1 << i, m)

    def no2x2(self, m):
        for s in self.sq:
            if m & s == s:
                return False
        return True

    def adjacent(self, m):
        """two orthogonally adjacent cells in m?"""
        return bool(((m & self.nlast) << 1) & m or (m << self.C) & m)

    def reaches_border(self, m):
        return self.flood(m & self.border, m) == m

    def list(self, m):
        return [self.cells[i] for i in bits(m)]

    def mask(self, cells):
        return sum(1 << (r * self.C + c) for r, c in cells)

    def is_rect(self, m):
        cs = self.list(m)
        r0, r1 = min(r for r, _ in cs), max(r for r, _ in cs)
        c0, c1 = min(c for _, c in cs), max(c for _, c in cs)
        return (r1 - r0 + 1) * (c1 - c0 + 1) == len(cs)

    def dims(self, m):
        cs = self.list(m)
        return (max(r for r, _ in cs) - min(r for r, _ in cs) + 1, max(c for _, c in cs) - min(c for _, c in cs) + 1)

    def ray(self, r, c, d):
        """cells strictly beyond (r, c) in direction d = (dr, dc), as list of indices"""
        out = []
        r, c = r + d[0], c + d[1]
        while self.ins(r, c):
            out.append(r * self.C + c)
            r, c = r + d[0], c + d[1]
        return out

    def sees(self, i, m):
        """number of cells of m seen from i in the four directions (not counting i)"""
        r, c = self.cells[i]
        n = 0
        for d in ORTH:
            for j in self.ray(r, c, d):
                if not m >> j & 1:
                    break
                n += 1
        return n


@lru_cache(None)
def grid(R, C):
    return Grid(R, C)


def bits(m):
    out = []
    while m:
        b = m & -m
        out.append(b.bit_length() - 1)
        m ^= b
    return out


def pop(m):
    return bin(m).count("1")


def runs(seq):
    """lengths of the maximal runs of true values"""
    out, n = [], 0
    for x in seq:
        if x:
            n += 1
        elif n:
            out.append(n)
            n = 0
    if n:
        out.append(n)
    return out


# ---- shapes -------------------------------------------------------------------------------------------------

def normal(cells):
    r0, c0 = min(r for r, _ in cells), min(c for _, c in cells)
    return tuple(sorted((r - r0, c - c0) for r, c in cells))


def orientations(cells, flip=True):
    out = set()
    cur = list(cells)
    for _ in range(2 if flip else 1):
        for _ in range(4):
            cur = [(c, -r) for r, c in cur]
            out.add(normal(cur))
        cur = [(r, -c) for r, c in cur]
    return out


@lru_cache(None)
def canon_shape(cells):
    return min(orientations(cells))


def canon(cells):
    return canon_shape(normal(cells))


@lru_cache(None)
def polyominoes(n):
    """all free polyominoes of n cells, as canonical shapes"""
    if n == 1:
        return frozenset([((0, 0),)])
    out = set()
    for s in polyominoes(n - 1):
        for r, c in s:
            for a, b in ORTH:
                x = (r + a, c + b)
                if x not in s:
                    out.add(canon(s + (x,)))
    return frozenset(out)


_NAMES = {
    4: {"T": ["###", ".#."], "O": ["##", "##"], "I": ["####"], "L": ["###", "#.."], "S": ["##.", ".##"]},
    5: {"F": [".##", "##.", ".#."], "I": ["#####"], "L": ["####", "#..."], "N": ["##..", ".###"],
        "P": ["##", "##", "#."], "T": ["###", ".#.", ".#."], "U": ["#.#", "###"], "V": ["#..", "#..", "###"],
        "W": ["#..", "##.", ".##"], "X": [".#.", "###", ".#."], "Y": ["####", ".#.."], "Z": ["##.", ".#.", ".##"]},
}


@lru_cache(None)
def named_shapes(n):
    """letter -> canonical free polyomino, by the usual names"""
    return {k: canon([(r, c) for r, row in enumerate(v) for c, ch in enumerate(row) if ch == "#"])
            for k, v in _NAMES[n].items()}


# ---- regions ------------------------------------------------------------------------------------------------

def random_rooms(rng, G, lo=1, hi=None, target=None):
    """random partition of the grid into orthogonally connected rooms; list of masks"""
    n = target or max(1, min(G.N, rng.choice([2, 3, 3, 4, 4, 5, 6])))
    hi = hi or G.N
    own = {}
    for k, i in enumerate(rng.sample(range(G.N), min(n, G.N))):
        own[i] = k
    masks = [0] * (max(own.values()) + 1)
    for i, k in own.items():
        masks[k] |= 1 << i
    while True:
        un = G.full
        for m in masks:
            un &= ~m
        if not un:
            break
        opts = [(k, i) for k, m in enumerate(masks) for i in bits(G.grow(m) & un)]
        k, i = rng.choice(opts)
        masks[k] |= 1 << i
    return masks


def room_index(G, rooms):
    out = [0] * G.N
    for k, m in enumerate(rooms):
        for i in bits(m):
            out[i] = k
    return out


def borders_of(G, rooms):
    """pairs of adjacent cells lying in different rooms"""
    ix = room_index(G, rooms)
    out = []
    for r, c in G.cells:
        for a, b in ((0, 1), (1, 0)):
            if G.ins(r + a, c + b) and ix[G.i(r, c)] != ix[G.i(r + a, c + b)]:
                out.append(((r, c), (r + a, c + b)))
    return out


def partitions(G, region_ok, cells=None, maxsize=None, growing_ok=None):
    """all partitions of `cells` into connected regions that satisfy region_ok(mask); yields lists of masks.

    growing_ok(mask), if given, must be true of every connected subset that can still grow into a legal region.
    """
    full = G.full if cells is None else cells
    maxsize = maxsize or G.N

    def subsets(seed, avail):
        """connected subsets of avail containing seed, each once"""
        def rec(cur, frontier, banned):
            yield cur
            if pop(cur) >= maxsize:
                return
            f = frontier
            b = banned
            while f:
                x = f & -f
                f ^= x
                nc = cur | x
                if growing_ok is None or growing_ok(nc):
                    yield from rec(nc, (f | (G.nb[x.bit_length() - 1] & avail & ~nc & ~b & ~frontier)), b | x)
                b |= x
        i = seed.bit_length() - 1
        yield from rec(seed, G.nb[i] & avail & ~seed, seed)

    def go(left):
        if not left:
            yield []
            return
        seed = left & -left
        for m in subsets(seed, left):
            if region_ok(m):
                for rest in go(left & ~m):
                    yield [m] + rest

    yield from go(full)


# ---- loops --------------------------------------------------------------------------------------------------

class Lines:
    """edges joining centres of adjacent cells of a grid"""

    def __init__(self, G):
        self.G = G
        self.edges = []
        self.at = [[] for _ in range(G.N)]
        self.dir = {}
        for r, c in G.cells:
            for d, (a, b) in (("r", (0, 1)), ("d", (1, 0))):
                if G.ins(r + a, c + b):
                    k = len(self.edges)
                    i, j = G.i(r, c), G.i(r + a, c + b)
                    self.edges.append((i, j))
                    self.at[i].append(k)
                    self.at[j].append(k)
                    self.dir[i, d] = k
                    self.dir[j, "l" if d == "r" else "u"] = k
        self.inc = [sum(1 << k for k in ks) for ks in self.at]
        self.M = len(self.edges)
        self.faces = []
        for r in range(G.R - 1):
            for c in range(G.C - 1):
                a = G.i(r, c)
                self.faces.append((1 << self.dir[a, "r"]) | (1 << self.dir[a, "d"]) |
                                  (1 << self.dir[a + G.C, "r"]) | (1 << self.dir[a + 1, "d"]))

    def dirs(self, i, m):
        """set of directions used at cell i by edge set m, as a string in order u d l r"""
        return "".join(d for d in "udlr" if (i, d) in self.dir and m >> self.dir[i, d] & 1)

    def deg(self, i, m):
        return pop(self.inc[i] & m)

    def cells_of(self, m):
        out = 0
        for k in bits(m):
            i, j = self.edges[k]
            out |= (1 << i) | (1 << j)
        return out

    def even(self):
        """all edge sets in which every cell has even degree"""
        m = 0
        yield m
        for n in range(1, 1 << len(self.faces)):
            # gray code: flip the face of the lowest set bit
            m ^= self.faces[(n & -n).bit_length() - 1]
            yield m

    def two_regular(self, m):
        for inc in self.inc:
            if pop(inc & m) not in (0, 2):
                return False
        return True

    def components(self, m):
        out = []
        while m:
            k = m & -m
            while True:
                n = k
                for e in bits(k):
                    i, j = self.edges[e]
                    n |= (self.inc[i] | self.inc[j]) & m
                if n == k:
                    break
                k = n
            out.append(k)
            m &= ~k
        return out

    def is_single_loop(self, m):
        if not m or not self.two_regular(m):
            return False
        # walk
        e = (m & -m).bit_length() - 1
        start, cur = self.edges[e]
        n = 1
        while cur != start:
            rest = self.inc[cur] & m & ~(1 << e)
            e = rest.bit_length() - 1
            i, j = self.edges[e]
            cur = j if cur == i else i
            n += 1
        return n == pop(m)


@lru_cache(None)
def lines(R, C):
    return Lines(grid(R, C))


@lru_cache(None)
def single_loops(R, C):
    L = lines(R, C)
    out = []
    # insides of single loops on cell centres: depth-first over simple cycles starting from the smallest cell
    for m in _cycles(L):
        out.append(m)
    return out


def _cycles(L):
    """every simple cycle once"""
    G = L.G
    adj = [[] for _ in range(G.N)]
    for k, (i, j) in enumerate(L.edges):
        adj[i].append((j, k))
        adj[j].append((i, k))
    res = []

    def walk(start, cur, seen, m, first):
        for j, k in adj[cur]:
            if j == start and pop(m) >= 3 and not m >> k & 1:
                # orientation: report once, when the first step went to the smaller second neighbour
                if first < cur:
                    res.append(m | 1 << k)
            elif j > start and not seen >> j & 1:
                walk(start, j, seen | 1 << j, m | 1 << k, first)

    for s in range(G.N):
        for j, k in adj[s]:
            if j > s:
                walk(s, j, 1 << s | 1 << j, 1 << k, j)
    return res


@lru_cache(None)
def two_regular_sets(R, C):
    L = lines(R, C)
    return [m for m in L.even() if L.two_regular(m)]


class LoopDP:
    """All loops on the cells of `L` with given conditions, by a row-major frontier sweep.

    must / ban: cells that must / must not be visited; on / off: edges that must / must not be used.  With `multi`
    any number of disjoint loops (also none) is allowed, otherwise exactly one loop.
    """

    def __init__(self, L, must=0, ban=0, on=0, off=0, multi=False):
        self.L, self.multi = L, multi
        G = L.G
        C, N = G.C, G.N
        start = (tuple([0] * (C + 1)), False)
        layers = [{start: None}]
        self.next = []
        for i in range(N):
            c = i % C
            rt, dn = L.dir.get((i, "r")), L.dir.get((i, "d"))
            can_r, can_d = rt is not None and not off >> rt & 1, dn is not None and not off >> dn & 1
            req_r, req_d = rt is not None and on >> rt & 1, dn is not None and on >> dn & 1
            mst, bnd = must >> i & 1, ban >> i & 1
            rb, db = (1 << rt if rt is not None else 0), (1 << dn if dn is not None else 0)
            trans, out = {}, {}
            for st in layers[-1]:
                p, done = st
                a, b = p[c], p[c + 1]
                opts = []      # (new plugs, done, edges used)

                def put(d, r, base, dn_=done):
                    if (d and not can_d) or (r and not can_r) or (req_d and not d) or (req_r and not r):
                        return
                    q = list(base)
                    q[c], q[c + 1] = d, r
                    if c == C - 1:
                        q = [0] + q[:-1]
                    opts.append(((tuple(q), dn_), (db if d else 0) | (rb if r else 0)))

                if not a and not b:
                    if not mst:
                        put(0, 0, p)
                    if not bnd and not done:
                        put(1, 2, p)
                elif not bnd:
                    if a and b:
                        if multi:
                            put(0, 0, p)
                        elif a == 1 and b == 2:
                            if not any(x for k, x in enumerate(p) if k not in (c, c + 1)):
                                put(0, 0, p, True)
                        elif a == 2 and b == 1:
                            put(0, 0, p)
                        else:
                            q = list(p)
                            if a == 1:
                                n, k = 1, c + 1
                                while n:
                                    k += 1
                                    n += (q[k] == 1) - (q[k] == 2)
                                q[k] = 1
                            else:
                                n, k = 1, c
                                while n:
                                    k -= 1
                                    n += (q[k] == 2) - (q[k] == 1)
                                q[k] = 2
                            put(0, 0, q)
                    else:
                        x = (a or b) if not multi else 1
                        put(x, 0, p)
                        put(0, x, p)
                if multi:
                    opts = [((tuple(1 if x else 0 for x in q), d), e) for (q, d), e in opts]
                trans[st] = opts
                for s, _ in opts:
                    out[s] = None
            self.next.append(trans)
            layers.append(out)
        cnt = {s: 1 for s in layers[-1] if not any(s[0]) and (multi or s[1])}
        self.cnt = [cnt]
        for i in range(N - 1, -1, -1):
            nc = {}
            for st, opts in self.next[i].items():
                k = sum(cnt.get(s, 0) for s, _ in opts)
                if k:
                    nc[st] = k
            cnt = nc
            self.cnt.append(cnt)
        self.cnt.reverse()
        self.start = start
        self.count = self.cnt[0].get(start, 0)

    def sample(self, rng):
        st, m = self.start, 0
        for i in range(self.L.G.N):
            opts = [(s, e, self.cnt[i + 1].get(s, 0)) for s, e in self.next[i][st]]
            x = rng.randrange(sum(k for _, _, k in opts))
            for s, e, k in opts:
                if x < k:
                    break
                x -= k
            st, m = s, m | e
        return m

    def all(self):
        cur = [(self.start, 0)] if self.count else []
        for i in range(self.L.G.N):
            c = self.cnt[i + 1]
            nx = []
            tr = self.next[i]
            for st, m in cur:
                for s, e in tr[st]:
                    if s in c:
                        nx.append((s, m | e))
            cur = nx
        return [m for _, m in cur]


class Walk:
    """what one or more loops (edge set m on L) look like"""

    def __init__(self, L, m):
        self.L, self.m = L, m
        self._cells = self._in = None

    @property
    def cells(self):
        if self._cells is None:
            self._cells = self.L.cells_of(self.m)
        return self._cells

    def on(self, i):
        return bool(self.L.inc[i] & self.m)

    def dirs(self, i):
        return self.L.dirs(i, self.m)

    def straight(self, i):
        return self.dirs(i) in ("ud", "lr")

    def turns(self, i):
        d = self.dirs(i)
        return len(d) == 2 and d not in ("ud", "lr")

    def has(self, i, d):
        k = self.L.dir.get((i, d))
        return k is not None and self.m >> k & 1

    def arm(self, i, d):
        """number of consecutive edges leaving i straight in direction d"""
        G = self.L.G
        st = {"u": -G.C, "d": G.C, "l": -1, "r": 1}[d]
        n = 0
        while self.has(i, d):
            n += 1
            i += st
        return n

    def nbrs(self, i):
        out = []
        for k in bits(self.L.inc[i] & self.m):
            a, b = self.L.edges[k]
            out.append(b if a == i else a)
        return out

    def order(self, start=None, second=None):
        """cells along the (single) loop"""
        if start is None:
            start = (self.cells & -self.cells).bit_length() - 1
        prev, cur = start, second if second is not None else self.nbrs(start)[0]
        out = [start]
        while cur != start:
            out.append(cur)
            a, b = self.nbrs(cur)
            prev, cur = cur, (b if a == prev else a)
        return out

    def inside(self):
        """unvisited cells enclosed by the loop"""
        if self._in is None:
            G, res = self.L.G, 0
            for c in range(G.C):
                par = 0
                for r in range(G.R):
                    i = G.i(r, c)
                    if par and not self.on(i):
                        res |= 1 << i
                    if self.has(i, "r"):
                        par ^= 1
            self._in = res
        return self._in

    def crossings(self, room):
        """edges with exactly one end in the room"""
        n = 0
        for k in bits(self.m):
            a, b = self.L.edges[k]
            n += (room >> a & 1) != (room >> b & 1)
        return n


@lru_cache(64)
def all_loops(R, C, multi=False):
    return LoopDP(lines(R, C), multi=multi).all()
