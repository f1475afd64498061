"""C14: boards that cannot be interpreted are refused with a reason.

Well-formed boards of every type (drawn at random, and the shipped ones) must be accepted.  Then one thing on the board is spoilt in
a way the type cannot interpret: a clue moved to a corner or border or into small print, an arrow clue without its arrow, a letter
for a number, a symbol of another kind, two clues in a room, the clues left out, a size that cannot work, an option that is no
number.  Which kinds of spoiling a type cannot interpret is listed in nx/refusals.json.  Every such board must be refused with a
message that says what is wrong; a list of answers, an internal error, or a message of the programming language is a violation.
"""

import json
import os
import random
import re

from nx import engine, facts
from nx.check import Check
from nx.checks.c08 import KINDS
from nx.checks.exact import attention
from nx.penpa import Board, View, parse
from nx.specs import load_all

TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "refusals.json")
# what the language says when something was not understood by chance; no explanation for a person at a puzzle
RAW = re.compile(r"invalid literal|not enough values|too many values|could not convert|unpack|is not iterable|object|substring not found|"
                 r"codec|list index|unconverted|NoneType|^\W*\d*\W*$")


def outcome(solver, url, params, tl=3):
    """(answered | refused | error, message)"""
    try:
        engine.solve_urls(solver, url, params, 1, tl)
    except engine.Inconclusive:
        return "answered", ""
    except ValueError as e:
        return "refused", str(e)
    except Exception as e:
        return "error", "%s: %s" % (type(e).__name__, e)
    return "answered", ""


# --- spoiling a board --------------------------------------------------------------------------------------------------------

def texts(b):
    return [(n, k) for n in "pa" for k in sorted(b.layers[n]["number"])]


def smalls(b):
    return [(n, k) for n in "pa" for k in sorted(b.layers[n]["sudoku"])]


def symbols(b):
    return [(n, k) for n in "pa" for k in sorted(b.layers[n]["symbol"])]


def inside(b, k):
    r, c, _ = b.unidx(int(k))
    return 0 <= r < b.rows and 0 <= c < b.cols


def taken(b):
    out = set()
    for n, k in texts(b) + symbols(b):
        out.add(b.unidx(int(k))[:2])
    for n, k in smalls(b):
        out.add(b.unidx(int(k) // 4)[:2])
    for n in "pa":
        out |= {b.unidx(int(k))[:2] for k in b.layers[n]["surface"]}
    return out


def free_cell(rng, b):
    t = taken(b)
    cs = [(r, c) for r in range(b.rows) for c in range(b.cols) if (r, c) not in t]
    return rng.choice(cs) if cs else None


def move_text(cat):
    def f(rng, b, s):
        t = [x for x in texts(b) if b.unidx(int(x[1]))[2] != cat]
        if not t:
            return None
        n, k = rng.choice(t)
        r, c, _ = b.unidx(int(k))
        v = b.layers[n]["number"].pop(k)
        for m in "pa":
            if "%d" % b.idx(r, c, cat) in b.layers[m]["number"]:
                return None
        b.layers[n]["number"]["%d" % b.idx(r, c, cat)] = v
        return b
    return f


def add_text(cat, sub, val):
    def f(rng, b, s):
        r, c = rng.randrange(b.rows), rng.randrange(b.cols)
        if not cat:
            x = free_cell(rng, b)
            if x is None:
                return None
            r, c = x
        if any("%d" % b.idx(r, c, cat) in b.layers[n]["number"] for n in "pa"):
            return None
        b.num(r, c, val, sub, cat, layer=rng.choice("ppa"))
        return b
    return f


def restyle(sub, only=None, val=None):
    def f(rng, b, s):
        t = [(n, k) for n, k in texts(b) if b.layers[n]["number"][k][2] != sub and (only is None or b.layers[n]["number"][k][2] == only)
             and str(b.layers[n]["number"][k][0]).strip()]
        if not t:
            return None
        n, k = rng.choice(t)
        v = b.layers[n]["number"][k]
        x = str(v[0]) if val is None else val(str(v[0]))
        b.layers[n]["number"][k] = [x, v[1], sub]
        return b
    return f


def reword(x, only=None):
    def f(rng, b, s):
        t = [(n, k) for n, k in texts(b) if b.layers[n]["number"][k][2] != "4"]
        if not t:
            return None
        n, k = rng.choice(t)
        v = b.layers[n]["number"][k]
        b.layers[n]["number"][k] = [x + ("_2" if v[2] == "2" else ""), v[1], v[2]]
        return b
    return f


def shrink(slot):
    def f(rng, b, s):
        t = [x for x in texts(b) if b.unidx(int(x[1]))[2] == 0 and str(b.layers[x[0]]["number"][x[1]][0]).strip()]
        if not t:
            return None
        n, k = rng.choice(t)
        r, c, _ = b.unidx(int(k))
        v = b.layers[n]["number"].pop(k)
        if any("%d" % (b.idx(r, c, 1 + slot // 4) * 4 + slot % 4) in b.layers[m]["sudoku"] for m in "pa"):
            return None
        b.sud(r, c, slot, str(v[0]).split("_")[0], layer=n)
        return b
    return f


def slide(slot):
    def f(rng, b, s):
        t = smalls(b)
        if not t:
            return None
        n, k = rng.choice(t)
        i, _ = divmod(int(k), 4)
        r, c, _ = b.unidx(i)
        if any("%d" % (b.idx(r, c, 1 + slot // 4) * 4 + slot % 4) in b.layers[m]["sudoku"] for m in "pa"):
            return None
        b.sud(r, c, slot, b.layers[n]["sudoku"].pop(k)[0], layer=n)
        return b
    return f


def add_small(slot):
    def f(rng, b, s):
        x = free_cell(rng, b)
        if x is None:
            return None
        b.sud(x[0], x[1], slot, rng.choice([1, "1", "2"]), layer=rng.choice("ppa"))
        return b
    return f


def enlarge(rng, b, s):
    t = smalls(b)
    if not t:
        return None
    n, k = rng.choice(t)
    r, c, _ = b.unidx(int(k) // 4)
    if any("%d" % b.idx(r, c) in b.layers[m]["number"] for m in "pa"):
        return None
    b.num(r, c, b.layers[n]["sudoku"].pop(k)[0], layer=n)
    return b


def small_letter(rng, b, s):
    t = smalls(b)
    if not t:
        return None
    n, k = rng.choice(t)
    b.layers[n]["sudoku"][k][0] = "Q"
    return b


def move_symbol(cat):
    def f(rng, b, s):
        t = [x for x in symbols(b) if b.unidx(int(x[1]))[2] != cat and inside(b, x[1])]
        if not t:
            return None
        n, k = rng.choice(t)
        r, c, _ = b.unidx(int(k))
        v = b.layers[n]["symbol"].pop(k)
        if any("%d" % b.idx(r, c, cat) in b.layers[m]["symbol"] for m in "pa"):
            return None
        b.layers[n]["symbol"]["%d" % b.idx(r, c, cat)] = v
        return b
    return f


def other_symbol(shape, style):
    def f(rng, b, s):
        t = [x for x in symbols(b) if b.layers[x[0]]["symbol"][x[1]][1] != shape and inside(b, x[1])]
        if not t:
            return None
        n, k = rng.choice(t)
        v = b.layers[n]["symbol"][k]
        b.layers[n]["symbol"][k] = [v[0] if style is None else style, shape, v[2]]
        return b
    return f


def add_symbol(shape, style, cat=0):
    def f(rng, b, s):
        x = free_cell(rng, b)
        if x is None:
            return None
        b.sym(x[0], x[1], shape, style, cat)
        return b
    return f


def add_surface(code):
    def f(rng, b, s):
        x = free_cell(rng, b)
        if x is None:
            return None
        b.surf(x[0], x[1], code, layer=rng.choice("pa"))
        return b
    return f


def add_cross(rng, b, s):
    r, c = rng.randrange(b.rows), rng.randrange(b.cols)
    if c + 1 < b.cols and not View(b).halves:
        b.linex((r, c), (r, c + 1))
        return b


def without(*kinds):
    def f(rng, b, s):
        if not any(b.layers[n][k] for n in "pa" for k in kinds):
            return None
        for n in "pa":
            for k in kinds:
                b.layers[n][k] = {}
        return b
    return f


def without_one(kind, word=None):
    def f(rng, b, s):
        t = [(n, k) for n in "pa" for k in sorted(b.layers[n][kind]) if word is None or b.layers[n][kind][k][0] == word]
        if not t or word is None and len(t) < 2:
            return None
        n, k = rng.choice(t)
        x = b.layers[n][kind].pop(k)[0]
        if word is not None and any(b.layers[m][kind][k][0] == word for m in "pa" for k in b.layers[m][kind]):
            return None
        return b
    return f


def rooms(b):
    v = View(b)
    left = {(r, c) for r in range(b.rows) for c in range(b.cols)}
    out = []
    while left:
        st = [left.pop()]
        room = set(st)
        while st:
            r, c = st.pop()
            for r2, c2, wall in ((r - 1, c, (r, c) in v.tops), (r + 1, c, (r + 1, c) in v.tops), (r, c - 1, (r, c) in v.lefts),
                                 (r, c + 1, (r, c + 1) in v.lefts)):
                if not wall and (r2, c2) in left:
                    left.discard((r2, c2))
                    room.add((r2, c2))
                    st.append((r2, c2))
        out.append(room)
    return out


def second_clue(kind):
    def f(rng, b, s):
        if not any(b.layers[n]["edge"] for n in "pa"):
            return None
        have = {b.unidx(int(k) // (times if kind == "sudoku" else 1)): (n, k) for n in "pa" for k in b.layers[n][kind]}
        have = {x[:2]: y for x, y in have.items()}
        for room in sorted((sorted(x) for x in rooms(b)), key=lambda x: rng.random()):
            mine = [x for x in room if x in have]
            rest = [x for x in room if x not in have and x not in taken(b)]
            if mine and rest:
                n, k = have[mine[0]]
                r, c = rng.choice(rest)
                if kind == "sudoku":
                    b.layers[n][kind]["%d" % (b.idx(r, c, 1) * 4 + int(k) % 4)] = list(b.layers[n][kind][k])
                else:
                    b.layers[n][kind]["%d" % b.idx(r, c)] = list(b.layers[n][kind][k])
                return b
    return f


def blank(sizes):
    def f(rng, b, s):
        R, C = rng.choice(sizes)
        new = Board(R, C, b.margin, b.shape)
        if rng.random() < 0.5:                  # with the clues that still fit
            for n in "pa":
                for kind in ("number", "symbol", "surface"):
                    for k, v in b.layers[n][kind].items():
                        r, c, cat = b.unidx(int(k))
                        if r < R and c < C:
                            new.layers[n][kind]["%d" % new.idx(r, c, cat)] = v
        return new
    return f


def blank_not(d):
    """a size that cannot be divided into pieces of d cells (holes and the like left out)"""
    def f(rng, b, s):
        R, C = rng.choice([(r, c) for r in range(2, 8) for c in range(2, 8) if r * c % d])
        return Board(R, C, b.margin, b.shape)
    return f


def join_rooms(rng, b, s):
    """the wall between two rooms taken away"""
    v = View(b)
    rs = rooms(b)
    if len(rs) < 2:
        return None
    where = {x: i for i, room in enumerate(rs) for x in room}
    pairs = sorted({tuple(sorted((where[r, c], where[r2, c2]))) for r, c in where for r2, c2 in ((r + 1, c), (r, c + 1))
                    if (r2, c2) in where and where[r, c] != where[r2, c2]})
    if not pairs:
        return None
    i, j = rng.choice(pairs)
    drop = set()
    for r, c in where:
        for r2, c2 in ((r + 1, c), (r, c + 1)):
            if (r2, c2) in where and {where[r, c], where[r2, c2]} == {i, j}:
                drop.add("%d,%d" % ((b.idx(r2 - 1, c2 - 1, 1), b.idx(r2 - 1, c2, 1)) if r2 > r else (b.idx(r2 - 1, c2 - 1, 1), b.idx(r2, c2 - 1, 1))))
    for n in "pa":
        for k in drop:
            b.layers[n]["edge"].pop(k, None)
    return b if len(rooms(b)) == len(rs) - 1 else None


def same_symbol(style):
    """another form of a symbol that is there"""
    def f(rng, b, s):
        t = [x for x in symbols(b) if isinstance(b.layers[x[0]]["symbol"][x[1]][0], int) and inside(b, x[1])]
        t = [x for x in t if b.layers[x[0]]["symbol"][x[1]][0] != style]
        if not t:
            return None
        n, k = rng.choice(t)
        v = b.layers[n]["symbol"][k]
        b.layers[n]["symbol"][k] = [style, v[1], v[2]]
        return b
    return f


def same_text(times):
    """a text that is there written once (or twice) more"""
    def f(rng, b, s):
        t = [x for x in texts(b) if b.unidx(int(x[1]))[2] == 0 and inside(b, x[1])]
        if not t:
            return None
        n, k = rng.choice(t)
        for _ in range(times):
            x = free_cell(rng, b)
            if x is None:
                return None
            b.layers[n]["number"]["%d" % b.idx(*x)] = list(b.layers[n]["number"][k])
        return b
    return f


def ship_off(rng, b, s):
    """a part of a ship whose rest would lie off the board"""
    R, C = b.rows, b.cols
    t = taken(b)
    r, c = rng.randrange(R), rng.randrange(C)
    st = rng.choice([2, 3, 4, 5, 6])
    r, c = {2: (rng.choice([0, R - 1]), rng.choice([0, C - 1])), 3: (r, C - 1), 4: (R - 1, c), 5: (r, 0), 6: (0, c)}[st]
    if (r, c) in t:
        return None
    b.sym(r, c, next((b.layers[n]["symbol"][k][1] for n, k in symbols(b) if "battleship" in b.layers[n]["symbol"][k][1]), "battleship_B"), st)
    return b


def second_fleet(rng, b, s):
    t = [x for x in symbols(b) if "battleship" in b.layers[x[0]]["symbol"][x[1]][1]]
    x = free_cell(rng, b)
    if not t or x is None:
        return None
    b.sym(x[0], x[1], "battleship_B+" if b.layers[t[0][0]]["symbol"][t[0][1]][1] != "battleship_B+" else "battleship_B", 1)
    return b


def small_off(slot):
    """a small clue for the cells to the right or below, of which there are none"""
    def f(rng, b, s):
        r, c = (rng.randrange(b.rows), b.cols - 1) if slot == 1 else (b.rows - 1, rng.randrange(b.cols))
        if (r, c) in taken(b):
            return None
        b.sym(r, c, "kakuro", 1)
        b.sud(r, c, slot, rng.choice([3, "4"]))
        return b
    return f


def turn_green(rng, b, s):
    t = [(n, k) for n in "pa" for k in sorted(b.layers[n]["surface"]) if inside(b, k) and b.layers[n]["surface"][k] in (1, 3, 4, 8)]
    t = [(n, k) for n, k in t if not any(k in b.layers[m]["surface"] for m in "pa" if m != n)]
    if not t:
        return None
    n, k = rng.choice(t)
    b.layers[n]["surface"][k] = 2
    return b


def shut_off(rng, b, s):
    """walls all around one cell of a larger room"""
    rs = [r for r in rooms(b) if len(r) > 1]
    if not rs:
        return None
    r, c = rng.choice(sorted(rng.choice(rs)))
    b.top(r, c)
    b.top(r + 1, c)
    b.left(r, c)
    b.left(r, c + 1)
    return b


def cross(rng, b, s):
    """a cross on a side no line goes over"""
    h = View(b).halves
    t = [((r, c), (r + dr, c + dc)) for r in range(b.rows) for c in range(b.cols) for dr, dc, d in ((0, 1, "r"), (1, 0, "d"))
         if r + dr < b.rows and c + dc < b.cols and (r, c, d) not in h]
    if not t:
        return None
    b.linex(*rng.choice(t))
    return b


NOT_SQUARE = [(3, 4), (4, 3), (2, 5), (6, 5), (1, 4), (9, 6), (9, 8), (4, 9)]
OPS = {
    "clue at a corner": move_text(1), "clue at an upper side": move_text(2), "clue at a left side": move_text(3),
    "one more clue at a corner": add_text(1, "1", "1"), "one more clue at a side": add_text(2, "1", 1), "one more clue at the other side": add_text(3, "1", "2"),
    "clue in tapa style": restyle("4"), "tapa clue in plain style": restyle("1", "4"),
    "arrow clue without arrow": restyle("1", "2", lambda x: x.split("_")[0]), "one more clue without arrow": add_text(0, "1", "3"),
    "one more clue in tapa style": add_text(0, "4", "12"), "arrow with a letter": restyle("2", "1", lambda x: "Q_2"),
    "clue in an upper left corner": shrink(0), "clue in a lower right corner": shrink(3), "clue in small print at a side": shrink(5),
    "one more clue in small print": add_small(0), "one more clue in small print at the right": add_small(5),
    "letter for a number": reword("Q"), "word for a number": reword("AB"), "superscript for a number": reword("\u00b2"), "question mark for a number": reword("?"), "negative number": reword("-1"),
    "small clue in large print": enlarge, "letter in small print": small_letter, "one more clue in large print": add_text(0, "1", "2"),
    "one more letter": add_text(0, "1", "Q"),
    "symbol in the middle": move_symbol(0), "symbol at a corner": move_symbol(1), "symbol at an upper side": move_symbol(2), "symbol at a left side": move_symbol(3),
    "another symbol": other_symbol("star", 5), "another form of symbol": other_symbol("math_G", None), "one more star": add_symbol("star", 5),
    "one more star at a side": add_symbol("star", 5, 2), "one more kakuro symbol at a corner": add_symbol("kakuro", 2, 1),
    "green cell": add_surface(2), "black cell": add_surface(4), "crossed side": add_cross,
    "no text": without("number"), "no small text": without("sudoku"), "no symbols": without("symbol"), "no clues": without("number", "sudoku", "symbol"),
    "a clue less": without_one("number"), "a symbol less": without_one("symbol"), "no S": without_one("number", "S"), "no G": without_one("number", "G"),
    "second clue in a room": second_clue("number"), "second small clue in a room": second_clue("sudoku"), "two rooms made one": join_rooms,
    "not a square": blank(NOT_SQUARE), "no multiple of 2": blank([(3, 3), (5, 5), (3, 4), (4, 3), (1, 6)]), "odd number of rows": blank([(3, 3), (5, 4), (1, 2), (7, 6)]),
    "no multiple of 3": blank_not(3), "no multiple of 4": blank_not(4), "no multiple of 5": blank_not(5),
    "symbol in form 1": same_symbol(1), "symbol in form 5": same_symbol(5), "symbol in form 6": same_symbol(6), "symbol in form 9": same_symbol(9),
    "same clue once more": same_text(1), "same clue twice more": same_text(2), "ship off the board": ship_off, "second fleet": second_fleet,
    "clue for no cells to the right": small_off(1), "clue for no cells below": small_off(2), "black cell turned green": turn_green,
    "cell shut off": shut_off, "a cross": cross,
    "square of odd size": blank([(5, 5), (7, 7), (10, 10), (3, 3), (1, 1)]),
}
for _slot in range(1, 8):
    OPS["small clue in place %d" % _slot] = slide(_slot)
OPS["small clue in place 0"] = slide(0)
BAD_VALUES = ["", "x", "-1", "1.5", "2x", " ", "½", "²", "none", "0"]


def spoil(name, rng, board, solver, params):
    """(board, options) or None"""
    if name.startswith("option "):
        key, v = name[7:].split("=", 1)
        more = {"fast_mode": True} if solver == "heyawake" else {}          # the only place where its limits are read
        return board, dict(params, **more, **{key: json.loads(v)})
    b = OPS[name](rng, board.copy(), solver)
    return (b, params) if b is not None else None


# --- boards ------------------------------------------------------------------------------------------------------------------

def specs_of(solver):
    return [s for _, s in sorted(load_all().items()) if s.solver == solver]


def board_of(solver, rng):
    """a well-formed board with its options"""
    from nx.spec import Retry, Unsound
    ex = [e for e in facts.examples() if e[0] == solver]
    if ex and rng.random() < 0.25:
        e = rng.choice(ex)
        raw = parse(e[2])
        if raw.rows * raw.cols <= 200:
            b = Board(raw.rows, raw.cols, raw.margin, raw.shape)
            for n in "pa":
                for kind in KINDS:
                    b.layers[n][kind] = raw.layers[n].get(kind, {})
            return b, e[3], True
    ss = [s for s in specs_of(solver) if not s.sound_only] or specs_of(solver)
    for k in range(40):
        s = rng.choice(ss)
        try:
            case = s.make(rng, oracle=engine.answers if k > 20 or not getattr(s, "enum_sizes", True) else None)
            if case.accept is not None or not case.expected:
                continue
            s.trim(case, rng)
            return case.board, case.params, False
        except (Retry, Unsound, engine.Inconclusive):
            continue
        except TypeError:           # a rule set that needs the solver to draw a board
            continue
    return None


def table():
    with open(TABLE, encoding="utf-8") as f:
        return json.load(f)


def batch(solver, seed, first, count, per, names=None):
    """`names` is for drawing up the list: every kind of spoiling is tried and its outcomes are counted"""
    out = {"n": 0, "bad": [], "ops": {}, "accepted": 0, "messages": [], "sample": None, "learn": {}}
    todo = names or table().get(solver, [])
    msgs = set()
    for k in range(first, first + count):
        rng = random.Random("c14/%s/%s/%d" % (solver, seed, k))
        x = board_of(solver, rng)
        if x is None:
            continue
        board, params, shipped = x
        info = {"k": k, "solver": solver, "params": params}
        st, why = outcome(solver, board.url(), params, 1)
        out["n"] += 1
        if st != "answered":
            out["bad"].append(dict(info, url=board.url(), why="a well-formed board is not accepted: %s: %s" % (st, why)))
            break
        out["accepted"] += 1
        for name in (rng.sample(todo, min(per, len(todo))) if names is None else names):
            y = spoil(name, rng, board, solver, params)
            if y is None:
                continue
            url = y[0].url()
            st, why = outcome(solver, url, y[1], 1 if names else 3)
            if names:
                d = out["learn"].setdefault(name, {})
                t = st if st != "refused" else "raw: " + why if RAW.search(why) else "refused: " + re.sub(r"[-\d]+", "#", why)
                d[t] = d.get(t, 0) + 1
                continue
            out["n"] += 1
            out["ops"][name] = out["ops"].get(name, 0) + 1
            info = {"k": k, "solver": solver, "params": y[1], "url": url, "spoilt": name}
            if st == "answered":
                out["bad"].append(dict(info, why="%s: the board is solved all the same" % name))
            elif st == "error":
                out["bad"].append(dict(info, why="%s: an internal error instead of a refusal: %s" % (name, why)))
            elif not why.strip() or RAW.search(why):
                out["bad"].append(dict(info, why="%s: refused, but the message does not say why: %r" % (name, why)))
            else:
                msgs.add(re.sub(r"[-\d]+", "#", why))
                if out["sample"] is None:
                    out["sample"] = {"link": url, "spoilt": name, "message": why}
                continue
            break
        if out["bad"]:
            break
    out["messages"] = sorted(msgs)
    return out


def run(pid):
    chk = Check(pid)
    nx = engine.load()
    q = chk.quick
    hot, times, all_times, extra = attention(q)
    tab = table()
    jobs = []
    per, size = (30, 6) if q else (400, 20)
    per *= all_times
    for k in range(0, per * times, size):
        for n in sorted(nx["manager"].modules):
            if specs_of(n) and k < per * (times if n in hot else 1):
                jobs.append({"mod": "nx.checks.c14", "fn": "batch", "args": {
                    "solver": n, "seed": chk.seed, "first": k, "count": size, "per": 14 if q else 20}})
    ops, per_type, messages, accepted, bad = {}, {}, set(), 0, []
    for job, res in chk.pool().run(jobs, chk.t0 + (75 if q else 800) + extra, limit=200):
        n = job["args"]["solver"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % (n, res.get("lost") or res["crash"][-300:]))
            continue
        chk.evals += res["n"]
        accepted += res["accepted"]
        for o, v in res["ops"].items():
            ops[o] = ops.get(o, 0) + v
            per_type.setdefault(n, set()).add(o)
        messages |= {(n, m) for m in res["messages"]}
        if res["sample"]:
            chk.sample(dict(res["sample"], type=n))
        bad += [(job, b) for b in res["bad"]]
    for job, b in bad[:10]:
        if chk.confirm(dict(job, args=dict(job["args"], first=b["k"], count=1)), lambda r: bool(r.get("bad"))):
            chk.violate("%s: %s" % (b["solver"], b["why"]), dict(b, job=job["args"]), key="%s/%s" % (b["solver"], b.get("spoilt")))
        else:
            chk.inconclusive.append("%s: not reproduced" % b["solver"])
    chk.distinct = len(messages)
    chk.rule = ("outcome of solving boards spoilt in one place, and of the boards before; distinct = different refusals seen "
                "(puzzle type and message, numbers aside)")
    chk.extra = {"well_formed_boards_accepted": accepted, "spoilings": ops, "types": len(per_type),
                 "listed": sum(map(len, tab.values())), "listed_and_tried": sum(map(len, per_type.values())),
                 "messages": sorted({m for _, m in messages})[:80]}
    chk.assumptions = ["which kinds of spoiling a type cannot interpret is a reviewed list (nx/refusals.json); a text that is no number stands "
                       "for an unknown number in the types that know such clues"]
    chk.finish()
