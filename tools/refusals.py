"""draw up nx/refusals.json from the outcomes of trying every kind of spoiling on every type (development helper)

argument: file written by the trial, {type: {kind: {outcome or message: count}}}.  Kept are the kinds that were refused every time, for a
reason that has to do with the kind; the reviewed exceptions are listed here.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZE = {"not a square": {"doppelblock", "easyasabc", "factors", "kropki", "minarism", "skyscrapers", "sudoku", "binairo"},
        "no multiple of 2": {"binairo", "sudoku"}, "odd number of rows": {"binairo", "stostone", "sudoku"}, "square of odd size": {"sudoku"},
        "no multiple of 3": {"heteromino", "triplace"}, "no multiple of 4": {"fourcells", "tetrominous"},
        "no multiple of 5": {"fivecells", "pentominous"}}
LUCK = {("voxas", "two rooms made one"), ("nondango", "symbol in form 1"), ("cocktail", "same clue twice more"), ("triplace", "ship off the board"), ("firefly", "second clue in a room"), ("compass", "second small clue in a room"),
        ("numlin", "one more clue in large print"), ("numlin", "one more clue without arrow"), ("kakuro", "small clue in place 1"),
        ("triplace", "small clue in place 1"), ("triplace", "a symbol less"), ("triplace", "one more star"), ("triplace", "one more star at a side"),
        ("triplace", "one more kakuro symbol at a corner")}
MORE = {"heyawake": ['option %s=%s' % (p, json.dumps(v)) for p in ("limit_border", "limit_2x2") for v in ("", "x", "-1", "1.5", "2x", " ", "½", "²", "none")]}

T = json.load(open(sys.argv[1], encoding="utf-8"))
out = {}
for n, d in sorted(T.items()):
    for o, c in sorted(d.items()):
        ref = [k for k in c if k.startswith("refused")]
        if len(ref) < len(c) or sum(c.values()) < 3 or (n, o) in LUCK:
            continue
        if o in SIZE and n not in SIZE[o]:
            continue
        if n == "anglers" and o.startswith("one more") or n == "easyasabc" and o.startswith("option"):
            continue
        out.setdefault(n, []).append(o)
for n, os_ in MORE.items():
    out[n] = sorted(set(out.get(n, []) + os_))
with open(os.path.join(HERE, "nx", "refusals.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
print(len(out), sum(map(len, out.values())))
