"""record the repairs made in the repository in known_findings.json (development helper)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"nuribou": "C01", "aquapelago": "C01", "nagare: accept": "C02", "nagare: only": "C02", "country: a drawn": "C02", "country: borders outside": "C23", "myopia": "C02",
        "firefly": "C02", "tapa, tapaloop": "C11", "clingo: keep": "C01", "clingo: expand": "C03", "numlin": "C02", "nagare: do not": "C10", "nagare, firefly: refuse": "C14", "bosanowa: refuse": "C14", "araf": "C03",
        "triplace": "C03", "fill_num": "C04", "sudoku: the second": "C06", "sudoku: refuse": "C14", "easyasabc": "C14",
        "meander": "C04", "kakuro": "C04", "starbattle": "C06",
        "ncells": "C06", "binairo": "C05", "battleship: the middle": "C05", "battleship: accept": "C14", "pentopia": "C05",
        "heyawake, heyablock, hinge": "C01", "symmarea": "C06", "mannequin": "C01", "nonogram": "C08", "penpa: a drawn line": "C09",
        "rooms: refuse": "C11", "server: a refusal": "C12",
        "page: a penpa": "C24", "page: Solve": "C24", "page: a reply": "C24", "page: the in-browser": "C16", "deployment:": "C17",
        "rules: unique_num": "C19", "a superscript digit": "C14", "factors: no products": "C13", "araf: say": "C14",
        "coral: refuse": "C14", "nonogram: refuse": "C14", "heyawake: refuse": "C14"}
for _t in "balance coral nonogram factors nanro onsen usoone firefly kakuro triplace minarism kazunori nuriuzu tatamibari".split():
    PROP[_t + ": refuse"] = "C14"
EXTRA = os.path.join(HERE, "tools", "findings_extra.json")
path = os.path.join(HERE, "known_findings.json")
old = json.load(open(path, encoding="utf-8"))["findings"]
more = json.load(open(EXTRA, encoding="utf-8")) if os.path.exists(EXTRA) else {}
out = [x for x in old if x.get("kind") == "finding"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ks = sorted((k for k in {**PROP, **more} if s.startswith(k)), key=len)
    assert ks, s
    p = {**PROP, **more}[ks[-1]]
    out.append({"property": p, "kind": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p, h, s)})
with open(path, "w", encoding="utf-8") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
