"""C24: the page sends the drawn puzzle and shows what the server said.

The page's own scripts run in a small browser.  A random user picks types, examples and options, draws, pastes links, presses
Solve and Reset, and a server under the monitor's control answers at any later time: with lists of links, refusals, time-outs,
garbage, nothing, or late, after the request was given up.  A model of what the user was promised judges every step.  Then the
page is connected to the real server, and every example of every puzzle type is solved through it.
"""

import json
import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

from nx.check import Check
from nx.page import Built, Gone, Page, Python
from nx.penpa import url_to_text
from nx.server import Broken, Client, Server

WORDS = ["chocona", "coral", "creek", "hinge", "nothing", "context", "tslither", "heyablock", "simplegako", "norinuri", "squarejam", "nothree",
         "statuepark", "cocktail", "fourcells", "m=solve"]

# the drawing library cannot import these types of the puzzle sites: their links are opened as a type with the same notation
STAND_IN = {"chocona": "aqre", "cocktail": "aqre", "context": "nuribou", "coral": "nonogram", "circlesquare": "yinyang", "creek": "gokigen",
            "fivecells": "nawabari", "fourcells": "nawabari", "heyablock": "heyawake", "hinge": "aqre", "norinuri": "nuribou", "nothing": "moonsun",
            "nothree": "tentaisho", "nuriuzu": "tentaisho", "simplegako": "view", "squarejam": "shikaku", "statuepark": "yinyang",
            "swslither": "slitherlink", "tetrochain": "yajikazu", "tslither": "slitherlink", "vslither": "slitherlink"}


SITE = ["masyu", "shikaku", "nurikabe", "slither", "tentaisho"]


def opened_as(url):
    """the link given to the drawing library for a link of a puzzle site"""
    head, tail = url.split("?", 1)
    t, rest = tail.split("/", 1)
    return "%s?%s/%s" % (head.replace("pzplus.tck.mn", "puzz.link"), STAND_IN.get(t, t), rest)


class Bad(Exception):
    pass


def metadata(d):
    """the listing the page is given, read from the generated file"""
    with open(os.path.join(d, "solver_metadata.js"), encoding="utf-8") as f:
        s = f.read()
    return json.loads(s[s.index("{"):s.rindex("}") + 1])


def default_of(p):
    return next(iter(p["default"]), "") if p["type"] == "select" else p["default"]


def same_value(p, a, b):
    if p["type"] == "checkbox":
        return a is b or (isinstance(a, bool) and a == b)
    return not isinstance(a, bool) and str(a) == str(b)


class Model:
    """what the user was promised"""

    def __init__(self, page, meta, rng):
        self.pg, self.meta, self.rng = page, meta, rng
        self.type = None
        self.params = {}
        self.mode = "idle"           # idle, waiting, shown
        self.locked = False          # after a failure, until Reset
        self.live = None
        self.sent = None
        self.urls, self.at = None, 0
        self.base = None             # the board Reset goes back to: the example chosen or the board sent since the last Reset
        self.open = {}               # requests without a reply
        self.stat = {"steps": 0, "sent": 0, "outcomes": {}, "stale": 0, "stepped": 0, "resets": 0, "pasted": 0}
        self.types = [x["value"] for x in page.do("types")["r"]["list"] if x["value"]]
        self.steps = []

    def do(self, what, **kw):
        self.steps.append(dict(kw, do=what))
        o = self.pg.do(what, **kw)
        for e in o["events"]:
            if e["ev"] in ("unhandled", "error"):
                raise Bad("the page's script fails: %s" % e["what"])
        return o

    def swal(self, o):
        return [e for e in o["events"] if e["ev"] == "swal"]

    def fetches(self, o):
        return [e for e in o["events"] if e["ev"] == "fetch"]

    def params_shown(self, st):
        """the option boxes must be the type's, with the values the user expects"""
        want = self.meta[self.type]["parameters"]
        have = {p["id"]: p for p in st["params"]}
        if sorted(have) != sorted("param_" + k for k in want):
            raise Bad("type %s shows the options %s instead of %s" % (self.type, sorted(have), sorted(want)))
        for k, p in want.items():
            h = have["param_" + k]
            got = h["checked"] if p["type"] == "checkbox" else h["value"]
            if not same_value(p, got, self.params[k]):
                raise Bad("option %s of %s shows %r instead of %r" % (k, self.type, got, self.params[k]))
            if p["type"] == "select" and [tuple(x) for x in h["options"]] != [(x, str(y)) for x, y in p["default"].items()]:
                raise Bad("option %s of %s offers %r instead of %r" % (k, self.type, h["options"], p["default"]))

    # --- steps ---------------------------------------------------------------------------------------------------------------

    def pick_type(self, t=None):
        t = t or self.rng.choice(self.types)
        if t == self.type:
            return
        o = self.do("type", value=t)
        if o["r"]:
            raise Bad("type %s cannot be chosen (%s)" % (t, o["r"]))
        self.type = t
        self.params = {k: default_of(p) for k, p in self.meta[t]["parameters"].items()}
        self.params_shown(o["state"])
        want = [""] + [str(i) for i in range(len(self.meta[t]["examples"]))]
        if o["state"]["example"]["list"] != want:
            raise Bad("type %s offers the examples %r instead of %r" % (t, o["state"]["example"]["list"], want))
        if o["state"]["param"]["disabled"] != (not self.params):
            raise Bad("type %s has %d options, and the button that shows them is %s" % (t, len(self.params), "disabled" if self.params else "enabled"))
        if o["state"]["box"]:
            raise Bad("after type %s was chosen, the options are shown without being asked for" % t)
        if o["state"]["rules"]["disabled"]:
            raise Bad("the rules of %s cannot be shown" % t)

    def pick_example(self, i=None):
        ex = self.meta[self.type]["examples"]
        i = self.rng.randrange(len(ex)) if i is None else i
        if self.pg.state["example"]["value"] == str(i):
            return
        o = self.do("example", value=str(i))
        if o["r"]:
            raise Bad("example %d of %s cannot be chosen (%s)" % (i, self.type, o["r"]))
        cfg = ex[i].get("config") or {}
        self.params = {k: cfg.get(k, p["default"] if p["type"] != "select" else self.params[k]) for k, p in self.meta[self.type]["parameters"].items()}
        self.params_shown(o["state"])
        if ex[i].get("url"):
            got = [e["url"] for e in o["events"] if e["ev"] == "imported"]
            if got != [opened_as(ex[i]["url"])]:
                raise Bad("example %d of %s is imported as %r instead of %r" % (i, self.type, got, ex[i]["url"][:200]))
            self.base = None if len(got) != 1 else "url"
        elif o["state"]["board"] != ex[i]["data"]:
            raise Bad("example %d of %s is shown as %r instead of %r" % (i, self.type, o["state"]["board"][:200], ex[i]["data"][:200]))
        if not ex[i].get("url"):
            self.base = ex[i]["data"]
        if o["state"]["solve"]["disabled"] or o["state"]["solve"]["text"] != "Solve":
            raise Bad("Solve is not ready for the example: %r" % o["state"]["solve"])

    def show_params(self):
        """the options are shown and hidden in turn, and stay as they are"""
        if not self.params:
            return
        before = self.pg.state
        st = self.do("click", id="param")["state"]
        if st["box"] == before["box"]:
            raise Bad("the options of %s stay %s" % (self.type, "shown" if st["box"] else "hidden"))
        if ("hide" in st["param"]["text"].lower()) != st["box"]:
            raise Bad("the options are %s, and the button says %r" % ("shown" if st["box"] else "hidden", st["param"]["text"]))
        self.params_shown(st)

    def rules(self):
        o = self.do("click", id="rules")
        got = [e["url"].split("?")[-1] for e in o["events"] if e["ev"] == "open"]
        want = "yajilin-regions" if self.type == "yajilin_regions" else self.type
        if not self.type:
            if got:
                raise Bad("no type is chosen, and the rules of %r are opened" % got)
        elif got != [want]:
            raise Bad("the rules of %s are opened as %r" % (want, got))

    def spaces(self):
        n = len(self.pg.state["space"])
        v = [self.rng.randint(0, 20) for _ in range(n)]
        o = self.do("spaces", values=v)
        if o["state"]["space"] != v:
            raise Bad("the white space %r becomes %r" % (v, o["state"]["space"]))

    def elsewhere(self):
        """while a request is waiting, nothing else can be chosen"""
        ts = [t for t in self.types if t != self.type]
        if self.rng.random() < 0.5:
            o, what = self.do("type", value=self.rng.choice(ts)), "type"
        else:
            free = [v for v in self.pg.state["example"]["list"] if v and v != self.pg.state["example"]["value"]]
            if not free:
                return
            o, what = self.do("example", value=self.rng.choice(free)), "example"
        if not o["r"].get("refused"):
            raise Bad("while the server is asked, another %s can be chosen" % what)

    def set_param(self):
        ps = self.meta[self.type]["parameters"] if self.type else {}
        if not ps:
            return
        k = self.rng.choice(sorted(ps))
        p = ps[k]
        v = (self.rng.random() < 0.5 if p["type"] == "checkbox" else str(self.rng.randint(0, 30)) if p["type"] == "number"
             else self.rng.choice(sorted(p["default"])) if p["type"] == "select" else self.rng.choice(["ABC", "xyz", "", "é 'q\"", "A" * 40]))
        if self.do("set", id=k, value=v)["r"]:
            raise Bad("option %s of %s cannot be set to %r" % (k, self.type, v))
        self.params[k] = v

    def board(self):
        n = self.rng.choice([3, 40, 400])
        abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        s = "".join(self.rng.choice(abc) for _ in range(n))
        if self.rng.random() < 0.3:
            i = self.rng.randrange(len(s))
            s = s[:i] + self.rng.choice([w for w in WORDS if "=" not in w]) + s[i:]
        return "m=edit&p=" + s + "=" * self.rng.randrange(3)

    def draw(self):
        self.do("draw", board=self.board())

    def paste(self, site=None):
        self.stat["pasted"] += 1
        t = 3 if site else self.rng.randrange(4)
        before = self.pg.state["board"]
        if t <= 1:
            b = self.board()
            o = self.do("paste", url="http%s/penpa-edit/#%s" % (self.rng.choice(["s://swaroopg92.github.io", "://127.0.0.1:8000"]), b))
            if o["state"]["board"] != b:
                raise Bad("a pasted link is opened as %r instead of %r" % (o["state"]["board"][:300], b[:300]))
        elif t == 2:
            o = self.do("paste", url="https://swaroopg92.github.io/penpa-edit/#m=solve&p=abc")
            if o["state"]["board"] != before or len(self.swal(o)) != 1:
                raise Bad("a link in solving mode is not refused with a message")
        else:
            tail = "10/10/" + "".join(self.rng.choice("ghijk123.") for _ in range(30))
            t = site or self.rng.choice(sorted(STAND_IN) + SITE)
            url = "https://%s/p?%s/%s" % (self.rng.choice(["puzz.link", "pzplus.tck.mn"]), t, tail)
            o = self.do("paste", url=url)
            got = [e["url"] for e in o["events"] if e["ev"] == "imported"]
            if got != [opened_as(url)]:
                raise Bad("a puzzle link of type %s is imported as %r" % (t, got))

    def solve(self):
        before = self.pg.state
        o = self.do("click", id="solve")
        f = self.fetches(o)
        if self.mode == "idle":
            if o["r"].get("refused"):
                raise Bad("Solve is disabled although nothing is being solved (%r)" % before["solve"])
            if not self.type:
                if f or len(self.swal(o)) != 1:
                    raise Bad("Solve without a type: %d requests and %d messages" % (len(f), len(self.swal(o))))
                return
            if len(f) != 1:
                raise Bad("Solve sends %d requests instead of one" % len(f))
            f = f[0]
            if f["method"] != "POST" or not f["url"].rstrip("/").endswith("/api/solve"):
                raise Bad("the request is %s %s" % (f["method"], f["url"]))
            b = json.loads(f["body"])
            if b.get("puzzle_name") != self.type:
                raise Bad("the request names the type %r instead of %r" % (b.get("puzzle_name"), self.type))
            if b.get("puzzle") != before["board"]:
                raise Bad("the request holds the board %r instead of %r" % (str(b.get("puzzle"))[:300], before["board"][:300]))
            ps = self.meta[self.type]["parameters"]
            for k, p in ps.items():
                if k not in b["param"] or not same_value(p, b["param"][k], self.params[k]):
                    raise Bad("the request for %s has option %s = %r instead of %r" % (self.type, k, b["param"].get(k, "nothing"), self.params[k]))
            self.stat["sent"] += 1
            if not o["state"]["solve"]["disabled"]:
                raise Bad("while the server is asked, Solve can be pressed again")
            self.mode, self.live, self.sent = "waiting", f["id"], before["board"]
            self.base = self.sent
            self.open[f["id"]] = self.type
        elif f:
            raise Bad("Solve sends a request while %s" % ("one is waiting" if self.mode == "waiting" else "answers are shown"))
        elif self.mode == "shown" and len(self.urls) > 1:
            if o["r"].get("refused"):
                raise Bad("the next of %d answers cannot be reached" % len(self.urls))
            self.at = (self.at + 1) % len(self.urls)
            self.stat["stepped"] += 1
            self.showing(o)
        elif self.mode == "shown":
            if [e for e in o["events"] if e["ev"] == "shown"] and o["state"]["board"] != self.urls[0]:
                raise Bad("stepping from the only answer shows something else")

    def showing(self, o):
        if o["state"]["board"] != self.urls[self.at]:
            raise Bad("answer %d of %d should be shown, but the board shows %r" % (self.at + 1, len(self.urls), o["state"]["board"][:200]))
        n = len(self.urls)
        want = "%d/%s" % (self.at + 1, "10+" if n == 10 else n)
        if want not in o["state"]["solve"]["text"]:
            raise Bad("the button says %r at answer %s" % (o["state"]["solve"]["text"], want))

    def ready(self, o, what):
        s = o["state"]["solve"]
        if s["disabled"] or s["text"] != "Solve":
            raise Bad("after %s, Solve is not ready: it says %r and is %s" % (what, s["text"], "disabled" if s["disabled"] else "enabled"))

    def reset(self):
        before, mode = self.pg.state, self.mode
        o = self.do("click", id="solver_reset")
        self.stat["resets"] += 1
        if o["r"]:
            raise Bad("Reset cannot be pressed")
        if mode != "idle" and o["state"]["board"] != self.sent:
            raise Bad("Reset shows %r instead of the puzzle that was sent, %r" % (o["state"]["board"][:300], self.sent[:300]))
        made = [e for e in o["events"] if e["ev"] == "newboard"]
        if self.base is None and not made:
            raise Bad("Reset, with nothing opened or sent since the last one, shows %r instead of a new board" % o["state"]["board"][:300])
        if self.base is not None and (made or self.base != "url" and o["state"]["board"] != self.base):
            raise Bad("Reset shows %r instead of the puzzle opened or sent last, %r" % (o["state"]["board"][:300], self.base[:300]))
        self.base = None
        self.ready(o, "Reset")
        if o["state"]["type"]["disabled"] or o["state"]["example"]["disabled"]:
            raise Bad("after Reset, no other type or example can be chosen")
        if before["params"] != o["state"]["params"]:
            raise Bad("Reset changes the options")
        self.mode, self.live, self.locked, self.urls = "idle", None, False, None

    def reply(self, i=None, kind=None, urls=None):
        """the server answers one of the open requests"""
        rng = self.rng
        if not self.open:
            return
        i = rng.choice(sorted(self.open)) if i is None else i
        self.open.pop(i)
        kind = kind or rng.choice(["none", "one", "one", "many", "many", "many", "ten", "400", "400", "500", "504", "garbage", "broken"])
        msg = rng.choice(["Clue at (1, 2) should be placed in the center.", "x", "<b>bad</b>", "é\nq", "Unknown puzzle."])
        if kind in ("none", "one", "many", "ten"):
            n = {"none": 0, "one": 1, "many": rng.randint(2, 9), "ten": 10}[kind]
            urls = ["m=edit&p=ANSWER%d_%d_%d" % (i, k, rng.randrange(10 ** 6)) for k in range(n)] if urls is None else urls
            kw = {"status": 200, "body": json.dumps({"url": urls})}
        elif kind in ("400", "500", "504"):
            kw = {"status": int(kind), "body": json.dumps({"detail": "Unknown error." if kind == "500" else msg})}
        elif kind == "garbage":
            kw = {"status": rng.choice([200, 502, 400]), "body": rng.choice(["", "<html>Bad gateway</html>", "{", "null"])}
        before = self.pg.state
        o = self.do("fail", id=i) if kind == "broken" else self.do("reply", id=i, **kw)
        if i != self.live:
            self.stat["stale"] += 1
            if o["state"]["board"] != before["board"] or o["state"]["solve"] != before["solve"] or o["state"]["type"] != before["type"]:
                raise Bad("the reply to a request that was given up by Reset changes the page: the button goes from %r to %r, the board from %r to %r" % (
                    before["solve"], o["state"]["solve"], before["board"][:80], o["state"]["board"][:80]))
            return
        self.live = None
        self.stat["outcomes"][kind] = self.stat["outcomes"].get(kind, 0) + 1
        sw = self.swal(o)
        if kind in ("one", "many", "ten"):
            if sw:
                raise Bad("answers came, and the page says %r" % sw)
            self.mode, self.urls, self.at = "shown", urls, 0
            self.showing(o)
            return
        self.mode, self.locked = "idle", True
        if o["state"]["board"] != before["board"]:
            raise Bad("after outcome %r the board changes" % kind)
        if len(sw) != 1:
            raise Bad("outcome %r gives %d messages" % (kind, len(sw)))
        text = sw[0]["title"] + " " + sw[0]["text"]
        if kind == "none" and "no solution" not in text.lower():
            raise Bad("no answer is reported as %r" % text)
        if kind in ("400", "500") and json.loads(kw["body"])["detail"] not in text:
            raise Bad("the server said %r, the page says %r" % (kw["body"], text))
        if kind == "504" and "time limit" not in text.lower():
            raise Bad("a time-out is reported as %r" % text)
        if kind not in ("none",) and "no solution" in text.lower():
            raise Bad("outcome %r is reported as %r" % (kind, text))
        self.ready(o, "outcome %r" % kind)

    def all_answers(self):
        """step through every answer and back to the first"""
        if self.mode == "shown":
            for _ in range(len(self.urls) + 1):
                self.solve()

    def step(self):
        rng = self.rng
        self.stat["steps"] += 1
        acts = [self.solve, self.reset]
        if self.mode == "idle":
            acts += [self.solve] * 3 + [self.draw, self.paste]
            if not self.locked:
                acts += [self.pick_type] * 2
                if self.type:
                    acts += [self.pick_example] * 2
            if self.type:
                acts += [self.set_param] * 2
            acts += [self.rng.choice([self.rules, self.spaces, self.show_params])]
        elif self.mode == "waiting":
            acts += [self.reply] * 4 + [self.draw, self.elsewhere]
        else:
            acts += [self.solve] * 2 + [self.all_answers] + [self.reset]
        if len(self.open) > (self.mode == "waiting"):
            acts += [self.reply] * 2
        rng.choice(acts)()


class Deployed(Model):
    """the page that solves in the browser: its own Python is asked, and its solver answers at any later time"""

    def board(self):
        ex = [e["data"] for e in self.meta[self.type]["examples"] if "data" in e] if self.type else []
        return self.rng.choice(ex) if ex and self.rng.random() < 0.85 else super().board()

    def solve(self):
        if self.mode == "shown":
            if len(self.urls) > 1:
                o = self.do("click", id="solve")
                if o["r"].get("refused"):
                    raise Bad("the next of %d answers cannot be reached" % len(self.urls))
                self.at = (self.at + 1) % len(self.urls)
                self.stat["stepped"] += 1
                if self.urls[self.at] is None:
                    if o["state"]["board"] in self.urls:
                        raise Bad("answer %d of %d shows an answer that was shown before" % (self.at + 1, len(self.urls)))
                    self.urls[self.at] = o["state"]["board"]
                self.showing(o)
            return
        if self.mode == "waiting":
            if not self.do("click", id="solve")["r"].get("refused"):
                raise Bad("while the browser solves, Solve can be pressed again")
            return
        before = self.pg.state
        o = self.do("click", id="solve")
        runs = [e for e in o["events"] if e["ev"] == "clingo"]
        sw = self.swal(o)
        if self.fetches(o):
            raise Bad("the deployed page asks a server")
        if o["r"].get("refused"):
            raise Bad("Solve is disabled although nothing is being solved (%r)" % before["solve"])
        if not self.type:
            if runs or len(sw) != 1:
                raise Bad("Solve without a type: %d runs and %d messages" % (len(runs), len(sw)))
            return
        self.sent = self.base = before["board"]
        if not runs:
            self.locked = True
            self.stat["outcomes"]["refused"] = self.stat["outcomes"].get("refused", 0) + 1
            if len(sw) != 1 or not sw[0]["text"]:
                raise Bad("nothing is solved, and the page says %r" % sw)
            self.ready(o, "a refusal")
            return
        if len(runs) != 1 or sw:
            raise Bad("Solve starts %d runs and says %r" % (len(runs), sw))
        if not o["state"]["solve"]["disabled"]:
            raise Bad("while the browser solves, Solve can be pressed again")
        self.stat["sent"] += 1
        self.mode, self.live = "waiting", runs[0]["id"]
        self.open[self.live] = self.type

    def reset(self):
        mode, steps = self.mode, self.pg
        super().reset()
        ev = [e["ev"] for e in steps.log[-1][1]]
        if ("terminate" in ev) != (mode == "waiting") or ("init" in ev) != (mode == "waiting"):
            raise Bad("Reset while %s: %s" % (mode, [x for x in ev if x in ("terminate", "init")] or "the solver is left alone"))

    def reply(self, i=None, kind=None, urls=None):
        rng = self.rng
        if not self.open:
            return
        i = rng.choice(sorted(self.open)) if i is None else i
        self.open.pop(i)
        kind = kind or rng.choice(["none", "one", "one", "many", "many", "ten", "failed"])
        n = {"none": 0, "one": 1, "many": rng.randint(2, 9), "ten": 10, "failed": 0}[kind]
        res = {"Solver": "clingo", "Result": "SATISFIABLE" if n else "UNSATISFIABLE", "Warnings": [""], "Time": {"Total": 0.1},
               "Call": [{"Witnesses": [{"Value": ["number(%d,%d,%d)" % (*divmod(j, 4), 1 + (k >> j % 4 & 1)) for j in range(16)]} for k in range(n)]} if n else {}],
               "Models": {"Number": n, "More": "yes"}}
        if kind == "failed":
            res = {"Result": "ERROR", "Error": "parsing failed"}
        before = self.pg.state
        o = self.do("result", id=i, result=res)
        if i != self.live:
            self.stat["stale"] += 1
            if o["state"]["board"] != before["board"] or o["state"]["solve"] != before["solve"] or o["state"]["type"] != before["type"] or self.swal(o):
                raise Bad("the result of a run that was given up by Reset changes the page")
            return
        self.live = None
        self.stat["outcomes"][kind] = self.stat["outcomes"].get(kind, 0) + 1
        sw = self.swal(o)
        if n:
            if sw:
                raise Bad("answers came, and the page says %r" % sw)
            self.mode, self.urls, self.at = "shown", [o["state"]["board"]] + [None] * (n - 1), 0
            self.showing(o)
            if o["state"]["board"] == before["board"]:
                raise Bad("an answer came, and the board does not change")
            if n == 1 and not o["state"]["solve"]["disabled"]:
                raise Bad("there is one answer, and the button offers another")
            return
        self.mode, self.locked = "idle", True
        if o["state"]["board"] != before["board"]:
            raise Bad("after outcome %r the board changes" % kind)
        if len(sw) != 1 or ("no solution" in sw[0]["text"].lower()) != (kind == "none"):
            raise Bad("outcome %r is reported as %r" % (kind, sw))
        self.ready(o, "outcome %r" % kind)


def in_browser(d, seed, n, deadline):
    """one load of the deployed page and n steps, as session"""
    py = Python(d)
    if "error" in py.hello:
        py.close()
        return "the deployed Python does not start: %s" % str(py.hello)[-300:], {}, []
    try:
        return session(d, seed, n, deadline, py)
    finally:
        py.close()


def session(d, seed, n, deadline, py=None):
    """one load of the page and n steps; returns (failure or None, statistics, steps)"""
    rng = random.Random("c24/%s" % seed)
    pg = Page(d, py)
    m = None
    try:
        bad = [e for e in pg.start_events if e["ev"] in ("error", "unhandled")]
        if bad:
            return "the page does not start: %s" % bad, {}, []
        if py and not [e for e in pg.start_events if e["ev"] == "init"]:
            return "the deployed page does not prepare its solver", {}, []
        m = (Deployed if py else Model)(pg, metadata(d), rng)
        for t in rng.sample(sorted(STAND_IN) + SITE, len(STAND_IN) + len(SITE)) if rng.random() < 0.2 else ():
            m.paste(t)
        for _ in range(n):
            if time.time() > deadline:
                break
            m.step()
        return None, m.stat, m.steps
    except Bad as e:
        return str(e), m.stat, m.steps
    finally:
        pg.close()


def shown_text(url):
    try:
        return url_to_text(url)
    except Exception:
        return url


def through(d, port, types, meta, deadline):
    """solve every example of some types with the real server behind the page"""
    fails, n, single = [], 0, 0
    pg = Page(d)
    m = Model(pg, meta, random.Random(0))
    cl = Client(port)
    try:
        for t in types:
            for i, ex in enumerate(meta[t]["examples"]):
                if "data" not in ex or t in ("anglers", "symmarea") or time.time() > deadline:
                    continue
                m.steps = []
                try:
                    m.pick_type(t)
                    m.pick_example(i)
                    m.solve()
                    rid = m.live
                    body = [e for _, ev in pg.log for e in ev if e["ev"] == "fetch" and e["id"] == rid][-1]["body"]
                    st, h, data = cl.ask(body.encode())
                    if st == 504:
                        m.reset()
                        continue
                    if st != 200:
                        raise Bad("what the page sends for example %d of %s is refused: %r" % (i, t, data[:300]))
                    urls = json.loads(data)["url"]
                    n += 1
                    single += len(urls) == 1
                    m.reply(rid, {0: "none", 1: "one", 10: "ten"}.get(len(urls), "many"), urls)
                    if len(urls) != 1:
                        raise Bad("example %d of %s, opened and solved on the page, has %d answers" % (i, t, len(urls)))
                    if not shown_text(m.pg.state["board"]).startswith(shown_text(ex["data"]).split("\n")[0]):
                        raise Bad("the answer shown for example %d of %s is another board" % (i, t))
                    m.reset()
                except Bad as e:
                    fails.append((t, i, str(e), m.steps[-8:]))
                    return fails, n, single
    finally:
        cl.close()
        pg.close()
    return fails, n, single


def run(pid):
    chk = Check(pid)
    chk.rule = ("a step counts when the page's own scripts were driven by it and every event and the resulting page state were judged; "
                "non-trivial: distinct (action kind, outcome) histories of sessions with at least one request")
    b = Built()
    if not b.ok():
        print("C24: inconclusive, the page cannot be prepared: %s" % b.out[-500:])
        b.close()
        raise SystemExit(2)
    end = time.time() + (25 if chk.quick else 300)
    srv = None
    try:
        meta = metadata(b.source)
        srv = Server()
        if not srv.alive():
            chk.inconclusive.append("the server does not start: " + srv.tail(300))
        total = {"steps": 0, "sent": 0, "stale": 0, "stepped": 0, "resets": 0, "pasted": 0, "outcomes": {}}
        with ThreadPoolExecutor(8) as ex:
            n = 30 if chk.quick else 400
            ts = sorted(meta)
            real = [ex.submit(through, b.source, srv.port, ts[k::2], meta, end) for k in range(2)] if srv.alive() else []
            jobs = [(k, ex.submit(session, b.source, "%d/%d" % (chk.seed, k), 150, end)) for k in range(n)]
            jobs += [(-1 - k, ex.submit(in_browser, b.page, "b%d/%d" % (chk.seed, k), 120, end)) for k in range(n // 3)]
            for k, j in jobs:
                try:
                    bad, stat, steps = j.result()
                except (Gone, OSError) as e:
                    chk.inconclusive.append(str(e))
                    continue
                for a, v in stat.items():
                    if a != "outcomes":
                        total[a] += v
                for a, v in stat.get("outcomes", {}).items():
                    a = "in browser: " + a if k < 0 else a
                    total["outcomes"][a] = total["outcomes"].get(a, 0) + v
                chk.evals += stat.get("steps", 0)
                chk.distinct += stat.get("sent", 0)
                if k < 3:
                    chk.sample({"steps": [s.get("do") + ":" + str(s.get("value", s.get("id", "")))[:20] for s in steps[:40]]})
                if bad:
                    if k < 0:
                        again, _, _ = in_browser(b.page, "b%d/%d" % (chk.seed, -1 - k), 120, time.time() + 60)
                    else:
                        again, _, _ = session(b.source, "%d/%d" % (chk.seed, k), 150, time.time() + 60)
                    if again:
                        chk.violate(("on the deployed page: " if k < 0 else "") + bad, {"session": "%d/%d" % (chk.seed, k), "steps": steps[-12:]})
            done = single = 0
            for j in real:
                try:
                    fails, x, y = j.result()
                except (Gone, Broken, OSError) as e:
                    chk.inconclusive.append(str(e))
                    continue
                done, single = done + x, single + y
                for t, i, why, steps in fails:
                    chk.violate(why, {"type": t, "example": i, "steps": steps})
        chk.evals += done
        chk.extra = {"trace": total, "examples_through_the_real_server": done, "with_one_answer": single}
    finally:
        if srv:
            srv.stop()
        b.close()
    chk.assumptions = ["the drawing library (penpa-edit), the select boxes (Choices) and the message boxes (SweetAlert) do as their documentation says",
                       "the stub document behaves like a browser in what the page uses"]
    chk.finish(minimum=500)
