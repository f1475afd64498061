"""C16: the browser build and the server give the same results.

The deployment is built in a scratch copy.  Its page runs in a small browser, its Python in a bare interpreter that has nothing
but the standard library and the files the bundle lists.  Boards of every puzzle type (to be answered, to be refused, damaged)
are drawn on that page and solved; the program the page hands to its solver is run with the options the page gives; what the page
then shows is compared with what the server's code makes of the same request in a process of its own.
"""

import json
import os
import random
import shlex
import time

from nx import engine, facts
from nx.check import Check
from nx.checks.c11 import late, requests_of, spoil
from nx.checks.c24 import metadata
from nx.page import Built, Gone, Page, Python
from nx.penpa import url_to_text
from nx.specs import load_all

_open = {}
_last = {}                       # how the page was left: "new", a puzzle type (after a failure, still chosen), or None


def browser(d):
    """the page and its Python, kept open between boards (as a user keeps a page open)"""
    if d not in _open:
        p = Python(d)
        if "error" in p.hello:
            return None, None, p
        _open[d] = (Page(d, p), metadata(d), p)
        _last[d] = "new" if [e for e in _open[d][0].start_events if e["ev"] == "init"] else "unprepared"
    return _open[d]


def close(d):
    if d in _open:
        pg, _, p = _open.pop(d)
        pg.close()
        p.close()


def as_page(params):
    """option values as a page sends them"""
    return {k: v if isinstance(v, bool) else str(v) for k, v in params.items()}


def seen(url, name):
    try:
        return repr(sorted(facts.facts(url, hashi=name == "hashi"), key=repr))
    except Exception:
        return url


def text(url):
    try:
        return url_to_text(url)
    except Exception:
        return url


def server_side(req, limit):
    """what the server makes of it: [kind, answers or message, program]"""
    nx = engine.load()
    m = nx["manager"]
    nx["Config"].max_solutions_to_find, nx["Config"].time_limit = limit, 20
    prog = None
    try:
        random.seed(0)
        pz = m.prepare_puzzle(req["solver"], req["url"], dict(req["params"]))
        random.seed(0)
        prog = m.generate_program(pz)
        random.seed(0)
        us = nx["run_solver"](req["solver"], req["url"], dict(req["params"]))["url"]
        return ["answers", us, prog]
    except TimeoutError:
        return ["timeout", None, prog]
    except ValueError as e:
        return ["refused", str(e), None]
    except Exception as e:
        return ["error", type(e).__name__, prog]
    finally:
        nx["Config"].max_solutions_to_find, nx["Config"].time_limit = 10, 30


class NoOption(Exception):
    pass


def wasm(args, limit=20):
    """the in-browser solver: the program with the options given; the result in its JSON form, and the models"""
    import clingo
    opts = []
    for a in args[1:]:
        if a.startswith("["):
            opts += [str(x) for x in json.loads(a)]
        elif not a.isdigit():
            opts += shlex.split(a)
        else:
            opts.append(a)
    try:
        ctl = clingo.Control(opts, logger=lambda *_: None)
    except RuntimeError as e:
        raise NoOption("%s: %s" % (opts, e)) from e
    models = []
    try:
        ctl.add("base", [], args[0])
        ctl.ground([("base", [])])
    except RuntimeError as e:
        return {"Result": "ERROR", "Error": str(e)}, models
    with ctl.solve(on_model=lambda x: models.append([str(a) for a in x.symbols(shown=True)]), async_=True) as h:
        done = h.wait(limit)
        h.cancel()
        if not done:
            return None, models
        res = h.get()
    call = {"Witnesses": [{"Value": v} for v in models]} if models else {}
    return {"Solver": "clingo", "Result": "SATISFIABLE" if res.satisfiable else "UNSATISFIABLE", "Call": [call], "Warnings": [""],
            "Models": {"Number": len(models), "More": "yes"}, "Time": {"Total": 0.0}}, models


def not_ready(o, what):
    """the page must take another request after every outcome"""
    s = o["state"]["solve"]
    return "after %s the deployed page is not ready: %r" % (what, s) if s["disabled"] or s["text"] != "Solve" else None


def page_side(d, req, rng):
    """draw the board on the page and press Solve; returns a dict, or a string saying what went wrong"""
    pg, meta, _ = browser(d)
    if pg is None:
        return "the deployed Python does not start"

    def do(what, **kw):
        o = pg.do(what, **kw)
        for e in o["events"]:
            if e["ev"] in ("unhandled", "error", "pyerror"):
                raise ValueError("the page's script fails: %s" % e["what"])
        return o
    try:
        t = req["solver"]
        last = _last.pop(d, None)
        if last == "unprepared":
            return "the deployed page does not prepare its solver"
        fresh = rng.random() < 0.5
        if last not in ("new", t) or fresh:     # a failed attempt may be followed by another without Reset
            o = do("click", id="solver_reset")
            if last != "working" and any(e["ev"] == "terminate" for e in o["events"]):
                return "Reset stops a solver that does nothing"
            last = None
        st = pg.state
        if st["solve"]["disabled"] or st["solve"]["text"] != "Solve" or st["type"]["disabled"] and last != t:
            return "after %s the page is not ready: %s" % ("Reset" if last is None else "a failure", st["solve"])
        if not st["type"]["disabled"] and not st["example"]["disabled"] and st["type"]["value"] == t and len(st["example"]["list"]) > 1 and rng.random() < 0.1:
            do("example", value=rng.choice(st["example"]["list"][1:]))
        if st["type"]["value"] != t and do("type", value=t)["r"]:
            return "type %s cannot be chosen on the deployed page" % t
        for k, v in req["params"].items():
            if do("set", id=k, value=v)["r"]:
                return "option %s of %s cannot be set to %r on the deployed page" % (k, t, v)
        do("draw", board=req["url"])
        o = do("click", id="solve")
        runs = [e for e in o["events"] if e["ev"] == "clingo"]
        out = {"program": None, "message": [e["text"] for e in o["events"] if e["ev"] == "swal"], "shown": []}
        if not runs:
            _last[d] = t
            return not_ready(o, "a refusal") or out
        if not o["state"]["type"]["disabled"] or not o["state"]["example"]["disabled"] or not o["state"]["solve"]["disabled"]:
            return "while the in-browser solver works, another type or example, or Solve, can be pressed"
        if rng.random() < 0.1:
            # the user gives up while the solver works, and tries again: a new worker, and the old one's result is not shown
            r = do("click", id="solver_reset")
            if not [e for e in r["events"] if e["ev"] == "init"] or not [e for e in r["events"] if e["ev"] == "terminate"]:
                return "after Reset during solving, the old solver goes on or no new one is prepared"
            why = not_ready(r, "Reset during solving")
            if why:
                return why
            o = do("click", id="solve")
            runs = [e for e in o["events"] if e["ev"] == "clingo"]
            if len(runs) != 1:
                return "after Reset during solving, Solve starts %d runs (messages %s)" % (len(runs), out["message"])
            out["given_up"] = True
        if any(e["ev"] == "fetch" for e in o["events"]):
            return "the deployed page asks a server"
        out["program"], out["options"] = runs[0]["args"][0], runs[0]["args"][1:]
        res, out["models"] = wasm(runs[0]["args"])
        if res is None:
            out["slow"] = True
            _last[d] = "working"
            return out
        o = do("result", id=runs[0]["id"], result=res)
        out["message"] += [e["text"] for e in o["events"] if e["ev"] == "swal"]
        out["result"] = res["Result"]
        if not out["models"]:
            _last[d] = t
            why = not_ready(o, "no answer")
            if why:
                return why
        if o["state"]["solve"]["text"].startswith("Solution"):
            n = len(out["models"])
            if o["state"]["solve"]["text"] != "Solution (1/%s)" % ("10+" if n == 10 else n) or o["state"]["solve"]["disabled"] != (n == 1):
                return "the deployed page has %d answers, and its button says %r" % (n, o["state"]["solve"])
            out["shown"].append(o["state"]["board"])
            n = 1
            while not pg.state["solve"]["disabled"] and n < 20:
                o = do("click", id="solve")
                if o["state"]["board"] == out["shown"][0] or o["r"].get("refused"):
                    break
                out["shown"].append(o["state"]["board"])
                n += 1
        return out
    except NoOption as e:
        return "the in-browser solver does not take its options: %s" % e
    except ValueError as e:
        return str(e)


def lines(p):
    return sorted(x for x in p.split("\n") if x.strip())


def compare(req, a, b):
    """a: server, b: page; None or what differs"""
    name = req["solver"]
    if isinstance(b, str):
        return b
    if a[0] == "refused":
        if b["program"] is not None or b["shown"]:
            return "%s: the server refuses the board (%s), the deployed page solves it" % (name, a[1])
        if b["message"] != [a[1]]:
            return "%s: the server refuses the board with %r, the deployed page says %r" % (name, a[1], b["message"])
        return None
    if a[0] == "error":
        return None if not b["shown"] and b["message"] else "%s: the server fails (%s), the deployed page shows %d answers and says %r" % (
            name, a[1], len(b["shown"]), b["message"])
    if b["program"] is None:
        return "%s: the server solves the board, the deployed page says %r" % (name, b["message"])
    if a[2] is not None and lines(a[2]) != lines(b["program"]):
        x, y = lines(a[2]), lines(b["program"])
        d = [u for u in x if u not in y][:2], [u for u in y if u not in x][:2]
        return "%s: the rule programs differ: only the server has %s, only the deployed page has %s" % (name, d[0], d[1])
    if a[0] == "timeout" or "slow" in b:
        return None
    if b["result"] == "ERROR":
        return "%s: the server solves the board, the in-browser solver fails" % name
    us = a[1]
    if not us:
        return None if b["message"] == ["No solution found."] and not b["shown"] else "%s: no answer on the server; the deployed page shows %d and says %r" % (
            name, len(b["shown"]), b["message"])
    if b["message"]:
        return "%s: the server has %d answers, the deployed page says %r" % (name, len(us), b["message"])
    want, got = {seen(u, name) for u in us}, [seen(u, name) for u in b["shown"]]
    single = len(want) == len(us)                    # on a board of another puzzle type two answers may look the same
    if single and len(set(got)) != len(got):
        return "%s: the deployed page shows %d answers, only %d of them different" % (name, len(got), len(set(got)))
    if single and len(got) != min(10, len(want)):
        return "%s: the deployed page shows %d answers, the server has %d" % (name, len(got), len(want))
    if len(us) < 60 and not set(got) <= want:
        return "%s: %d of the %d answers the deployed page shows are none of the server's" % (name, len(set(got) - want), len(got))
    m = engine.load()["manager"]
    for model, u in list(zip(b["models"], b["shown"]))[:3]:
        random.seed(0)
        v = m.store_solution(m.prepare_puzzle(name, req["url"], dict(req["params"])), " ".join(model)).encode()
        if text(v) != text(u):
            return "%s: for the same model, the server makes another link than the deployed page" % name
    return None


def again(reqs, mods, rng):
    """the same boards solved again: with other options, with the first ones again, as another puzzle type"""
    out = []
    for q in reqs:
        out.append(q)
        ps = mods[q["solver"]].parameters if q["solver"] in mods else {}
        if ps and set(ps) == set(q["params"]) and rng.random() < 0.7:
            k = rng.choice(sorted(ps))
            v, p = q["params"][k], ps[k]
            if p["type"] == "checkbox":
                w = not v
            elif p["type"] == "select":
                w = rng.choice([x for x in p["default"] if x != v] or [v])
            elif p["type"] == "number":
                w = rng.choice([x for x in ("", "1", "2", "3", "7") if x != str(v)])
            else:
                w = str(v)[1:] + str(v)[:1]
            out.append(dict(q, params=dict(q["params"], **{k: w})))
            if rng.random() < 0.5:
                out.append(dict(q, params=dict(q["params"])))
        elif not ps and rng.random() < 0.06:
            other = rng.choice(sorted(t for t, m in mods.items() if t != q["solver"] and not m.parameters))
            out += [dict(q, solver=other, params={}), dict(q)]
    return out


def batch(d, name, seed, k, good, bad, examples=()):
    out = {"n": 0, "bad": [], "kinds": {}, "given_up": 0, "shown": 0, "programs": 0, "links": []}
    rng = random.Random("c16/%s/%s/%d" % (name, seed, k))
    s = load_all()[name] if name else None
    reqs = requests_of(s, rng, good) if s else []
    for q in list(reqs):
        for _ in range(bad):
            reqs.append((spoil if rng.random() < 0.35 else late)(q, rng))
    for solver, url, cfg in examples:
        p = {a: v["default"] if v["type"] != "select" else next(iter(v["default"])) for a, v in engine.load()["manager"].modules[solver].parameters.items()}
        reqs.append({"solver": solver, "url": url, "params": dict(p, **cfg)})
    mods = engine.load()["manager"].modules
    reqs = again(reqs, mods, rng)
    try:
        for q in reqs:
            if q["solver"] not in mods or "time_limit" in q or set(q["params"]) != set(mods[q["solver"]].parameters):
                continue
            try:
                for kk, v in mods[q["solver"]].parameters.items():
                    if v["type"] == "select" and q["params"][kk] not in v["default"]:
                        q["params"][kk] = next(iter(v["default"]))
                    if v["type"] == "checkbox" and not isinstance(q["params"][kk], bool):
                        q["params"][kk] = False
                    if v["type"] == "number" and not str(q["params"][kk]).lstrip("-").isdigit():
                        q["params"][kk] = ""
                q["params"] = as_page(q["params"])
            except (TypeError, KeyError):
                continue
            a = server_side(q, 60)
            b = page_side(d, q, rng)
            why = compare(q, a, b)
            out["n"] += 1
            out["kinds"][a[0]] = out["kinds"].get(a[0], 0) + 1
            if isinstance(b, dict):
                out["given_up"] += bool(b.get("given_up"))
                out["shown"] += len(b["shown"])
                out["programs"] += b["program"] is not None
            if len(out["links"]) < 2:
                out["links"].append({"type": q["solver"], "link": q["url"][:300], "outcome": a[0], "answers": len(a[1]) if a[0] == "answers" else a[1]})
            if why:
                out["bad"].append({"why": why, "request": q})
                break
    except Gone as e:
        close(d)
        out["gone"] = str(e)
    return out


def run(pid):
    chk = Check(pid)
    chk.rule = ("a board counts when both the server's code and the deployed page had an outcome for it and the two were compared; "
                "non-trivial: boards for which a rule program was made and run, or that were refused with a message")
    b = Built()
    if not b.ok():
        print("C16: inconclusive, the deployment cannot be built: %s" % b.out[-500:])
        b.close()
        raise SystemExit(2)
    try:
        py = Python(b.page)
        hello, absent = py.hello, py.absent
        py.close()
        if "error" in hello:
            chk.violate("the deployed Python does not start: %s" % hello["error"][-600:], {"absent": absent})
        elif hello["packages"] or hello["outside"]:
            chk.violate("the deployed Python loads %s" % (hello["packages"] or hello["outside"]), hello)
        if not chk.violations:
            go(chk, b)
        else:
            chk.evals = 1
    finally:
        b.close()
    chk.assumptions = ["the in-browser solver (clingo-wasm) does what the same version of the native one does with the same options",
                       "values cross between JavaScript and Python as Pyodide documents"]
    chk.finish(minimum=1)


def go(chk, b):
    q = chk.quick
    specs = sorted(load_all())
    jobs = []
    ex = [(n, u, c) for n, _, u, c in facts.examples() if n not in ("anglers", "symmarea")]
    for i in range(0, 16):
        jobs.append({"mod": "nx.checks.c16", "fn": "batch", "args": {"d": b.page, "name": None, "seed": chk.seed, "k": 0, "good": 0, "bad": 0, "examples": ex[i::16]}})
    for k in range(1 if q else 30):
        for n in specs:
            jobs.append({"mod": "nx.checks.c16", "fn": "batch", "args": {"d": b.page, "name": n, "seed": chk.seed, "k": k, "good": 3 if q else 6, "bad": 1}})
    kinds, given, shown, bad, per = {}, 0, 0, [], {}
    for job, res in chk.pool().run(jobs, chk.t0 + (60 if q else 800), limit=150):
        a = job["args"]
        if "lost" in res or "crash" in res or "gone" in res:
            chk.inconclusive.append("%s: %s" % (a["name"], res.get("lost") or res.get("gone") or res["crash"][-300:]))
            if "n" not in res:
                continue
        chk.evals += res["n"]
        chk.distinct += res["programs"] + res["kinds"].get("refused", 0)
        given += res["given_up"]
        shown += res["shown"]
        if a["name"]:
            per[a["name"]] = per.get(a["name"], 0) + res["n"]
        for k, v in res["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        for s in res["links"][:1]:
            chk.sample(s)
        bad += [(job, x) for x in res["bad"]]
    for job, x in bad[:8]:
        if chk.confirm(job, lambda r: bool(r.get("bad"))):
            chk.violate(x["why"], dict(x, job=job["args"]), key=x["request"]["solver"])
        else:
            chk.inconclusive.append("not seen again: " + x["why"][:200])
    chk.extra = {"outcomes": kinds, "given_up_and_tried_again": given, "answers_shown": shown, "rule_sets_reached": len(per), "fewest_per_rule_set": min(per.values(), default=0)}
