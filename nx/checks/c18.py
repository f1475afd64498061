"""C18: the puzzle list tells the truth about every puzzle type.

The metadata the page is given is judged entry by entry; the page itself is opened, in both builds, and every type, example and
option is chosen on it; every shipped example is solved with its own options, and boards of every type with options are solved
with every value its options offer, as the page sends them.
"""

import json
import os
import random
import re
import time

from nx import engine, facts
from nx.check import Check
from nx.checks.c09 import UNSTABLE
from nx.checks.c11 import requests_of
from nx.checks.c24 import Bad, Model, metadata
from nx.page import Built, Gone, Page, Python
from nx.penpa import View, parse
from nx.specs import load_all

KINDS = ("checkbox", "number", "text", "select")


def flat(s):
    return re.sub(r"[\s_\-]+", "", s).casefold()


def legal(p, v):
    """is v a value that the option p can have on the page?"""
    if p["type"] == "checkbox":
        return isinstance(v, bool)
    if p["type"] == "number":
        return not isinstance(v, bool) and (v == "" or str(v).isdigit())
    if p["type"] == "select":
        return v in p["default"]
    return isinstance(v, str)


def entry_faults(meta, names):
    """faults of the listing itself"""
    out = []
    for n in sorted(set(names) - set(meta)):
        out.append((n, "puzzle type %s is not listed" % n))
    for n in sorted(set(meta) - set(names)):
        out.append((n, "the list names %s, which is no puzzle type" % n))
    words = {}
    for n, m in sorted(meta.items()):
        for w in {flat(x) for x in [n, m.get("name") or ""] + list(m.get("aliases") or [])}:
            words.setdefault(w, []).append(n)
    for w, ns in sorted(words.items()):
        if len(ns) > 1:
            out.append((ns[0], "%r stands for the types %s" % (w, ns)))
    for n, m in sorted(meta.items()):
        if not (isinstance(m.get("name"), str) and m["name"].strip()) or m["name"] == "Unknown":
            out.append((n, "type %s has no name" % n))
        if not (isinstance(m.get("aliases"), list) and all(isinstance(a, str) and a.strip() for a in m["aliases"])):
            out.append((n, "the aliases of %s are no list of words: %r" % (n, m.get("aliases"))))
        if not m.get("examples"):
            out.append((n, "type %s has no example" % n))
        for k, p in m["parameters"].items():
            if not (isinstance(p, dict) and p.get("type") in KINDS and isinstance(p.get("name"), str) and p["name"].strip() and "default" in p):
                out.append((n, "option %s of %s is not described: %r" % (k, n, p)))
                continue
            if p["type"] == "select":
                if not (isinstance(p["default"], dict) and p["default"] and all(isinstance(a, str) and isinstance(b, str) and b for a, b in p["default"].items())):
                    out.append((n, "option %s of %s offers no choices: %r" % (k, n, p["default"])))
            elif not legal(p, p["default"]):
                out.append((n, "option %s of %s has the default %r" % (k, n, p["default"])))
        for i, e in enumerate(m["examples"]):
            if ("data" in e) == ("url" in e):
                out.append((n, "example %d of %s has %s" % (i, n, "two boards" if "data" in e else "no board")))
            if "url" in e:
                g = re.match(r"https?://[^/]+/p(?:\.html)?\?([\w\-]+)/(?:v:/)?\d+/\d+/\S+$", e["url"])
                if not g:
                    out.append((n, "example %d of %s is no link: %r" % (i, n, e["url"][:100])))
                elif flat(g.group(1)) not in words or n not in words[flat(g.group(1))]:
                    out.append((n, "example %d of %s is a board of type %s" % (i, n, g.group(1))))
            for k, v in (e.get("config") or {}).items():
                if k not in m["parameters"]:
                    out.append((n, "example %d of %s sets the option %s, which there is not" % (i, n, k)))
                elif not legal(m["parameters"][k], v):
                    out.append((n, "example %d of %s sets the option %s to %r" % (i, n, k, v)))
    return out


def listing():
    """the listing, and the solvers there are"""
    nx = engine.load()
    names = [x[:-3] for x in os.listdir(os.path.join(engine.REPO, "solver")) if x.endswith(".py") and not x.startswith("_")]
    meta = json.loads(json.dumps(nx["manager"].list_solver_metadata()))
    return {"faults": entry_faults(meta, names), "types": len(meta), "examples": sum(len(m["examples"]) for m in meta.values()),
            "options": sum(len(m["parameters"]) for m in meta.values())}


def sent(params):
    return {k: v if isinstance(v, bool) else str(v) for k, v in params.items()}


def defaults(mod):
    return {k: next(iter(p["default"])) if p["type"] == "select" else p["default"] for k, p in mod.parameters.items()}


def outcome(name, url, params, limit=10, tl=25):
    nx = engine.load()
    nx["Config"].max_solutions_to_find, nx["Config"].time_limit = limit, tl
    try:
        us = nx["run_solver"](name, url, dict(params))["url"]
        return ["answers", us]
    except TimeoutError:
        return ["timeout", None]
    except ValueError as e:
        return ["refused", str(e)]
    except Exception as e:
        return ["error", "%s: %s" % (type(e).__name__, e)]


def example(name, i, tl):
    """solve one shipped example with its own options, as the page sends them"""
    mod = engine.load()["manager"].modules[name]
    e = mod.examples[i]
    try:
        b = parse(e["data"])
        View(b)
    except Exception as x:
        return {"bad": "example %d of %s does not open as a board: %s" % (i, name, x)}
    if e["data"].startswith("m=edit&p=") is False:
        return {"bad": "example %d of %s is no link of a board" % (i, name)}
    p = sent(dict(defaults(mod), **(e.get("config") or {})))
    k, v = outcome(name, e["data"], p, 10, tl)
    if k == "timeout":
        return {"slow": True}
    if k != "answers":
        return {"bad": "example %d of %s ends with %s" % (i, name, v)}
    if len(v) != 1:
        return {"bad": "example %d of %s has %s answers" % (i, name, "10 or more" if len(v) >= 10 else len(v))}
    if name in UNSTABLE:
        return {"ok": True}
    # what the answer shows is an answer: drawn on the board, it is still the only one
    f = facts.facts(v[0], hashi=name == "hashi")
    k2, v2 = outcome(name, v[0], p, 10, tl)
    if k2 == "answers" and (len(v2) != 1 or facts.facts(v2[0], hashi=name == "hashi") != f):
        return {"bad": "the answer of example %d of %s, solved again, gives %d answers" % (i, name, len(v2))}
    if k2 in ("refused", "error"):
        return {"bad": "the answer of example %d of %s, solved again, ends with %s" % (i, name, v2)}
    return {"ok": True}


def settings(p, rng, mod):
    """values of an option to try"""
    if p["type"] == "checkbox":
        return [True, False]
    if p["type"] == "select":
        return list(p["default"])
    if p["type"] == "number":
        return [p["default"], rng.randint(1, 6), rng.randint(2, 20)]
    return [p["default"], rng.choice(["AB", "ABCD", "xyz"])]


def options(names, seed, k, n):
    """boards of one type with every value of every option"""
    out = {"n": 0, "bad": [], "kinds": {}, "took": {}, "moved": []}
    rng = random.Random("c18/%s/%s/%d" % (names[0], seed, k))
    specs = load_all()
    reqs = []
    for x in names:
        reqs += requests_of(specs[x], rng, n)
    name = specs[names[0]].solver
    mod = engine.load()["manager"].modules[name]
    for e in mod.examples:
        if "data" in e and k == 0:
            reqs.append({"solver": name, "url": e["data"], "params": dict(defaults(mod), **(e.get("config") or {}))})
    m = engine.load()["manager"]
    for q in reqs:
        base = dict(defaults(mod), **{a: b for a, b in q["params"].items() if not isinstance(b, dict)})
        for a, p in mod.parameters.items():
            progs = set()
            for v in settings(p, rng, mod):
                prm = sent(dict(base, **{a: v}))
                kd, res = outcome(name, q["url"], prm, 3, 5)
                out["n"] += 1
                out["kinds"][kd] = out["kinds"].get(kd, 0) + 1
                key = "%s=%s" % (a, v if p["type"] in ("checkbox", "select") else "default" if v == p["default"] else "other")
                t = out["took"].setdefault(key, [0, 0])
                t[kd in ("answers", "timeout")] += 1
                if kd == "error":
                    out["bad"].append({"why": "%s with option %s = %r ends with an internal error (%s)" % (name, a, v, res), "board": q["url"], "params": prm})
                    return out
                try:
                    random.seed(0)
                    progs.add(m.generate_program(m.prepare_puzzle(name, q["url"], prm)))
                except Exception:
                    progs.add("refused")
            if len(progs) > 1 and a not in out["moved"]:
                out["moved"].append(a)
    return out


def page_tour(d, deploy):
    """choose everything the page offers"""
    py = Python(d) if deploy else None
    pg = Page(d, py)
    meta = metadata(d)
    n = 0
    try:
        if [e for e in pg.start_events if e["ev"] in ("error", "unhandled")]:
            return "the page does not start: %s" % pg.start_events, 0
        lst = [x for x in pg.do("types")["r"]["list"] if x["value"]]
        vals = [x["value"] for x in lst]
        if sorted(vals) != sorted(meta):
            return "the page offers %s" % sorted(set(vals) ^ set(meta) or [v for v in vals if vals.count(v) > 1])[:4], 0
        for x in lst:
            e = meta[x["value"]]
            if x["label"] != e["name"] or sorted(x.get("aliases") or []) != sorted(e["aliases"]):
                return "the page offers %s as %r with aliases %r" % (x["value"], x["label"], x.get("aliases")), 0
            if not x.get("group") or "unknown" in x["group"].lower():
                return "the page offers %s under %r" % (x["value"], x.get("group")), 0
        m = Model(pg, meta, random.Random(0))
        for t in vals:
            m.pick_type(t)
            o = pg.do("click", id="rules")
            url = [e["url"] for e in o["events"] if e["ev"] == "open"]
            if len(url) != 1 or flat(url[0].split("?")[-1]) != flat(t):
                return "the rules of %s are opened as %s" % (t, url), n
            for i in range(len(meta[t]["examples"])):
                m.pick_example(i)
                n += 1
        return None, n
    except Bad as e:
        return str(e), n
    finally:
        pg.close()
        if py:
            py.close()


def run(pid):
    chk = Check(pid)
    chk.rule = ("a listing entry, an example that was solved, a type or example chosen on the page, or a board solved with one value of an option counts; "
                "non-trivial: examples solved to one answer and boards with an option set that were answered")
    q = chk.quick
    specs = load_all()
    by = {}
    for n, s in specs.items():
        by.setdefault(s.solver, []).append(n)
    mods = engine.load()["manager"].modules
    jobs = [{"mod": "nx.checks.c18", "fn": "listing", "args": {}}]
    for n, m in sorted(mods.items()):
        for i, e in enumerate(m.examples):
            if "data" in e:
                jobs.append({"mod": "nx.checks.c18", "fn": "example", "args": {"name": n, "i": i, "tl": 25 if q else 120}})
    for k in range(2 if q else 40):
        for sv, ns in sorted(by.items()):
            if mods.get(sv) is not None and mods[sv].parameters:
                jobs.append({"mod": "nx.checks.c18", "fn": "options", "args": {"names": sorted(ns), "seed": chk.seed, "k": k, "n": 2 if q else 3}})
    took, moved, kinds, single, slow, bad = {}, {}, {}, 0, [], []
    b = Built()
    try:
        if b.ok():
            for d, deploy in ((b.source, False), (b.page, True)):
                try:
                    why, n = page_tour(d, deploy)
                except Gone as e:
                    chk.inconclusive.append(str(e))
                    continue
                chk.evals += n
                if why:
                    chk.violate("%s page: %s" % ("deployed" if deploy else "server", why), {"deploy": deploy})
        else:
            chk.inconclusive.append("the page cannot be prepared: " + b.out[-300:])
    finally:
        b.close()
    for job, res in chk.pool().run(jobs, chk.t0 + (60 if q else 800), limit=170):
        a, fn = job["args"], job["fn"]
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s %s: %s" % (fn, a, res.get("lost") or res["crash"][-300:]))
            continue
        if fn == "listing":
            chk.evals += res["types"] + res["examples"] + res["options"]
            chk.sample({k: v for k, v in res.items() if k != "faults"})
            for n, why in res["faults"][:10]:
                chk.violate(why, {"type": n}, key=n)
        elif fn == "example":
            chk.evals += 1
            if res.get("slow"):
                slow.append("%s %d" % (a["name"], a["i"]))
            elif res.get("ok"):
                single += 1
            else:
                bad.append((job, res["bad"], a["name"], {}))
        else:
            chk.evals += res["n"]
            for k, v in res["kinds"].items():
                kinds[k] = kinds.get(k, 0) + v
            sv = specs[a["names"][0]].solver
            for k, (no, yes) in res["took"].items():
                t = took.setdefault("%s %s" % (sv, k), [0, 0])
                t[0] += no
                t[1] += yes
            for k in res["moved"]:
                moved["%s %s" % (sv, k)] = True
            for x in res["bad"]:
                bad.append((job, x["why"], sv, x))
    for job, why, key, x in bad[:10]:
        if chk.confirm(job, lambda r: bool(r.get("bad"))):
            chk.violate(why, dict(x, job=job["args"]), key=key)
    for k, (no, yes) in sorted(took.items()):
        if yes == 0 and not k.endswith("=other") and no >= 3:
            chk.violate("no board is accepted with %s (%d tried)" % (k, no), {"option": k}, key=k)
    silent = sorted("%s %s" % (n, p) for n, m in mods.items() for p in m.parameters if n in by and "%s %s" % (n, p) not in moved)
    for k in silent:
        if any(t.startswith(k + "=") and sum(v) >= 3 for t, v in took.items()):
            chk.violate("option %s makes no difference to the rule program of any board tried" % k, {"option": k}, key=k)
    chk.distinct = single + kinds.get("answers", 0)
    chk.extra = {"examples_with_one_answer": single, "examples_too_slow": slow, "option_outcomes": kinds, "options_with_effect": len(moved),
                 "option_values_accepted": sum(1 for v in took.values() if v[1])}
    chk.assumptions = ["examples given as links of another site cannot be opened here (their reading is part of the drawing library)",
                       "the search field and the select boxes (Choices) do as their documentation says"]
    chk.finish(minimum=300)
