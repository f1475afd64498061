"""C12: the HTTP interface answers every request properly.

The real server runs in a scratch copy.  Eight clients send it, at the same time and in random order, well-formed boards of
every puzzle type, boards to be refused, damaged links, and bodies that are no requests at all; misbehaving clients break off,
send half a body or a wrong length in between.  Every response is parsed by hand and judged against what a direct call, in a
process of its own, makes of the same body.  A second server with a time limit of one second gets boards that take longer.
"""

import json
import os
import random
import signal
import socket
import threading
import time

from nx import engine, facts
from nx.check import Check
from nx.checks.c11 import late, spoil
from nx.penpa import text_to_url, url_to_text
from nx.server import Broken, Client, Server
from nx.specs import load_all

LIMIT = 60


# --- what a direct call makes of a body -----------------------------------------------------------------------------------

def drawn(url, name):
    """what a link shows, as text; a link that shows impossible things (from a damaged one) as it is"""
    try:
        return repr(sorted(facts.facts(url, hashi=name == "hashi"), key=repr))
    except Exception:
        return url


def call(body):
    """the outcome of a body (bytes), without HTTP: [status, detail or set of answers]"""
    nx = engine.load()
    nx["Config"].max_solutions_to_find, nx["Config"].time_limit = LIMIT, 4
    try:
        b = json.loads(body)
        us = nx["run_solver"](b["puzzle_name"], b["puzzle"], b["param"])["url"]
        return [200, sorted(drawn(u, b["puzzle_name"]) for u in us)]
    except TimeoutError:
        return [504, None]
    except ValueError as e:
        return [400, str(e)]
    except Exception as e:
        return [500, type(e).__name__]


def direct(bodies, alarm=6):
    """outcomes of many bodies, each in a forked process with a hard limit; None where there is none in time"""
    engine.load()
    out = []
    for body in bodies:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(alarm)
            data = json.dumps(call(body))
            with os.fdopen(w, "w") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out.append(json.loads(data))
        except ValueError:
            out.append(None)
    return out


# --- bodies -----------------------------------------------------------------------------------------------------------------

WORDS = ["", "x", " ", "\u0000", "\ud800", "é", "パズル", "'", '"', "\\", "{", "%s", "../..", "A" * 3000, "1", "-1", "?", "nan", "null", "#", ").", ":-."]


def rand_json(rng, depth=0):
    t = rng.randrange(9 if depth < 3 else 6)
    if t == 0:
        return rng.choice([None, True, False])
    if t == 1:
        return rng.choice([0, -1, 1, 10 ** 20, 2.5, 1e308, -0.0])
    if t <= 4:
        return rng.choice(WORDS)
    if t <= 6:
        return [rand_json(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(WORDS + ["puzzle_name", "puzzle", "param"]): rand_json(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def bad_body(req, rng):
    """a body that is no proper request"""
    body = {"puzzle_name": req["solver"], "puzzle": req["url"], "param": req["params"]}
    t = rng.randrange(12)
    if t == 0:
        return rng.choice([b"", b"null", b"[]", b"{}", b"1", b'"x"', b"true", b"{", b"NaN", b"[1,", b"\xff\xfe", b"\x00", b"\xef\xbb\xbf{}", b"{\"a\":1}x",
                           b"[" * 30000, b"{\"a\":" * 20000, b"-", b"1e999999", b"9" * 5000])
    if t == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randint(1, 200)))
    if t == 2:
        s = json.dumps(body).encode()
        return s[:rng.randrange(len(s))]
    if t == 3:
        s = bytearray(json.dumps(body).encode())
        for _ in range(rng.randint(1, 4)):
            s[rng.randrange(min(len(s), 120))] = rng.randrange(256)
        return bytes(s)
    if t == 4:
        del body[rng.choice(sorted(body))]
    elif t in (5, 6, 7):
        body[rng.choice(sorted(body))] = rand_json(rng)
    elif t == 8:
        body = rand_json(rng)
    elif t == 9:
        body["param"] = {k: rand_json(rng) for k in body["param"]} or rand_json(rng)
    elif t == 10:
        body["puzzle_name"] = rng.choice([body["puzzle_name"].upper(), body["puzzle_name"] + " ", "solver." + body["puzzle_name"], "modules", "__init__"])
    else:
        body.update({rng.choice(WORDS): rand_json(rng)})
    s = json.dumps(body)
    if rng.random() < 0.3:
        return json.dumps(body, ensure_ascii=False).encode("utf-8", "surrogatepass")
    if rng.random() < 0.1:
        return s.encode(rng.choice(["utf-16", "utf-32"]))
    return s.encode()


def broken_link(req, rng):
    """a link whose content was damaged: tokens of the drawing replaced, parts exchanged, text with odd characters"""
    q = dict(req)
    try:
        parts = url_to_text(req["url"]).split("\n")
        t = rng.randrange(7)
        if t == 0:
            i = rng.choice([1, 3, 4, 5])
            parts[i] = rng.choice(["", "{}", "[]", "null", "0", "{zR:{}}", '{"zN":5}', "{", "[[]]", '{zN:{"9":["1",1,"1"]}}', "x" * 50])
        elif t == 1:
            i = rng.choice([3, 4])
            # an odd word as number, symbol or style
            parts[i] = parts[i].replace('"circle_', '"' + json.dumps(rng.choice(WORDS))[1:-1] + "_", 1).replace('"1"', json.dumps(rng.choice(WORDS)), 1)
        elif t == 2:
            parts = parts[:rng.randrange(len(parts))]
        elif t == 3:
            i, j = rng.sample(range(1, min(8, len(parts))), 2)
            parts[i], parts[j] = parts[j], parts[i]
        elif t == 4:
            h = parts[0].split(",")
            i = rng.choice([0, 1, 2])
            h[i] = rng.choice(["", "x", "-3", "0", "2.5", "sudoku", "hex", "7"])
            parts[0] = ",".join(h)
        elif t == 5:
            parts[1] = rng.choice(["[1,1,1,1]", "[0,0]", "[9,9,9,9]", "[-1,0,0,0]", '["a",0,0,0]', "[0.5,0,0,0]"])
        else:
            i = rng.choice([3, 4])
            for _ in range(rng.randint(1, 3)):
                s = parts[i]
                k = rng.randrange(max(1, len(s)))
                parts[i] = s[:k] + rng.choice(["", ",", ":", "{", "}", "[", "]", "9", '"', "-", "z", "zN"]) + s[k + rng.randint(0, 1):]
        q["url"] = text_to_url("\n".join(parts))
    except Exception:
        q["url"] = req["url"][:40]
    return q


def odd_element(req, rng):
    """an element with an odd name or text, drawn properly"""
    from nx.penpa import parse
    q = dict(req)
    try:
        b = parse(req["url"])
        r, c = rng.randrange(b.rows), rng.randrange(b.cols)
        w = rng.choice(WORDS)
        t = rng.randrange(5)
        if t == 0:
            b.num(r, c, w, rng.choice(["1", "4", "2", w]))
        elif t == 1:
            b.sym(r, c, w, rng.choice([1, 2, "x", w, None]))
        elif t == 2:
            b.sym(r, c, rng.choice(["circle_L", "ox_E", "arrow_B_W"]), rng.choice([[], [1], [1, 1, 1, 1], "1", {}, -1, [w]]))
        elif t == 3:
            b.sud(r, c, rng.randrange(8), w)
        else:
            b.surf(r, c, rng.choice([0, 5, 99, "x", None]))
        q["url"] = b.url()
    except Exception:
        pass
    return q


def body_of(req):
    return json.dumps({"puzzle_name": req["solver"], "puzzle": req["url"], "param": req["params"]}).encode()


def batch(name, seed, k, good, bad):
    """bodies with their outcomes: boards of one rule set, and spoilt relatives of them"""
    from nx.checks.c11 import requests_of
    rng = random.Random("c12/%s/%s/%d" % (name, seed, k))
    reqs = requests_of(load_all()[name], rng, good)
    items = [("board", body_of(q)) for q in reqs]
    for _ in range(bad if reqs else 0):
        q = rng.choice(reqs)
        kind = rng.choice(["refused", "spoilt", "damaged", "odd", "odd", "garbage", "garbage"])
        body = (bad_body(q, rng) if kind == "garbage" else body_of(
            {"refused": late, "spoilt": spoil, "damaged": broken_link, "odd": odd_element}[kind](q, rng)))
        items.append((kind, body))
    outs = direct([b for _, b in items])
    return {"items": [(kind, b.hex(), o) for (kind, b), o in zip(items, outs)]}


def examples(first, step):
    """the boards the repository ships"""
    items = []
    for solver, i, url, cfg in facts.examples()[first::step]:
        if solver not in ("anglers", "symmarea"):
            p = {a: v["default"] for a, v in engine.load()["manager"].modules[solver].parameters.items()}
            items.append(body_of({"solver": solver, "url": url, "params": dict(p, **cfg)}))
    return {"items": [("board", b.hex(), o) for b, o in zip(items, direct(items))]}


# --- judging a response -----------------------------------------------------------------------------------------------------

NOISE = ("Traceback", 'File "', "/repo", "/verif", "Error(", "site-packages")


def judge(kind, body, want, status, headers, data):
    """None, or what is wrong with the response"""
    if not headers.get("content-type", "").startswith("application/json"):
        return "status %d with %s content: %r" % (status, headers.get("content-type"), data[:200])
    try:
        j = json.loads(data.decode("utf-8"))
    except ValueError:
        return "status %d, and the content is not JSON: %r" % (status, data[:200])
    if status not in (200, 400, 500, 504):
        return "status %d: %r" % (status, data[:200])
    if status == 200:
        if not (isinstance(j, dict) and isinstance(j.get("url"), list) and all(isinstance(u, str) for u in j["url"])):
            return "200 without a list of links: %r" % data[:200]
        if want[0] != 200:
            return "answered with %d links, but a direct call ends with %s" % (len(j["url"]), want)
        name = json.loads(body)["puzzle_name"]
        got = sorted(drawn(u, name) for u in j["url"])
        if len(want[1]) < LIMIT and (len(got) != min(10, len(want[1])) or not set(got) <= set(want[1])):
            return "%d links, of which %d are answers of this board (it has %d)" % (len(got), len(set(got) & set(want[1])), len(want[1]))
        return None
    d = j.get("detail") if isinstance(j, dict) else None
    if not isinstance(d, str) or not d.strip():
        return "status %d without a reason: %r" % (status, data[:200])
    if want[0] != status:
        return "status %d (%s), but a direct call ends with %s" % (status, d[:200], str(want)[:300])
    if status == 400 and d != want[1] and want[1] == want[1].encode("utf-8", "replace").decode():
        return "refused with %r instead of %r" % (d[:200], want[1][:200])
    if status == 500 and any(x in d for x in NOISE):
        return "500 with inner details: %r" % d[:200]
    return None


# --- the traffic ------------------------------------------------------------------------------------------------------------

def rude(port, rng, body):
    """a client that does not behave"""
    t = rng.randrange(7)
    try:
        s = socket.create_connection(("127.0.0.1", port), 10)
        s.settimeout(10)
        head = b"POST /api/solve/ HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n"
        if t == 0:
            pass
        elif t == 1:
            s.sendall(head + b"Content-Length: %d\r\n\r\n" % (len(body) + 500) + body)
        elif t == 2:
            s.sendall(head + b"Content-Length: %d\r\n\r\n" % len(body) + body[:len(body) // 2])
        elif t == 3:
            s.sendall(head + b"Content-Length: %d\r\n\r\n" % len(body) + body)     # does not wait for the answer
        elif t == 4:
            s.sendall(b"\x16\x03\x01\x00" + bytes(rng.randrange(256) for _ in range(60)))
        elif t == 5:
            s.sendall(head + b"Transfer-Encoding: chunked\r\n\r\nzz\r\n")
        else:
            s.sendall(head + b"Content-Length: %d\r\n\r\n" % (len(body) + 9) + body)
            s.shutdown(socket.SHUT_WR)
        time.sleep(rng.choice([0, 0, 0.02]))
        if rng.random() < 0.5:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\x00\x00\x00\x00\x00\x00\x00")      # breaks off with a reset
        s.close()
    except OSError:
        pass
    return t


def traffic(server, items, seed, end, clients=8, rudeness=0.06, mixed=True):
    """send all the items through several clients; returns (failures, statistics)"""
    lock = threading.Lock()
    todo = list(enumerate(items))
    if mixed:
        random.Random("c12/order/%s" % seed).shuffle(todo)
    fails, stat = [], {"sent": 0, "status": {}, "kinds": {}, "rude": 0, "reused": 0, "overlap": 0}
    busy = [0]

    def work(n):
        rng = random.Random("c12/client/%s/%d" % (seed, n))
        cl = None
        while time.time() < end and server.alive():
            with lock:
                if not todo or len(fails) > 12:
                    break
                i, (kind, body, want) = todo.pop()
                busy[0] += 1
                stat["overlap"] += busy[0] > 1
            if rng.random() < rudeness:
                rude(server.port, rng, body)
                with lock:
                    stat["rude"] += 1
            try:
                if cl is None:
                    cl = Client(server.port)
                else:
                    with lock:
                        stat["reused"] += 1
                close = rng.random() < 0.4
                st, h, data = cl.ask(body, close=close, chunked=rng.random() < 0.1, pause=0.02 if rng.random() < 0.1 else None,
                                     ctype=rng.choice(["application/json", "application/json", "text/plain"]))
                why = judge(kind, body, want, st, h, data)
                with lock:
                    stat["sent"] += 1
                    stat["status"][str(st)] = stat["status"].get(str(st), 0) + 1
                    stat["kinds"][kind] = stat["kinds"].get(kind, 0) + 1
                if close or h.get("connection", "").lower() == "close":
                    cl.close()
                    cl = None
            except (Broken, OSError) as e:
                why, st = str(e), 0
                if cl is not None:
                    cl.close()
                cl = None
            except Exception as e:                       # a response that cannot be taken apart
                why, st = "the response cannot be read: %r" % e, 0
                cl = None
            with lock:
                busy[0] -= 1
                if why:
                    fails.append((i, kind, body, want, why))
        if cl is not None:
            cl.close()
    ts = [threading.Thread(target=work, args=(n,)) for n in range(clients)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return fails, stat


def again(server, body, want, kind):
    """ask once more, alone"""
    try:
        cl = Client(server.port)
        try:
            return judge(kind, body, want, *cl.ask(body, close=True))
        finally:
            cl.close()
    except (Broken, OSError) as e:
        return str(e)


HARD = None


def hard_bodies():
    """boards that take much longer than a second: a large empty board with many ways, and one that needs search"""
    from nx.penpa import Board
    out = []
    b = Board(17, 17)
    for r, c, v in ((1, 1, 9), (4, 12, 14), (9, 3, 11), (15, 15, 7), (8, 8, 13), (12, 5, 10), (3, 6, 12), (14, 9, 8), (6, 15, 9)):
        b.sym(r, c, "circle_L", 1)
        b.num(r, c, str(v))
    out.append(json.dumps({"puzzle_name": "kurotto", "puzzle": b.url(), "param": {}}).encode())
    return out


def slow_round(chk, items, seed):
    """a server with a limit of one second: boards that take longer, in between boards that do not"""
    srv = Server(["-tl", "1"])
    fails = []
    got504 = answered = 0
    try:
        if not srv.alive():
            chk.inconclusive.append("the server with a time limit does not start: " + srv.tail(300))
            return fails, {}
        easy = [x for x in items if x[0] == "board" and x[2] and x[2][0] == 200][:12]
        for body in hard_bodies():
            res = []

            def one(kind, bd, want):
                try:
                    cl = Client(srv.port, 40)
                    t0 = time.time()
                    st, h, data = cl.ask(bd, close=True)
                    res.append((kind, bd, want, st, h, data, time.time() - t0))
                    cl.close()
                except (Broken, OSError) as e:
                    res.append((kind, bd, want, 0, {}, str(e).encode(), 0))
            ts = [threading.Thread(target=one, args=("slow", body, [504, None]))]
            ts += [threading.Thread(target=one, args=x) for x in easy[:6]]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for kind, bd, want, st, h, data, dt in res:
                if st == 0:
                    fails.append((kind, bd, want, "beside a board that takes too long: " + data.decode()))
                elif kind == "slow":
                    if st == 504:
                        got504 += 1
                    why = judge(kind, bd, [504, ""], st, h, data)
                    if st == 200:
                        why = "a board that takes much longer than the limit was answered"
                    if why:
                        fails.append((kind, bd, want, why))
                else:
                    answered += 1
                    if st == 504:                        # an easy board may be slow on a loaded machine
                        continue
                    why = judge(kind, bd, want, st, h, data)
                    if why:
                        fails.append((kind, bd, want, "beside a board that takes too long: " + why))
        for kind, bd, want in easy[6:]:
            why = again(srv, bd, want, kind)
            if why and "504" not in why:
                fails.append((kind, bd, want, "after a board that takes too long: " + why))
            answered += 1
        if not srv.alive():
            fails.append(("slow", b"", None, "the server ended: " + srv.tail(300)))
    finally:
        srv.stop()
    return fails, {"timeouts": got504, "answered_beside": answered}


def run(pid):
    chk = Check(pid)
    specs = load_all()
    q = chk.quick
    jobs = [{"mod": "nx.checks.c12", "fn": "batch", "args": {"name": n, "seed": chk.seed, "k": k, "good": 3, "bad": 9 if q else 30}}
            for k in range(1 if q else 12) for n in sorted(specs)]
    items, none = [], 0
    for job, res in chk.pool().run(jobs, chk.t0 + (60 if q else 420), limit=120):
        if "lost" in res or "crash" in res:
            chk.inconclusive.append("%s: %s" % (job["args"]["name"], res.get("lost") or res["crash"][-300:]))
            continue
        for kind, body, want in res["items"]:
            if want is None or want[0] == 504:
                none += 1
                continue
            items.append((kind, bytes.fromhex(body), want))
    for job, res in chk.pool().run([{"mod": "nx.checks.c12", "fn": "examples", "args": {"first": k, "step": 24}} for k in range(24)],
                                   chk.t0 + (100 if q else 500), limit=120):
        items += [(kind, bytes.fromhex(body), want) for kind, body, want in res.get("items", ()) if want and want[0] != 504]
    chk.pool().close()
    server = Server()
    fails, stat = [], {}
    try:
        if not server.alive():
            chk.violate("the server does not start: " + server.tail(600), {"log": server.tail()}, key="start")
            chk.finish(0)
        fails, stat = traffic(server, items, chk.seed, time.time() + (70 if q else 400))
        # requests about the same puzzle type at the same time: their boards must not get mixed up
        same = sorted((x for x in items if x[0] == "board" and x[2][0] == 200), key=lambda x: (json.loads(x[1])["puzzle_name"], x[1]))
        n0 = len(items)
        items = items + same
        if not fails:
            more, stat2 = traffic(server, same, chk.seed, time.time() + (40 if q else 200), rudeness=0, mixed=False)
            fails += [(n0 + i, *x) for i, *x in more]
            for k in ("sent", "reused", "overlap"):
                stat[k] += stat2[k]
            stat["same_type_rounds"] = stat2["sent"]
        if not server.alive():
            chk.violate("the server ended under ordinary traffic: " + server.tail(600), {"log": server.tail()}, key="ended")
        else:
            for i, kind, body, want, why in fails[:8]:
                alone = again(server, body, want, kind)
                near = items[max(0, i - 15):i + 15]
                second = alone or next((w for k in range(4) for *_, w in traffic(
                    server, near + [(kind, body, want)] * 3, "%s/%d" % (chk.seed, k), time.time() + 60, mixed=k % 2 == 1)[0]), None)
                if second:
                    chk.violate("%s request: %s" % (kind, why), {"body": body.decode("utf-8", "backslashreplace"), "want": str(want)[:2000],
                                                               "alone": alone, "in traffic": why}, key=kind)
                else:
                    chk.inconclusive.append("not reproduced: " + why)
            if not server.alive():
                chk.violate("the server ended: " + server.tail(600), {"log": server.tail()}, key="ended")
    finally:
        server.stop()
    slow_fails, slow = slow_round(chk, items, chk.seed)
    if slow_fails:
        second, _ = slow_round(chk, items, chk.seed)
        if second:
            for kind, body, want, why in slow_fails[:4]:
                chk.violate(why, {"body": body.decode("utf-8", "backslashreplace"), "server": "-tl 1"}, key="slow")
        else:
            chk.inconclusive.append("not reproduced: " + slow_fails[0][3])
    chk.evals = stat.get("sent", 0) + sum(slow.values())
    chk.distinct = stat.get("sent", 0)
    for it in items[:200:50]:
        chk.sample({"kind": it[0], "body": it[1][:160].decode("utf-8", "replace"), "outcome": str(it[2])[:160]})
    chk.rule = "responses of the real server, one per request; non-trivial = every response (each is compared with a direct call of the same body)"
    chk.extra = {"responses_by_status": stat.get("status"), "requests_by_kind": stat.get("kinds"), "misbehaving_clients": stat.get("rude"),
                 "requests_on_a_used_connection": stat.get("reused"), "requests_while_others_were_open": stat.get("overlap"), "slow_round": slow,
                 "requests_beside_others_of_the_same_type": stat.get("same_type_rounds"),
                 "left_out_because_slow": none}
    chk.assumptions = ["bodies whose direct call takes more than four seconds are not sent", "HTTP framing itself is the work of uvicorn"]
    chk.finish(200)
