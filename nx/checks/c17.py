"""C17: the deployment bundle is complete, and building it is harmless.

In scratch copies of the repository, random histories of builds, server starts (also several at once, and killed), builds that
are interrupted at a random line, leftovers of earlier builds, and edits of the sources (a new puzzle type, a new rule file, a
type taken away) are run.  After every step each source file is compared with what it was; after every completed build the bundle
is compared, file by file, with the sources as they are then, its listing with its files, its metadata with the solvers; moved
away from the repository it is opened in a small browser and solves a board.  A server that runs meanwhile is asked for its page
all the time.
"""

import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from nx.check import Check
from nx.checks.c16 import wasm
from nx.checks.c24 import metadata
from nx.page import Gone, Html, Page, Python, run_main
from nx.pool import PY
from nx.server import Broken, Client, Server, free_port, scratch_copy

MADE = ("dist", "pyscript.json", os.path.join("penpa-edit", "solver_metadata.js"))
SWITCH = "ENABLE_DEPLOYMENT = %s"

INTERRUPT = """
import os, runpy, sys
n, real = int(sys.argv[1]), os.path.realpath("main.py")
sys.argv = ["main.py", "-D"]
sys.path.insert(0, os.getcwd())
count = 0
def trace(frame, event, arg):
    global count
    if os.path.realpath(frame.f_code.co_filename) != real:
        return None
    if event == "line":
        count += 1
        if count == n:
            sys.settrace(None)
            raise KeyboardInterrupt
    return trace
sys.settrace(trace)
try:
    runpy.run_path("main.py", run_name="__main__")
except KeyboardInterrupt:
    sys.exit(99)
except SystemExit:
    pass
sys.settrace(None)
print("LINES", count)
"""


def files_of(d, skip=()):
    out = {}
    for root, dirs, names in os.walk(d):
        rel = os.path.relpath(root, d)
        dirs[:] = [x for x in dirs if x != "__pycache__" and os.path.normpath(os.path.join(rel, x)) not in skip]
        for n in names:
            p = os.path.normpath(os.path.join(rel, n))
            if p in skip:
                continue
            with open(os.path.join(root, n), "rb") as f:
                out[p] = f.read()
    return out


def sources(repo):
    return files_of(repo, MADE)


def digest(b):
    return hashlib.sha1(b).hexdigest()[:12]


def source_change(before, repo):
    after = sources(repo)
    if before == after:
        return None
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    k = diff[0]
    return "the source file %s %s" % (k, "is new" if k not in before else "is gone" if k not in after else "is empty now" if not after[k] else
                                      "is changed (%s)" % [x for x in after[k].decode(errors="replace").split("\n") if x.encode() not in before[k]][:2])


def solver_names(src):
    out = set()
    for p in src:
        a = p.split(os.sep)
        if a[0] == "solver" and len(a) == 2 and a[1].endswith(".py") and not a[1].startswith("_"):
            out.add(a[1][:-3])
    return out


def bundle_fault(repo):
    """None, or what is wrong with the bundle as compared with the sources"""
    src = sources(repo)
    d = os.path.join(repo, "dist", "page")
    if not os.path.isdir(d):
        return "no bundle was made"
    got = files_of(d)
    page = "penpa-edit"
    want = {"index.html": src["index.html"], os.path.join(page, "main_deploy.py"): src["main_deploy.py"]}
    py = set()
    for p, data in src.items():
        top = p.split(os.sep)[0]
        if top == page:
            want[p] = data
        elif top in ("noqx", "solver") and p.endswith(".py"):
            py.add(os.path.join(page, p))
            want[os.path.join(page, p)] = data
    server_only = os.path.join(page, "noqx", "clingo.py")
    switch = os.path.join(page, "prepare_deployment.js")
    for p, data in sorted(want.items()):
        if p == server_only and p not in got:
            continue
        if p not in got:
            return "%s is not in the bundle" % p
        if p == switch:
            a, b = data.decode(), got[p].decode(errors="replace")
            if b != a.replace(SWITCH % "false", SWITCH % "true") or SWITCH % "true" not in b:
                return "the bundle's page is not switched to deployment, or changed otherwise: %r" % b[:120]
        elif got[p] != data:
            return "%s in the bundle differs from the source (%d and %d bytes)" % (p, len(got[p]), len(data))
    made = {os.path.join(page, "pyscript.json"), os.path.join(page, "solver_metadata.js")}
    for p in sorted(made):
        if p not in got:
            return "%s is not in the bundle" % p
    extra = sorted(p for p in got if p not in want and p not in made)
    if [p for p in extra if p.endswith((".py", ".js", ".json", ".html"))]:
        return "the bundle holds %s, which is nowhere in the sources" % extra[:3]
    try:
        listing = json.loads(got[os.path.join(page, "pyscript.json")])["files"]
    except (ValueError, KeyError) as e:
        return "the listing for loading cannot be read: %r" % e
    named = {os.path.normpath(os.path.join(page, a)): os.path.normpath(b) for a, b in listing.items()}
    for p in sorted(py - {server_only}):
        if p not in named:
            return "%s is not listed for loading" % p
        if os.path.join(page, named[p]) != p:
            return "%s is loaded as %s" % (p, named[p])
    for p in sorted(named):
        if p not in got:
            return "%s is listed for loading but not in the bundle" % p
    try:
        meta = metadata(os.path.join(d, page))
    except ValueError as e:
        return "the metadata cannot be read: %s" % e
    if set(meta) != solver_names(src):
        a, b = solver_names(src), set(meta)
        return "the metadata lists %s too many and leaves out %s" % (sorted(b - a)[:3], sorted(a - b)[:3])
    h = Html()
    h.feed(got[os.path.join(page, "index.html")].decode())
    for m in h.made:
        for k in ("src", "href"):
            v = m["attrs"].get(k)
            if v and v.startswith("./") and os.path.normpath(os.path.join(page, v)) not in got:
                return "the page refers to %s, which is not in the bundle" % v
    return None


def true_metadata(repo):
    """what the solvers say about themselves, asked in a process of its own"""
    code = ("import json,sys;sys.path.insert(0,'.')\nfrom noqx.manager import load_solvers,list_solver_metadata\nload_solvers('solver')\n"
            "print(json.dumps(list_solver_metadata()))")
    p = subprocess.run([PY, "-B", "-c", code], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False, timeout=60)
    try:
        return json.loads(p.stdout)
    except ValueError:
        return None


def moved_fault(repo, rng):
    """move the bundle away from the repository, open it and solve a board; None or what is wrong"""
    meta = true_metadata(repo)
    tmp = os.path.join(os.path.dirname(repo), "moved-%d" % rng.randrange(10 ** 9))
    away = os.path.join(os.path.dirname(repo), "hidden-%d" % rng.randrange(10 ** 9))
    shutil.copytree(os.path.join(repo, "dist", "page"), tmp)
    os.rename(repo, away)                                 # the repository is gone
    py = pg = None
    try:
        d = os.path.join(tmp, "penpa-edit")
        py = Python(d, fs=os.path.join(tmp, "fs"))
        if "error" in py.hello:
            return "the bundle's Python does not start: %s" % py.hello["error"][-400:]
        if py.hello["packages"] or py.hello["outside"]:
            return "the bundle's Python loads %s" % (py.hello["packages"] or py.hello["outside"])
        if meta is not None and set(py.hello["types"]) != set(meta):
            return "the bundle's Python knows %d types, the sources have %d" % (len(py.hello["types"]), len(meta))
        if meta is not None and metadata(d) != meta:
            return "the bundle's metadata differs from what the solvers say"
        pg = Page(d, py)
        bad = [e for e in pg.start_events if e["ev"] in ("error", "unhandled")]
        if bad:
            return "the bundle's page does not start: %s" % bad[0]["what"]
        srcs = [a.get("src") for a in pg.added]
        for a in pg.added:
            for v in (a.get("src"), a.get("config")):
                if v and v.startswith("./") and not os.path.exists(os.path.join(d, v)):
                    return "the bundle's page loads %s, which is not in the bundle" % v
        if not any(s and s.endswith("main_deploy.py") for s in srcs):
            return "the bundle's page does not load its Python entry: %s" % srcs
        types = [x["value"] for x in pg.do("types")["r"]["list"] if x["value"]]
        if meta is not None and sorted(types) != sorted(meta):
            return "the bundle's page offers %d types, the sources have %d" % (len(types), len(meta))
        small = [t for t in types if meta and any("data" in e for e in meta[t]["examples"])]
        t = rng.choice(small)
        i = next(k for k, e in enumerate(meta[t]["examples"]) if "data" in e)
        pg.do("type", value=t)
        pg.do("example", value=str(i))
        o = pg.do("click", id="solve")
        runs = [e for e in o["events"] if e["ev"] == "clingo"]
        if len(runs) != 1:
            return "example %d of %s is not solved in the bundle: %s" % (i, t, [e for e in o["events"]][:2])
        res, _ = wasm(runs[0]["args"], 8)
        if res is not None:
            o = pg.do("result", id=runs[0]["id"], result=res)
            if "1/1" not in o["state"]["solve"]["text"]:
                return "example %d of %s in the bundle ends with %r" % (i, t, o["state"]["solve"])
        return None
    finally:
        if pg:
            pg.close()
        if py:
            py.close()
        os.rename(away, repo)
        shutil.rmtree(tmp, ignore_errors=True)


def served_fault(srv):
    """what the running server's page looks like: None if it is the server's page"""
    try:
        cl = Client(srv.port, 20)
        try:
            st, _, data = cl.ask(b"", method="GET", path="/penpa-edit/prepare_deployment.js", close=True)
        finally:
            cl.close()
    except (Broken, OSError) as e:
        return None if not srv.alive() else "the server does not give its page: %s" % e
    if st != 200 or SWITCH % "false" not in data.decode(errors="replace"):
        return "the running server gives a page that is switched to deployment, or damaged: %d %r" % (st, data[:60])
    return None


class History:
    def __init__(self, seed, lines):
        self.rng = random.Random("c17/%s" % seed)
        self.tmp, self.repo = scratch_copy("nx-dep-")
        for p in MADE:
            t = os.path.join(self.repo, p)
            if os.path.isdir(t):
                shutil.rmtree(t)
            elif os.path.exists(t):
                os.remove(t)
        self.lines = lines
        self.src = sources(self.repo)
        self.steps = []
        self.first = None
        self.edited = False
        self.stat = {"builds": 0, "starts": 0, "interrupted": 0, "edits": 0, "moved": 0, "polls": 0}

    def build(self):
        self.stat["builds"] += 1
        st, out = run_main(self.repo, ["-D"])
        if st is None:
            return None
        if st != 0:
            return "the build fails: %s" % out[-400:]
        why = bundle_fault(self.repo)
        if why:
            return why
        if not self.edited:
            b = files_of(os.path.join(self.repo, "dist", "page"))
            k = os.path.join("penpa-edit", "pyscript.json")
            b[k] = json.dumps(json.loads(b[k]), sort_keys=True).encode()
            if self.first is None:
                self.first = b
            elif b != self.first:
                return "the same sources give another bundle: %s" % sorted(p for p in set(b) | set(self.first) if b.get(p) != self.first.get(p))[:3]
        if self.rng.random() < 0.35:
            self.stat["moved"] += 1
            return moved_fault(self.repo, self.rng)
        return None

    def start(self):
        """start the server, once or several at a time; then look at the page and stop it"""
        n = self.rng.choice([1, 1, 1, 3])
        self.stat["starts"] += n
        with ThreadPoolExecutor(n) as ex:
            srvs = list(ex.map(lambda _: Server(self.rng.choice([[], ["-tl", "5"], ["-pt", "2"]]), repo=self.repo, wait=30), range(n)))
        try:
            if not all(s.alive() for s in srvs):
                return None
            return served_fault(srvs[0])
        finally:
            for s in srvs:
                s.stop()

    def aborted_start(self):
        """a server that is killed while it starts"""
        self.stat["starts"] += 1
        p = subprocess.Popen([PY, "-B", "main.py", "-p", str(free_port())], cwd=self.repo, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        time.sleep(self.rng.uniform(0.05, 0.9))
        p.send_signal(self.rng.choice([signal.SIGKILL, signal.SIGINT, signal.SIGTERM]))
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()

    def interrupted(self, line=None):
        self.stat["interrupted"] += 1
        n = line or self.rng.randint(1, max(2, self.lines))
        self.steps.append("at line event %d" % n)
        subprocess.run([PY, "-B", "-c", INTERRUPT, str(n)], cwd=self.repo, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False, timeout=60)

    def together(self):
        """two builds at once: whatever becomes of them, the sources stay"""
        ps = [subprocess.Popen([PY, "-B", "main.py", "-D"], cwd=self.repo, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for _ in range(2)]
        for p in ps:
            p.wait()

    def leftover(self):
        """remains of an earlier build, of other sources"""
        d = os.path.join(self.repo, "dist", "page", "penpa-edit", "solver")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "gone%d.py" % self.rng.randrange(100)), "w", encoding="utf-8") as f:
            f.write("raise RuntimeError('an old file')\n")
        with open(os.path.join(self.repo, "pyscript.json"), "w", encoding="utf-8") as f:
            f.write('{"files": {"./solver/old.py": "solver/old.py"}}')

    def edit(self):
        """the user changes the sources: a new type, a new rule file, a type less, a new page file"""
        self.stat["edits"] += 1
        self.edited = True
        rng, r = self.rng, self.repo
        t = rng.randrange(4)
        names = sorted(solver_names(self.src))
        if t == 0:
            a = rng.choice(names)
            shutil.copy(os.path.join(r, "solver", a + ".py"), os.path.join(r, "solver", "zz%s%d.py" % (a, rng.randrange(1000))))
        elif t == 1:
            os.remove(os.path.join(r, "solver", rng.choice(names) + ".py"))
        elif t == 2:
            sub = rng.choice([("noqx", "rule"), ("noqx", "puzzle"), ("noqx",)])
            with open(os.path.join(r, *sub, "extra%d.py" % rng.randrange(1000)), "w", encoding="utf-8") as f:
                f.write('"""An extra file."""\n\nX = %d\n' % rng.randrange(10 ** 6))
        else:
            with open(os.path.join(r, "penpa-edit", rng.choice(["extra.css", "note.js", "style.css"])), "a", encoding="utf-8") as f:
                f.write("/* %d \u00e9 */\n" % rng.randrange(10 ** 6))
        self.src = sources(r)

    def served_build(self):
        """builds while a server runs, its page asked for all the time"""
        srv = Server(repo=self.repo, wait=30)
        self.stat["starts"] += 1
        found, stop = [], threading.Event()
        if not srv.alive():
            srv.stop()
            return None

        def poll():
            while not stop.is_set() and not found:
                why = served_fault(srv)
                self.stat["polls"] += 1
                if why:
                    found.append(why)
        th = threading.Thread(target=poll)
        th.start()
        try:
            for _ in range(2):
                run_main(self.repo, ["-D"])
        finally:
            stop.set()
            th.join()
            srv.stop()
        return found[0] if found else None

    def run(self, n, end, line=None):
        acts = [self.build] * 5 + [self.start, self.aborted_start, self.interrupted, self.interrupted, self.together, self.leftover, self.edit, self.served_build]
        done = 0
        for i in range(n):
            if time.time() > end:
                break
            act = self.build if i == 0 else (lambda: self.interrupted(line)) if line and i == 1 else self.rng.choice(acts)
            self.steps.append(getattr(act, "__name__", "step"))
            why = act()
            why = source_change(self.src, self.repo) or why
            done += 1
            if why:
                return why, done
        why = self.build()
        return (source_change(self.src, self.repo) or why), done + 1

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def history(seed, n, end, lines, line=None):
    h = History(seed, lines)
    try:
        why, done = h.run(n, end, line)
        return why, done, h.stat, h.steps
    finally:
        h.close()


def count_lines():
    """how many lines of main.py a build runs through"""
    tmp, repo = scratch_copy("nx-dep-")
    try:
        p = subprocess.run([PY, "-B", "-c", INTERRUPT, "0"], cwd=repo, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False, timeout=100)
        out = p.stdout.decode(errors="replace").split()
        return int(out[out.index("LINES") + 1]) if "LINES" in out else 0
    except subprocess.TimeoutExpired:
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid):
    chk = Check(pid)
    chk.rule = ("a step of a history (build, start, interrupted build, edit of the sources ...) counts when afterwards every source file was compared, and "
                "after a completed build every file of the bundle; non-trivial: completed builds whose bundle was compared")
    lines = count_lines()
    end = chk.t0 + (45 if chk.quick else 600)
    tot, pts = {}, set()
    with ThreadPoolExecutor(7) as ex:
        n = 16 if chk.quick else 200
        # half of the histories interrupt the second build at a line of the last part (after the copying of the many files)
        jobs = [(k, max(1, lines - k // 2) if k % 2 else None) for k in range(n)]
        fs = [(k, ln, ex.submit(history, "%d/%d" % (chk.seed, k), 7 if chk.quick else 12, end, lines, ln)) for k, ln in jobs]
        for k, ln, f in fs:
            try:
                why, done, stat, steps = f.result()
            except (Gone, OSError, subprocess.SubprocessError) as e:
                chk.inconclusive.append(repr(e)[:300])
                continue
            chk.evals += done
            chk.distinct += stat["builds"]
            pts |= {s for s in steps if s.startswith("at line")}
            for a, v in stat.items():
                tot[a] = tot.get(a, 0) + v
            if k < 4:
                chk.sample(steps)
            if why:
                # a changed source file or a wrong page served is there to be seen; a fault of the bundle must show again
                if "source file" in why or "running server" in why or history(
                        "%d/%d" % (chk.seed, k), 7 if chk.quick else 12, time.time() + 60, lines, ln)[0]:
                    chk.violate(why, {"history": steps, "seed": "%d/%d" % (chk.seed, k)})
                else:
                    chk.inconclusive.append("not seen again: " + why[:200])
    chk.extra = {"trace": tot, "lines_of_a_build": lines, "interruption_points": len(pts)}
    chk.assumptions = ["a build is interrupted between two lines of main.py, not inside one"]
    chk.finish(minimum=10)
