"""A page of the solver in a small browser (nx/page.js), driven step by step; and the bundle built for it."""

import json
import os
import select
import shutil
import subprocess
import time
from html.parser import HTMLParser

from nx.pool import HERE, PY
from nx.server import scratch_copy

VOID = {"meta", "link", "input", "br", "hr", "img", "col", "source", "area", "base", "wbr"}


class Html(HTMLParser):
    def __init__(self):
        super().__init__()
        self.made = []
        self.open = []
        self.scripts = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script":
            self.scripts.append(a.get("src"))
        self.made.append({"tag": tag, "attrs": a, "parent": self.open[-1] if self.open else -1})
        if tag not in VOID:
            self.open.append(len(self.made) - 1)

    def handle_endtag(self, tag):
        while self.open:
            if self.made[self.open.pop()]["tag"] == tag:
                return

    def handle_data(self, data):
        if self.open and data.strip() and self.made[self.open[-1]]["tag"] in ("button", "option", "span", "label", "a"):
            m = self.made[self.open[-1]]
            m["text"] = m.get("text", "") + data


def read_html(path):
    p = Html()
    with open(path, encoding="utf-8") as f:
        p.feed(f.read())
    return p.made, p.scripts


class Gone(Exception):
    """the small browser itself did not answer"""


class Page:
    """one load of the page in folder d"""

    def __init__(self, d, python=None):
        elements, scripts = read_html(os.path.join(d, "index.html"))
        self.missing = [s for s in scripts if s and s.startswith("./") and not os.path.exists(os.path.join(d, s))]
        files = [os.path.abspath(os.path.join(d, s)) for s in scripts if s and not s.startswith("http") and os.path.exists(os.path.join(d, s))]
        env = dict(os.environ)
        fds = ()
        if python:
            env.update(NX_PYW=str(python.w), NX_PYR=str(python.r))
            fds = (python.w, python.r)
        self.p = subprocess.Popen(["node", os.path.join(HERE, "nx", "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, pass_fds=fds)
        self.log = []
        self.state = None
        self.buf = b""
        self.scripts = scripts
        r = self.do("start", elements=elements, scripts=files, clingo=bool(python))
        self.added = r["r"].get("added", [])
        self.start_events = r["events"]
        if python:
            self.do("python", names=python.names)

    def do(self, what, limit=60, **kw):
        cmd = dict(kw, do=what)
        try:
            self.p.stdin.write(json.dumps(cmd).encode() + b"\n")
            self.p.stdin.flush()
        except OSError as e:
            raise Gone(str(e)) from e
        end = time.time() + limit
        while not self.buf.endswith(b"\n"):
            ready, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not ready:
                raise Gone("no answer from the small browser")
            x = os.read(self.p.stdout.fileno(), 1 << 20)
            if not x:
                raise Gone("the small browser ended")
            self.buf += x
        out = json.loads(self.buf)
        self.buf = b""
        if "harness" in out["r"]:
            raise Gone("small browser: " + out["r"]["harness"])
        self.state = out["state"]
        if what not in ("start", "python"):
            self.log.append([cmd if len(str(cmd)) < 600 else {"do": what}, [dict(e, **({"args": "..."} if "args" in e else {})) for e in out["events"]]])
        return out

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


def run_main(repo, args, limit=120):
    """run main.py in a scratch copy; returns (exit status, output)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run([PY, "-B", "main.py"] + args, cwd=repo, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit, check=False)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "no end within %d s" % limit


class Built:
    """a scratch copy in which the deployment was built"""

    def __init__(self):
        self.tmp, self.repo = scratch_copy("nx-page-")
        self.status, self.out = run_main(self.repo, ["-D"])
        self.page = os.path.join(self.repo, "dist", "page", "penpa-edit")
        self.source = os.path.join(self.repo, "penpa-edit")

    def ok(self):
        return self.status == 0 and os.path.exists(os.path.join(self.page, "index.html"))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class Python:
    """the in-browser Python over the bundle in folder d; the files it may see are those the listing names"""

    def __init__(self, d, config="pyscript.json", entry="main_deploy.py", fs=None):
        self.fs = fs or os.path.join(os.path.dirname(os.path.dirname(d)), "browser-fs-%d-%d" % (os.getpid(), time.monotonic_ns()))
        os.makedirs(self.fs)
        self.absent = []
        with open(os.path.join(d, config), encoding="utf-8") as f:
            self.listing = json.load(f)
        for src, dst in (self.listing.get("files") or {}).items():
            s = os.path.normpath(os.path.join(d, src))
            if not os.path.exists(s):
                self.absent.append(src)
                continue
            t = os.path.join(self.fs, dst)
            if not os.path.abspath(t).startswith(self.fs + os.sep):
                self.absent.append(dst)
                continue
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(s, t)
        shutil.copy(os.path.join(d, entry), os.path.join(self.fs, "main.py"))
        self.packages = self.listing.get("packages") or []
        cr, self.w = os.pipe()
        self.r, cw = os.pipe()
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": "0", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}
        self.p = subprocess.Popen([PY, "-s", "-P", "-S", "-B", os.path.join(HERE, "nx", "browserpy.py"), "main.py", str(cr), str(cw)], cwd=self.fs, env=env,
                                  pass_fds=(cr, cw), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(cr)
        os.close(cw)
        data = b""
        end = time.time() + 60
        while not data.endswith(b"\n"):
            ready, _, _ = select.select([self.r], [], [], max(0, end - time.time()))
            x = os.read(self.r, 1 << 20) if ready else b""
            if not x:
                break
            data += x
        self.hello = json.loads(data) if data.endswith(b"\n") else {"error": "the in-browser Python does not start"}
        self.names = self.hello.get("names", [])

    def close(self):
        self.p.kill()
        self.p.wait()
        os.close(self.w)
        os.close(self.r)
        shutil.rmtree(self.fs, ignore_errors=True)
