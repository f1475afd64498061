"""Worker processes with a watchdog.  A job that hangs or dies is reported as such; it never hangs the check."""

import json
import os
import resource
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def cpu_count():
    return min(8, os.cpu_count() or 1)


class Worker:
    def __init__(self, env):
        self.err = open(os.devnull, "wb")
        self.p = subprocess.Popen([PY, "-B", "-m", "nx.worker"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
        self.buf = b""
        self.job = None
        self.until = 0

    def send(self, job, limit):
        self.job, self.until = job, time.time() + limit
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()


class Pool:
    """run(jobs, deadline) yields (job, result) as they finish; result is None for a job that hung or died"""

    def __init__(self, n=None, env=None):
        self.n = n or cpu_count()
        self.env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", **(env or {}))
        self.idle = []
        self.lost = 0

    def run(self, jobs, deadline, limit=60):
        jobs = iter(jobs)
        busy = {}
        more = True
        while True:
            while more and len(busy) < self.n and time.time() < deadline:
                try:
                    job = next(jobs)
                except StopIteration:
                    more = False
                    break
                w = self.idle.pop() if self.idle else Worker(self.env)
                try:
                    w.send(job, job.get("limit", limit))
                except OSError:
                    w.kill()
                    w = Worker(self.env)
                    w.send(job, job.get("limit", limit))
                busy[w.p.stdout.fileno()] = w
            if not busy:
                return
            ready, _, _ = select.select(list(busy), [], [], 0.5)
            now = time.time()
            for fd in ready:
                w = busy[fd]
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    del busy[fd]
                    w.kill()
                    self.lost += 1
                    yield w.job, {"lost": "the worker process died"}
                    continue
                w.buf += chunk
                if w.buf.endswith(b"\n"):
                    res = json.loads(w.buf)
                    w.buf = b""
                    del busy[fd]
                    job, w.job = w.job, None
                    self.idle.append(w)
                    yield job, res
            for fd, w in list(busy.items()):
                if now > w.until:
                    del busy[fd]
                    w.kill()
                    self.lost += 1
                    yield w.job, {"lost": "no result within the time allowed"}
            if now >= deadline:
                more = False

    def close(self):
        for w in self.idle:
            w.kill()
        self.idle = []


def limit_memory(gb):
    resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2 ** 30), int(gb * 2 ** 30)))
