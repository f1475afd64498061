"""Running the real server in a scratch copy of the repository, and talking to it over raw sockets."""

import os
import shutil
import socket
import subprocess
import tempfile
import time

from nx.engine import REPO
from nx.pool import PY

SKIP = shutil.ignore_patterns(".git", "__pycache__", "dist", "build", "*.egg-info", ".pytest_cache", ".venv", "node_modules")


def scratch_copy(prefix="nx-srv-"):
    d = tempfile.mkdtemp(prefix=prefix)
    t = os.path.join(d, "repo")
    shutil.copytree(REPO, t, ignore=SKIP, symlinks=True)
    return d, t


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Server:
    def __init__(self, args=(), repo=None, wait=40):
        self.tmp = None
        if repo is None:
            self.tmp, repo = scratch_copy()
        self.repo = repo
        self.log = os.path.join(os.path.dirname(repo), "server-%d.log" % os.getpid())
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.port = self.p = None
        for _ in range(3):                               # another process may take the port in between
            port = free_port()
            with open(self.log, "wb") as log:
                p = subprocess.Popen([PY, "-B", "main.py", "-p", str(port)] + list(args), cwd=repo, env=env, stdin=subprocess.DEVNULL,
                                     stdout=log, stderr=log)
            end = time.time() + wait
            while time.time() < end and p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", port), 1).close()
                    self.port, self.p = port, p
                    return
                except OSError:
                    time.sleep(0.1)
            p.kill()
            p.wait()

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def tail(self, n=1500):
        try:
            with open(self.log, errors="replace", encoding="utf-8") as f:
                return f.read()[-n:]
        except OSError:
            return ""

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


class Broken(Exception):
    """the server did not answer as HTTP wants it"""


class Client:
    """one connection; ask() sends one request and reads exactly one response"""

    def __init__(self, port, timeout=60):
        self.s = socket.create_connection(("127.0.0.1", port), timeout)
        self.s.settimeout(timeout)
        self.buf = b""

    def close(self):
        self.s.close()

    def _more(self):
        try:
            x = self.s.recv(65536)
        except socket.timeout:
            raise Broken("no answer within the time allowed")
        except OSError as e:
            raise Broken("the connection broke: %s" % e)
        if not x:
            raise Broken("the connection was closed without a complete answer")
        self.buf += x

    def send(self, data):
        try:
            self.s.sendall(data)
        except socket.timeout:
            raise Broken("the request is not taken")
        except OSError as e:
            raise Broken("the connection broke: %s" % e)

    def read(self):
        while b"\r\n\r\n" not in self.buf:
            self._more()
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = head.decode("latin-1").split("\r\n")
        status = int(lines[0].split()[1])
        headers = {}
        for x in lines[1:]:
            k, v = x.split(":", 1)
            headers[k.strip().lower()] = v.strip()
        if status == 100:
            return self.read()
        if headers.get("transfer-encoding", "").lower() == "chunked":
            body = b""
            while True:
                while b"\r\n" not in self.buf:
                    self._more()
                n, self.buf = self.buf.split(b"\r\n", 1)
                n = int(n.split(b";")[0], 16)
                while len(self.buf) < n + 2:
                    self._more()
                body, self.buf = body + self.buf[:n], self.buf[n + 2:]
                if n == 0:
                    break
        else:
            n = int(headers.get("content-length", "0"))
            while len(self.buf) < n:
                self._more()
            body, self.buf = self.buf[:n], self.buf[n:]
        return status, headers, body

    def ask(self, body, close=False, path="/api/solve/", method="POST", chunked=False, ctype="application/json", pause=None):
        head = "%s %s HTTP/1.1\r\nHost: localhost\r\nContent-Type: %s\r\n" % (method, path, ctype)
        if close:
            head += "Connection: close\r\n"
        if chunked:
            head += "Transfer-Encoding: chunked\r\n\r\n"
            data = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 700]), body[i:i + 700]) for i in range(0, len(body), 700)) + b"0\r\n\r\n"
        else:
            head += "Content-Length: %d\r\n\r\n" % len(body)
            data = body
        if pause:
            self.send(head.encode())
            cut = len(data) // 2
            self.send(data[:cut])
            time.sleep(pause)
            self.send(data[cut:])
        else:
            self.send(head.encode() + data)
        out = self.read()
        if self.buf:
            raise Broken("more than one answer to one request")
        if close:
            try:
                rest = self.s.recv(100)
            except OSError:
                rest = b""
            if rest:
                raise Broken("more than one answer to one request")
        return out
