"""The Python inside the browser: runs the deployed entry point with nothing but the standard library and the files that the
bundle lists, and answers calls of the page over two pipes.  Started as: python -s -P -S -B browserpy.py ENTRY READ_FD WRITE_FD,
in the directory that stands for the browser's file system."""

import json
import os
import random
import sys
import traceback
import types

entry, rfd, wfd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.getcwd())


class Window:
    pass


class JsProxy:
    """a JavaScript object as Python sees it"""

    def __init__(self, data):
        self._data = data

    def to_py(self, *_, **__):
        return json.loads(json.dumps(self._data))

    def __getattr__(self, k):
        try:
            return self._data[k]
        except (KeyError, TypeError):
            raise AttributeError(k) from None


window = Window()
pyscript = types.ModuleType("pyscript")
pyscript.window = pyscript.document = window
ffi = types.ModuleType("pyscript.ffi")
ffi.create_proxy = ffi.to_js = lambda x, *_, **__: x
pyscript.ffi = ffi
sys.modules.update({"pyscript": pyscript, "pyscript.ffi": ffi, "js": window, "pyodide": types.ModuleType("pyodide"), "pyodide.ffi": ffi})

held = []


def out(v):
    """a value as JavaScript gets it: plain where JavaScript has the same, a proxy otherwise"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    held.append(v)
    p = {"proxy": len(held) - 1}
    if isinstance(v, dict):
        p["dict"] = {str(k): out(x) for k, x in v.items()}
    return p


def arg(a):
    if "proxy" in a:
        return held[a["proxy"]]
    if "js" in a:
        return JsProxy(a["js"])
    return a["value"]


r = os.fdopen(rfd, "r", encoding="utf-8", errors="surrogatepass")
w = os.fdopen(wfd, "w", encoding="utf-8", errors="surrogatepass")


def say(x):
    w.write(json.dumps(x) + "\n")
    w.flush()


try:
    with open(entry, encoding="utf-8") as f:
        code = compile(f.read(), entry, "exec")
    exec(code, {"__name__": "__main__"})  # pylint: disable=exec-used
    names = sorted(k for k, v in vars(window).items() if callable(v))
    bad = sorted(m for m in ("clingo", "uvicorn", "starlette", "anyio") if m in sys.modules)
    mods = sys.modules.get("noqx.manager")
    say({"names": names, "packages": bad, "types": sorted(mods.modules) if mods else [],
         "outside": sorted(m.__file__ for m in sys.modules.values() if getattr(m, "__file__", None) and m.__name__.split(".")[0] in ("noqx", "solver")
                           and not os.path.abspath(m.__file__).startswith(os.getcwd() + os.sep))})
except BaseException:  # pylint: disable=broad-except
    say({"error": traceback.format_exc()[-1500:]})
    sys.exit(1)
for line in r:
    m = json.loads(line)
    try:
        random.seed(0)
        v = getattr(window, m["call"])(*[arg(a) for a in m["args"]])
        say({"value": out(v)})
    except Exception as e:  # pylint: disable=broad-except
        say({"raised": "%s: %s" % (type(e).__name__, e)})
    if len(held) > 4000:
        held[:3000] = [None] * 3000
