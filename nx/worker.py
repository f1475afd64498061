"""One worker: reads jobs as JSON lines, calls module.function(**args), writes the JSON result."""

import importlib
import json
import os
import sys
import traceback

from nx.pool import limit_memory


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    limit_memory(6)
    for line in sys.stdin:
        job = json.loads(line)
        try:
            fn = getattr(importlib.import_module(job["mod"]), job["fn"])
            res = fn(**job.get("args", {}))
        except BaseException:  # noqa: the check decides what to make of it
            res = {"crash": traceback.format_exc()[-1500:]}
        out.write(json.dumps(res, default=repr) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
