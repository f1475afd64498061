"""development helper for planted bugs
   seed.py new ID           scratch copy /tmp/w/s/ID of /repo to edit
   seed.py take ID          diff of the scratch copy -> seeded/ID/patch.diff, then `verify`
   seed.py verify ID...     tests pass, demo 0 on clean and nonzero on patched
   seed.py check ID [PID]   run the property's check against the patched copy"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/w/s"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def fresh(i, patch=False):
    d = os.path.join(S, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    sh("cp -a /repo %s" % d)
    sh("git checkout -q -- .", d)
    if patch:
        rc, out = sh("git apply %s/seeded/%s/patch.diff" % (HERE, i), d)
        if rc:
            print(i, "patch does not apply", out)
            return None
    return d


def demo(i, d):
    tmp = "/tmp/w/demo_" + i
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "seeded", i), tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, out = sh("bash %s/demo.sh" % tmp, d, timeout=300)
    shutil.rmtree(tmp)
    return rc, out.strip()[-300:]


def tests(d):
    out = "/tmp/w/out_%s.json" % os.path.basename(d)
    sh("sed 's#^cd /repo#cd %s#' /opt/vp/test.sh > /tmp/w/test_%s.sh; sed 's#^cd /repo#cd %s#' /opt/vp/build.sh > /tmp/w/build_%s.sh" % ((d, os.path.basename(d)) * 2))
    rc, o = sh("bash /tmp/w/test_%s.sh %s" % (os.path.basename(d), out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or [])
    got = set(json.load(open(out))["passed"])
    return sorted(want - got)


def verify(i):
    d = fresh(i, True)
    if d is None:
        return False
    bad = tests(d)
    r1, o1 = demo(i, d)
    r0, o0 = demo(i, "/repo")
    ok = not bad and r0 == 0 and r1 != 0
    print(i, "OK" if ok else "NOT OK", "tests failing:", bad, "clean:", r0, "patched:", r1, "|", o1.replace("\n", " / "), "" if r0 == 0 else o0)
    return ok


def check(i, pids=()):
    d = fresh(i, True)
    pids = pids or [json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]]
    for pid in pids:
        v = "/tmp/w/v_%s_%s" % (i, pid)
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        rc, out = sh("python3 -B run.py " + pid, v, {"NOQX_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
        print(i, pid, "exit", rc, "| " + " / ".join(out.strip().split("\n")[:2])[:300], "|", out.strip().split("\n")[-1][:200])
        shutil.rmtree(v)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        print(fresh(a[1]))
    elif a[0] == "take":
        rc, out = sh("git diff", os.path.join(S, a[1]))
        os.makedirs(os.path.join(HERE, "seeded", a[1]), exist_ok=True)
        open(os.path.join(HERE, "seeded", a[1], "patch.diff"), "w").write(out)
        verify(a[1])
    elif a[0] == "verify":
        for i in a[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            verify(i)
    elif a[0] == "check":
        check(a[1], a[2:])
    elif a[0] == "checkall":
        for i in a[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            check(i)
