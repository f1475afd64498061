"""Common frame of every check: verdict, evidence, replays, known findings."""

import json
import os
import sys
import time

from nx.pool import HERE, Pool

FINDINGS = os.path.join(HERE, "known_findings.json")


def known_findings(pid):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS, encoding="utf-8") as f:
        return [x for x in json.load(f)["findings"] if x.get("property") == pid]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED") or 1)
        except ValueError:
            self.seed = 1
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = {}
        self.inconclusive = []
        self.level = "exploration"
        self._pool = None

    def pool(self, n=None, env=None):
        if self._pool is None:
            self._pool = Pool(n, env)
        return self._pool

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violate(self, what, replay, key=None):
        """key: what the failure is about, matched against the listed findings"""
        for k in known_findings(self.pid):
            if key is not None and k.get("key") == key and k.get("kind") == "finding":
                self.known.setdefault(key, k.get("what", what))
                return
        n = len(self.violations) + 1
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join("replays", "%s-%d.json" % (self.pid, n))
        with open(os.path.join(HERE, path), "w", encoding="utf-8") as f:
            json.dump({"property": self.pid, "what": what, "key": key, "seed": self.seed, "tier": self.tier,
                       "replay": replay}, f, indent=1, default=repr)
        self.violations.append((what, path))
        if n <= 20:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what[:1000])
            sys.stdout.flush()

    def confirm(self, job, test, times=3, limit=100):
        """an alarm is believed only when the same job raises it again in a fresh process"""
        for _ in range(times):
            p = Pool(1)
            ok = any(test(res) for _, res in p.run([job], time.time() + limit, limit=limit))
            p.close()
            if ok:
                return True
        return False

    def finish(self, minimum=1):
        if self._pool:
            self._pool.close()
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
               "samples": self.samples, "inconclusive": len(self.inconclusive),
               "inconclusive_reasons": sorted(set(map(str, self.inconclusive)))[:20],
               "known_findings_hit": sorted(self.known)}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k in known_findings(self.pid):
            if k.get("kind") == "finding":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what")))
        if self.violations:
            print("%s: %d violation(s) in %d evaluations, %.1f s" % (self.pid, len(self.violations), self.evals, ev["wall_s"]))
            sys.exit(1)
        if self.evals < minimum:
            print("%s: inconclusive, only %d evaluations observed: %s" % (self.pid, self.evals, cov["inconclusive_reasons"]))
            sys.exit(2)
        print("%s: held on %d evaluations (%d distinct non-trivial), %d inconclusive, %.1f s" % (
            self.pid, self.evals, self.distinct, len(self.inconclusive), ev["wall_s"]))
        sys.exit(0)
