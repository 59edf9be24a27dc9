#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /verif/properties.jsonl against /repo's working tree.

exit 0: held on everything explored; 1: broken (VIOLATION line); 2: error of the machinery."""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))

import build  # noqa: E402
import tlc  # noqa: E402


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rnd = random.Random(f"{prop}/{self.seed}/{self.tier}")
        self.thorough = self.tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.known = [], [], {}, []
        self.findings = self._findings()
        self.t0 = time.time()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, k):
        """an independent, reproducible source of randomness"""
        return random.Random(f"{self.prop}/{self.seed}/{self.tier}/{k}")

    def _findings(self):
        r = []
        for line in open(os.path.join(HERE, "known-findings.jsonl")):
            if line.strip():
                e = json.loads(line)
                if e.get("property") == self.prop and e.get("status") == "known":
                    r.append(e)
        return r

    def design(self, module, cfg=None, workers=8, timeout=600, heap="4g", args=(), env=None):
        """a design-level model check; a failure here is an error of the specification"""
        ok, gen, dist, out = tlc.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args, env=env)
        if not ok:
            raise tlc.TlcError(f"{module}: the specification itself violates its properties\n{out[-3000:]}")
        self.states += dist
        self.transitions += gen
        self.notes[f"design:{cfg or module}"] = {"states": dist, "transitions": gen}
        return out

    def verdict(self, v, ntraces):
        self.states += v.states
        self.transitions += v.events
        self.traces += ntraces

    def sample(self, x):
        if len(self.samples) < 3:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def violation(self, what, detail):
        if len(self.violations) >= 5:
            return
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **detail}, f, indent=1)
        self.violations.append((what, p))

    def left(self, budget):
        return budget - (time.time() - self.t0)


def main():
    prop = sys.argv[1]
    c = Ctx(prop)
    import props
    fn = props.CHECKS[prop]
    rc = 0
    try:
        build.build()
        fn(c)
    except build.BuildError as e:
        print(f"{prop}: cannot build the code under test\n{e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ev = {"property": prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
          "coverage": {"states": c.states, "transitions": c.transitions,
                       "traces_validated_against_impl": c.traces, "samples": c.samples, "parts": c.notes},
          "wall_s": round(time.time() - c.t0, 2), "violations": len(c.violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in c.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if c.violations:
        for what, p in c.violations:
            print(f"{prop}: {what}", file=sys.stderr)
        print(f"VIOLATION property={prop} replay={c.violations[0][1]}")
        return 1
    if rc == 0:
        print(f"{prop}: held; {c.states} states, {c.transitions} transitions, {c.traces} traces of the real code, "
              f"{time.time() - c.t0:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
