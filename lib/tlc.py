"""Running TLC: design checks, case generation, and trace acceptance."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from run import scratch

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC could not evaluate the specification: an error of the machinery, not a verdict."""


class TlcEval(TlcError):
    """An expression has no value: in a trace, the event has a shape the specification never gives it."""

    def __init__(self, text, out):
        super().__init__(text)
        self.states = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]


def tlc(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap="2g"):
    """Returns (ok, states, distinct, output); ok False means a property was violated."""
    meta = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError(f"{module}: TLC exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if p.returncode == 0:
        return True, gen, dist, out
    if p.returncode in (10, 11, 12, 13, 14) or "ostcondition" in out.lower() and "violated" in out.lower():
        return False, gen, dist, out
    if p.returncode in (75, 76) and "StackOverflow" not in out and "OutOfMemory" not in out:
        raise TlcEval(f"{module}: TLC exit {p.returncode}\n" + out[-3000:], out)
    raise TlcError(f"{module}: TLC exit {p.returncode}\n" + out[-3000:])


def consumed(out):
    m = re.findall(r'<<"consumed", (\d+)>>', out)
    return int(m[-1]) if m else None


def _accept(module, lines, timeout, extra=None):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        f = os.path.join(d, "trace.ndjson")
        with open(f, "w") as h:
            for x in lines:
                h.write(json.dumps(x) + "\n")
        env = {"TRACE": f}
        env.update(extra or {})
        try:
            ok, gen, dist, out = tlc(module, env=env, timeout=timeout)
        except TlcEval as e:
            if not e.states or e.states[-1] > len(lines):
                raise
            return False, e.states[-1] - 1, len(e.states), str(e)
        n = consumed(out)
        if not ok and n is None:
            raise TlcError(f"{module}: no verdict\n" + out[-3000:])
        return ok, n, gen, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Verdict:
    def __init__(self):
        self.rejected = []   # (session number, number of events accepted)
        self.states = 0
        self.events = 0
        self.notes = []


def check_traces(module, traces, shards=8, timeout=800, max_rejects=3):
    """Each trace is a list of events.  Traces are independent; several go into one TLC run.
    Returns the traces TLC does not accept, with the number of their events it accepted."""
    v = Verdict()
    v.events = sum(len(t) for t in traces)
    if not traces:
        return v
    total = max(1, v.events)
    groups = [[] for _ in range(max(1, min(shards, len(traces))))]
    size = [0] * len(groups)
    for i, t in enumerate(traces):
        k = size.index(min(size))
        groups[k].append(i)
        size[k] += len(t) + 1

    def work(ids):
        rej, states, notes = [], 0, []
        ids = list(ids)
        while ids:
            lines, owner = [], []
            for i in ids:
                for j, e in enumerate(traces[i]):
                    lines.append(e)
                    owner.append((i, j))
            ok, n, gen, out = _accept(module, lines, timeout)
            states += gen
            notes += re.findall(r'<<"note", (.*)>>', out)
            if ok:
                break
            i, j = owner[n]
            rej.append((i, j))
            if len(rej) >= max_rejects:
                break
            ids = ids[ids.index(i) + 1:]   # the traces before it were accepted
        return rej, states, notes

    with ThreadPoolExecutor(len(groups)) as ex:
        for rej, st, notes in ex.map(work, groups):
            v.rejected += rej
            v.states += st
            v.notes += notes
    v.rejected.sort()
    return v
