"""Runs jobs in the harness. A harness that dies (abort, stack overflow, out of memory) is an
observation too: the job it died on is found by running the unanswered jobs one by one."""
import json
import os
import shutil
import subprocess
import tempfile

import build

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="fcbverif.")
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


def _once(jobs, threads, timeout, binary):
    d = tempfile.mkdtemp(dir=scratch())
    jf, of = f"{d}/jobs", f"{d}/out"
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    try:
        p = subprocess.run([binary or build.HARNESS, jf, of, str(threads)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=timeout, cwd=d)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    res = {}
    if os.path.exists(of):
        for line in open(of):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            res[json.dumps(r["id"])] = r
    shutil.rmtree(d, ignore_errors=True)
    return res, rc


def run_jobs(jobs, threads=8, timeout=600, binary=None):
    """Observations in the order of the jobs (ids are assigned here)."""
    jobs = [dict(j, id=i) for i, j in enumerate(jobs)]
    res, rc = _once(jobs, threads, timeout, binary)
    left = [j for j in jobs if json.dumps(j["id"]) not in res]
    while left:
        r2, rc = _once(left, 1, timeout, binary)
        res.update(r2)
        nxt = [j for j in left if json.dumps(j["id"]) not in res]
        if len(nxt) == len(left) or nxt:
            # single-threaded, in order: the first unanswered job is the one it died on
            res[json.dumps(nxt[0]["id"])] = {"id": nxt[0]["id"], "crash": str(rc)}
            nxt = nxt[1:]
        left = nxt
    return [res[json.dumps(j["id"])] for j in jobs]
