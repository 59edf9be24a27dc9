"""Sessions: run them in the harness, have TLC judge the recorded traces."""
import run
import tlc
from data import file_event, order_of, read_events

REF = {"mode": "seek", "sel": {}, "want": "full", "hdr": True}


class Session:
    """one file and its readers; reads: (harness read, TLC query, {canfail, early})"""

    def __init__(self, d, reads, write=None, tag=""):
        self.d, self.reads, self.tag = d, reads, tag
        self.job = dict(op="session", write=d.write_job() if write is None else write, reads=[REF] + [r[0] for r in reads])
        self.obs = None
        self.trace = None

    def build_trace(self, obs):
        self.obs = obs
        d = self.d
        if obs.get("write", "ok") != "ok" or "reads" not in obs:
            self.trace = [{"ev": "writefail"}]
            return self.trace
        ref = obs["reads"][0]
        if hasattr(d, "settle"):
            d.settle(obs)
        hdr = ref.get("hdr") or {}
        order = order_of(d, ref.get("events", []))
        t = [file_event(d, order, hdr.get("features_count"))]
        t += read_events(REF, {"k": "all"}, ref, length=obs["len"])
        for (r, tq, o), ob in zip(self.reads, obs["reads"][1:]):
            t += read_events(r, tq, ob, length=obs["len"], **o)
        self.trace = t
        return t


def judge(sessions, threads=8, shards=8, timeout=800):
    """-> (verdict, [(session, event number)])"""
    res = run.run_jobs([s.job for s in sessions], threads=threads)
    traces = [s.build_trace(o) for s, o in zip(sessions, res)]
    v = tlc.check_traces("FcbTrace", traces, shards=shards, timeout=timeout)
    bad = [(sessions[i], j) for i, j in v.rejected]
    return v, bad
