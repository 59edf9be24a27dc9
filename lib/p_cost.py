"""What queries over HTTP transfer: requests recorded from the real code against spec/Cost.tla."""
import json
import os
import struct
import tempfile

import build
import fb
import p_browser
import run
import tlc
from data import DataSet
from p_index import BoxCase, box_case
from p_session import Crowd, Gaps, Heavy, rd

M31 = 2**31 - 1


# ---------------------------------------------------------------- searches of an index alone
class Search(BoxCase):
    def trace(self, ob):
        ev = super().trace(ob)
        if ev[0]["ev"] == "broken":
            return ev
        out = [ev[0]]
        pre = self.job.get("prefix", 0)
        for e, q, a in zip(ev[1:], self.queries, ob["answers"]):
            if self.rank and q[0] == "nearest":
                continue
            out.append({"ev": "s", "q": e["q"], "thr": self.job["threshold"],
                        "reqs": [[max(min(x, M31) - pre, -M31) for x in r[:2]] for r in a["http"].get("log", [])]})
        return out


def searches(c):
    for i in range(0, c.n(600, 6000), 600):
        raw = [box_case(c.sub(j)) for j in range(i, i + 600)]
        raw += [box_case(c.sub(("big", i, j)), big=True) for j in range(c.n(12, 40))]
        # in order along x, so that what a query touches lies together
        for j, r in enumerate(raw):
            if j % 2:
                r["boxes"] = sorted(r["boxes"])
        cases = [Search(**r) for r in raw]
        traces = [t.trace(o) for t, o in zip(cases, run.run_jobs([t.job for t in cases]))]
        if i == 0:
            c.sample({"trace": min(traces, key=lambda t: abs(len(json.dumps(t)) - 2500))})
            c.notes["requests of searches"] = sum(len(e["reqs"]) for t in traces for e in t if e["ev"] == "s")
        if not judged(c, [t.job for t in cases], traces):
            return False
    return True


def judged(c, jobs, traces):
    v = tlc.check_traces("CostTrace", traces)
    c.verdict(v, len(traces))
    for i, j in v.rejected:
        e, first = traces[i][j], traces[i][0]
        head = {k: (x if len(json.dumps(x)) < 3000 else "large") for k, x in first.items()}
        c.violation(f"event {j} transfers more than Cost allows: {json.dumps(e)[:700]} of {json.dumps(head)[:500]}",
                    {"event": e, "first": head, "job": jobs[i] if len(json.dumps(jobs[i])) < 100000 else "large"})
    return not v.rejected


# ---------------------------------------------------------------- files
def layout(d, b, nodes):
    """where the parts of a file lie; nodes: with the boxes of its spatial index"""
    h = fb.root(b, 8)
    head = 12 + struct.unpack_from("<I", b, 8)[0]
    n, B = h.scalar(4, "<Q", 0), h.scalar(5, "<H", 16)
    cols = {x.scalar(0, "<H", 0): x.string(1) for x in h.tables(2)}
    total, k = 0, n
    if n and B:
        total = n
        while True:
            k = -(-k // B)
            total += k
            if k == 1:
                break
    at, bx = head, []
    if nodes:
        for i in range(total):
            x = struct.unpack_from("<4d", b, at + 40 * i)
            bx.append([round((v - d.far[j % 2]) * d.unit) for j, v in enumerate(x)])
    rt = [at, at + 40 * total]
    at = rt[1]
    attrs = []
    v = h.vector(6)
    for i in range(v[1] if v else 0):
        ix, = struct.unpack_from("<H", b, v[0] + 16 * i)
        ln, = struct.unpack_from("<I", b, v[0] + 16 * i + 4)
        attrs.append([cols.get(ix, "?"), at, at + ln])
        at += ln
    fs, feats, ids = at, [], {}
    while at < len(b):
        size = 4 + struct.unpack_from("<I", b, at)[0]
        ids[fb.root(b, at).string(0)] = len(feats) + 1
        feats.append([at, at + size])
        at += size
    return {"ev": "file", "end": len(b), "head": head, "rt": rt, "n": n, "B": B, "nodes": bx, "attrs": attrs, "fs": fs,
            "feats": feats}, ids


def unite(runs):
    out = []
    for a, z in sorted(runs):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], z)
        else:
            out.append([a, z])
    return out


def trace(s, ob):
    if ob.get("write", "ok") != "ok" or "reads" not in ob:
        return [{"ev": "broken: " + json.dumps({k: x for k, x in ob.items() if k != "bytes"})[:300]}]
    try:
        with open(s["path"], "rb") as f:
            first, ids = layout(s["d"], f.read(), s["nodes"])
    except (struct.error, UnicodeDecodeError, IndexError) as x:
        return [{"ev": f"unreadable: {x}"}]
    out = [first]
    for (r, t), o in zip(s["reads"], ob["reads"]):
        if o.get("select") != "ok":
            continue
        got = [e[1] if isinstance(e[1], str) else e[1].get("id") for e in o["events"] if e[0] == "f"]
        got = sorted({ids[x] for x in got if x in ids})
        if "touched" in o:
            out.append({"ev": "touch", "seek": r["mode"] == "seek", "q": t, "got": got, "reqs": [[a, z - 1] for a, z in unite(o["touched"])]})
        else:
            out.append({"ev": "read", "q": t, "got": got, "reqs": [[min(a, M31), min(z, M31)] for a, z, _ in o["log"]]})
    return out


def files(c, sets, web, chunk=20):
    tmp = tempfile.mkdtemp(dir=run.scratch())
    for i in range(0, len(sets), chunk):
        part = sets[i:i + chunk]
        for k, s in enumerate(part):
            s["path"] = f"{tmp}/{k}.fcb"
            reads = [r for r, _ in s["reads"]]
            s["job"] = dict(op="session", write=s["d"].write_job(), save=s["path"], reads=[] if web else reads)
        res = run.run_jobs([s["job"] for s in part], threads=8)
        if web:
            r2 = run.run_jobs([dict(path=s["path"], reads=[r for r, _ in s["reads"]]) for s in part], threads=8, binary=build.BROWSER)
            for s, a, b in zip(part, res, r2):
                a.pop("reads", None)
                a.update({k: x for k, x in b.items() if k in ("reads", "crash")})
        traces = [trace(s, o) for s, o in zip(part, res)]
        c.notes["readers"] = c.notes.get("readers", 0) + sum(len(t) - 1 for t in traces)
        c.notes["largest file"] = max([c.notes.get("largest file", 0)] + [t[0].get("end", 0) for t in traces])
        if i == 0:
            c.sample({"reads": [t[-1] for t in traces if len(json.dumps(t[-1])) < 2000][:2]})
        for s in part:
            os.unlink(s["path"])
        if not judged(c, [s["job"] for s in part], traces):
            return False
    return True


class Vast(Gaps):
    """like Gaps; what lies between the clusters are megabytes"""

    def _feature(self, i, dup_ids, multi, empties):
        f = super()._feature(i, dup_ids, multi, empties)
        rnd = self.rnd
        if i < self.huge:
            f["vertices"] = f["vertices"][:2]
            o = next(iter(f["CityObjects"].values()))
            o["children"] = ["x" * rnd.choice([300000, 1100000, 1700000, 3000000, 5000000])]
            self.refact(f)
        elif rnd.random() < .1:
            o = next(iter(f["CityObjects"].values()))
            o["children"] = ["y" * rnd.choice([3000, 60000, 200000, 280000])]
            self.refact(f)
        return f


def read(mode, q, t, **k):
    if mode == "browser":
        q, t = p_browser.js_of(q, t)
    if mode in ("seek", "seq"):
        k["touched"] = True
    return dict(rd(mode, q, **k), want="id"), {x: [{"n": y["n"]} for y in v] if x == "c" else v for x, v in t.items()}


def ask(d, rnd, mode, k):
    qs = [d.q_bbox() for _ in range(2 * k)] + [d.q_point("point"), d.q_point("nearest")] if d.index else []
    if d.attr:
        qs += [d.q_attr(1) for _ in range(k)] + [d.q_attr(2)]
    qs.append(d.q_all())
    return [read(mode, q, t) for q, t in qs] + [read(mode, *rnd.choice(qs), max=rnd.choice([0, 1, 2]))]


def readers(c, mode):
    web = mode == "browser"
    types = ["Double", "String", "Bool"] if web else ["Int", "String", "Double", "ULong"]
    S = []
    for i in range(c.n(30, 400)):
        rnd = c.sub((mode, i))
        d = DataSet(rnd, rnd.choice([1, 2, 5, 20, 60, 300]), cols=rnd.choice([0, 1, 2]), types=types, index=rnd.random() < .8,
                    pool=rnd.choice([2, 30]), exact=True, spread=rnd.choice([4, 100]))
        S.append({"d": d, "nodes": d.index, "reads": ask(d, rnd, mode, 2)})
    for i in range(c.n(6, 60)):
        rnd = c.sub((mode, "vast", i))
        d = [Vast(rnd, rnd.choice([40, 120]), huge=rnd.choice([5, 9]), cols=1, types=types, pool=rnd.choice([3, 20]), index=i % 3 != 1),
             Heavy(rnd, 40, size=(2000, 30000), cols=1, types=types, pool=3)][i % 4 == 3]
        S.append({"d": d, "nodes": d.index, "reads": ask(d, rnd, mode, 3)})
    # indexes of megabytes that most queries have nothing to do with
    for i in range(c.n(1 if web else 2, 10)):
        rnd = c.sub((mode, "crowd", i))
        d = Crowd(rnd, (30000, 36000)[i % 2], per=1, index=True, attr=[["s", rnd.choice([None, 16])], ["k", rnd.choice([None, 16, 40])]])
        conds = [({"attr": [x[0]]}, {"k": "attr", "c": [x[1]]}) for x in [d.cond(nm) for nm in ("sss" if web else "kkkss")]]
        # boxes over the lines where the order of the items jumps
        high = d.count // d.row
        over = [(d.row // 2, 2), (d.row // 2, rnd.randrange(high)), (d.row // 4, rnd.randrange(high)), (rnd.randrange(d.row), high // 2)]
        over = [[x - 1, y - 1, x + 1, y + 1] for x, y in over]
        qs = [({"q": ["bbox"] + [float(v) for v in b]}, {"k": "bbox", "b": b}) for b in over]
        qs += [d.q_bbox() for _ in range(4)] + [d.q_point("point"), d.q_point("nearest")] + conds
        few = [read(mode, *d.q_all(), max=k) for k in (0, 1)]   # no index at all
        S.append({"d": d, "nodes": True, "reads": [read(mode, q, t) for q, t in qs] + few})
    return files(c, S, web)



def f24(c):
    c.design("CostMC", "CostMCDeep.cfg" if c.thorough else "CostMC.cfg", timeout=850)
    if not searches(c):
        return
    modes = ["http", "browser"]
    try:
        build.build(browser=True)
    except build.BuildError as e:   # F22 cannot be decided then; this one can, for the native reader
        modes, c.notes["browser"] = modes[:1], f"not built: {e}"[:300]
    for mode in modes:
        if not readers(c, mode):
            return


def f25(c):
    c.design("CostMC", "CostMCDeep.cfg" if c.thorough else "CostMC.cfg", timeout=850)
    for mode in ("seek", "seq"):
        if not readers(c, mode):
            return


CHECKS = {"F24": f24, "F25": f25}
