"""F02: the bytes of a written file, section by section (spec/Layout.tla)."""
import json
import struct

import fb
import run
import tlc
from data import COLKEY, DataSet
from p_index import SIZE, cmpval, kmax, parse_stree

M31 = 2**31 - 1


def levels(n, b):
    t, m = n, n
    while True:
        m = -(-m // b)
        t += m
        if m == 1 or b < 2:
            return t


def file_event(d, b):
    """the event of one dumped file, or what is wrong with its bytes"""
    u32 = lambda p: struct.unpack_from("<I", b, p)[0]
    hsize = u32(8)
    h = fb.root(b, 8)
    count = h.scalar(4, "<Q", 0)
    node = h.scalar(5, "<H", 16)
    n = len(d.facts)
    cols = {c.scalar(0, "<H", 0): (c.string(1), c.scalar(2, "<B", 0)) for c in h.tables(2)}
    at = 8 + 4 + hsize
    rnodes = []
    if node > 0 and count > 0:
        total = levels(count, node)
        if at + 40 * total > len(b):
            return f"{total} index nodes do not fit the file"
        for i in range(total):
            x = struct.unpack_from("<4dQ", b, at + 40 * i)
            m = [(c - d.far[i % 2]) * d.unit for i, c in enumerate(x[:4])]
            rnodes.append([round(c) for c in m] + [min(x[4], M31)])
            if any(c != round(c) for c in m):
                return f"index node {i}: coordinate off the grid {x}"
        at += 40 * total
    attrs, byidx = [], {i: (nm, ct) for nm, (i, ct) in d.cols.items()}
    v = h.vector(6)
    for k in range(v[1] if v else 0):
        p = v[0] + 16 * k
        ix, = struct.unpack_from("<H", b, p)
        ln, = struct.unpack_from("<I", b, p + 4)
        bf, = struct.unpack_from("<H", b, p + 8)
        nu, = struct.unpack_from("<I", b, p + 12)
        if ix not in byidx:
            return f"attribute index over unknown column {ix}"
        nm, ct = byidx[ix]
        kt = COLKEY[ct]
        if at + ln > len(b) or bf < 2:
            return f"attribute index of {nm}: length {ln}, branching factor {bf}"
        t = parse_stree(kt, bf, {"bytes": b[at:at + ln].hex(), "num_items": nu})
        if isinstance(t, str):
            return f"attribute index of {nm}: {t}"
        at += ln
        items, nleaf, los = t
        have = set()
        for no, f in enumerate(d.features):
            for o in f["CityObjects"].values():
                x = o.get("attributes", {}).get(nm)
                if x is not None:
                    have.add((cmpval(kt, x), no + 1))
        ks = {k for k, _ in items} | {k for k, _ in have} | {kmax(kt)}
        rank = {k: i + 1 for i, k in enumerate(sorted(ks))}
        ni = len(items) - nleaf
        attrs.append({"col": ix, "len": ln, "w": SIZE[kt] + 8, "bf": bf, "n": nu,
                      "inner": [[rank[k], min(q, M31)] for k, q in items[:ni]],
                      "leaf": [rank[k] for k, _ in items[ni:]],
                      "offs": [[min(o, M31) for o in l] for l in los],
                      "payused": sum(4 + 8 * len(l) for (k, q), l in zip(items[ni:], los) if q >> 63),
                      "entries": [[rank[k], no] for k, no in sorted(have)],
                      "top": rank[kmax(kt)]})
    fs, feats = at, []
    ids = {f["id"]: i + 1 for i, f in enumerate(d.facts)}
    while at < len(b):
        if at + 8 > len(b) or at + 4 + u32(at) > len(b):
            return f"bytes after the last feature at {at} of {len(b)}"
        size = 4 + u32(at)
        f = fb.root(b, at)
        feats.append({"at": at - fs, "size": size, "no": ids.get(f.string(0), 0)})
        at += size
    return {"ev": "file", "len": len(b), "magic": b[:3] == b"fcb" and b[4:7] == b"fcb", "hsize": hsize, "fs": fs, "node": node,
            "count": count, "n": n, "index": d.index, "feats": feats, "rnodes": rnodes,
            "boxes": [f["b"] for f in d.facts], "attrs": attrs, "wanted": [d.cols[nm][0] for nm, _ in d.attr]}


def trace(d, ob):
    if ob.get("write", "ok") != "ok" or "bytes" not in ob:
        return [{"ev": "writefail", "why": json.dumps({k: ob[k] for k in ob if k not in ("id", "bytes")})[:400]}]
    try:
        e = file_event(d, bytes.fromhex(ob["bytes"]))
    except (struct.error, UnicodeDecodeError, IndexError) as x:
        e = f"unreadable: {x}"
    return [{"ev": "bad", "why": e} if isinstance(e, str) else e]


def dataset(rnd, i):
    n = rnd.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 18, 31, 33, 40])
    if i % 20 == 19:
        n = rnd.choice([200, 255, 256, 257, 258, 272, 273, 289])
    if i % 15 == 3:
        return DataSet(rnd, rnd.choice([3, 8, 20]), wide=rnd.choice([257, 300, 513]), pool=3)
    return DataSet(rnd, n, cols=rnd.choice([0, 1, 2, 3, 4]), index=rnd.random() < .8, pool=rnd.choice([1, 2, 4, 12, 40]),
                   attr=None if rnd.random() < .8 else [], bfs=(None, 2, 3, 4, 7, 16, 64), said=rnd.choice(["true", "zero", "less", "more"]))


def f02(c):
    c.design("LayoutMC", "LayoutMCDeep.cfg" if c.thorough else "LayoutMC.cfg")
    n = c.n(400, 6000)
    for a in range(0, n, 800):
        ds = [dataset(c.sub(j), j) for j in range(a, min(n, a + 800))]
        jobs = []
        for j, d in enumerate(ds):
            w = d.write_job()
            if c.sub(f"o{j}").random() < .3:
                w["sink"] = {"chunk": 1 + j % 7}
            w["opts"]["index_node_size"] = [None, 16, 2, 4, 0][j % 5] if d.index else None
            jobs.append({"op": "session", "write": w, "dump": True, "reads": []})
        res = run.run_jobs(jobs)
        traces = [trace(d, o) for d, o in zip(ds, res)]
        v = tlc.check_traces("LayoutTrace", traces)
        c.verdict(v, len(traces))
        for i, j in v.rejected:
            c.violation(f"file not laid out as Layout says: {json.dumps(traces[i][j])[:300]}",
                        {"event": traces[i][j], "job": jobs[i]})
        if v.rejected:
            return
        if a == 0:
            c.sample({"trace": next(t for t, d in zip(traces, ds) if 2 <= len(d.facts) <= 3)})


CHECKS = {"F02": f02}
