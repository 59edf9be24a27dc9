"""Checks of the index structures: static B+-tree (F07), packed R-tree (F08)."""
import json
import os
import struct
import tempfile

import run
import tlc
from data import DATES, RANGE, WORDS, COLKEY, dt_parse, f32, value_pool

INF = float("inf")
TAG = 1 << 63


# ---------------------------------------------------------------- keys: comparable values, bytes
def cmpval(kt, v):
    if kt[0] in "iu":
        return int(v)
    if kt == "bool":
        return 1 if v else 0
    if kt == "f32":
        return f32(v) + 0.0
    if kt == "f64":
        return float(v) + 0.0
    if kt == "dt":
        return dt_parse(v) if isinstance(v, str) else tuple(v)
    return v.encode()


FMT = {"i8": "<b", "u8": "<B", "i16": "<h", "u16": "<H", "i32": "<i", "u32": "<I", "i64": "<q", "u64": "<Q",
       "f32": "<f", "f64": "<d", "bool": "<B"}
SIZE = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8, "bool": 1,
        "dt": 12, "s20": 20, "s50": 50, "s100": 100}
KMAX = {"f32": INF, "f64": INF, "bool": 1, "dt": (253402300799, 999999999)}


def kmax(kt):
    if kt[0] == "s":
        return b"\xff" * SIZE[kt]
    if kt in KMAX:
        return KMAX[kt]
    return RANGE[{v: k for k, v in COLKEY.items()}[kt]][1]


def decode(kt, b):
    """the value stored in a key's bytes"""
    if kt in FMT:
        return struct.unpack(FMT[kt], b)[0] + (0.0 if kt[0] == "f" else 0)
    if kt == "dt":
        return struct.unpack("<qI", b)
    return b.rstrip(b"\0") if not b.startswith(b"\xff" * len(b)) else b


def pool(rnd, kt, n):
    if kt == "bool":
        return [True, False]
    ct = {v: k for k, v in COLKEY.items()}.get(kt, "String")
    if n <= 8:
        p = value_pool(rnd, ct, n)
    elif ct in RANGE:
        lo, hi = RANGE[ct]
        k = rnd.random()
        if k < .4:
            base = rnd.choice([lo, hi - 3 * n, max(lo, -n), 0])
            p = [x for x in range(base, base + 3 * n, rnd.choice([1, 2, 3])) if lo <= x <= hi]
        else:
            p = [rnd.randint(lo, hi) for _ in range(n)] + [lo, hi, hi - 1, lo + 1]
    elif ct in ("Float", "Double"):
        p = [x / 8 for x in range(-n, 2 * n)] + [1e30, -1e30, 0.1, 1e10]
    elif ct == "DateTime":
        p = [[rnd.randint(-10**9, 4 * 10**9), rnd.choice([0, 0, 500000000, 999999999])] for _ in range(n)]
        p += [[1000 + i // 3, (i % 3) * 1000] for i in range(n)]
    else:
        m = SIZE[kt] - 2
        p = [w for w in WORDS if len(w.encode()) <= m] + ["k%04d" % i for i in range(n)] + ["é%d" % i for i in range(n // 4)]
    if kt[0] == "s":
        p = [w for w in p if len(w.encode()) < SIZE[kt]] or ["k"]   # longer strings are beyond the key
    out, seen = [], set()
    rnd.shuffle(p)
    for v in p:
        c = cmpval(kt, v)
        if c not in seen:
            seen.add(c)
            out.append(v)
    return out[:max(1, n)]


VIAS = ("mem", "buf", "stream", "http", "rawhttp")


class TreeCase:
    """some indexes over one key type, with queries; knows how to become a trace"""

    def __init__(self, kt, indexes, queries, **opts):
        self.kt = kt
        self.indexes = indexes     # [(name, bf, [(value, offset)])]
        self.queries = queries
        self.huge = opts.pop("huge", False)
        self.job = dict(op="stree", type=kt, dump=not self.huge, queries=queries,
                        indexes=[dict(name=n, bf=b, entries=[[v, str(o)] for v, o in e]) for n, b, e in indexes], **opts)

    def trace(self, ob):
        kt = self.kt
        if ob.get("build") != "ok":
            return [{"ev": "broken", "why": json.dumps({k: ob[k] for k in ob if k != "id"})[:500]}]
        ks = {kmax(kt)}
        offs = set()
        for _, _, es in self.indexes:
            ks.update(cmpval(kt, v) for v, _ in es)
            offs.update(o for _, o in es)
        for q in self.queries:
            vals = [c[2] for c in q[1]] if q[0] == "conds" else q[1:]
            ks.update(cmpval(kt, v) for v in vals if v is not None)
        dumps = []
        for (name, bf, es), o in zip([] if self.huge else self.indexes, ob["indexes"]):
            d = parse_stree(kt, bf, o)
            if isinstance(d, str):
                return [{"ev": "broken", "why": d}]
            ks.update(k for k, _ in d[0])
            dumps.append(d)
        rank = {k: i + 1 for i, k in enumerate(sorted(ks))}
        oid = {o: i + 1 for i, o in enumerate(sorted(offs))}
        ev = []
        for i, (name, bf, es) in enumerate(self.indexes if self.huge else []):
            ev.append({"ev": "huge", "name": name, "first": i == 0, "B": bf, "top": rank[kmax(kt)],
                       "n": len({cmpval(kt, v) for v, _ in es}), "entries": [[rank[cmpval(kt, v)], oid[o]] for v, o in es]})
        for i, ((name, bf, es), (inner_leaf, nleaf, los)) in enumerate(zip(self.indexes, dumps)):
            ni = len(inner_leaf) - nleaf
            ev.append({"ev": "tree", "name": name, "first": i == 0, "n": nleaf, "B": bf, "top": rank[kmax(kt)],
                       "inner": [[rank[k], min(p, 2**31 - 1)] for k, p in inner_leaf[:ni]],
                       "leaf": [rank[k] for k, _ in inner_leaf[ni:]],
                       "offs": [[oid.get(x, 0) for x in l] for l in los],
                       "entries": [[rank[cmpval(kt, v)], oid[o]] for v, o in es]})
        r1 = lambda v: [] if v is None else [rank[cmpval(kt, v)]]
        for q, a in zip(self.queries, ob["answers"]):
            e = {"ev": "q", "kind": q[0], "lo": [], "hi": [], "conds": [], "len": ob["len"],
                 "reqs": [min(x[0], 2**31 - 1) for x in a["log"]], "ans": []}
            if q[0] == "conds":
                e["conds"] = [{"n": n, "op": op, "v": rank[cmpval(kt, v)]} for n, op, v in q[1]]
            else:
                e["lo"] = r1(q[1])
                e["hi"] = r1(q[2]) if q[0] == "range" else []
            for via in VIAS:
                if via in a:
                    ok = isinstance(a[via], list)
                    e["ans"].append({"via": via, "ok": ok, "r": [oid.get(x, 0) for x in a[via]] if ok else [],
                                     "why": "" if ok else json.dumps(a[via])[:200]})
            ev.append(e)
        return ev


def parse_stree(kt, bf, o):
    """([(key, pointer)], number of leaves, [offsets of each leaf]) or what is wrong with the bytes"""
    b = bytes.fromhex(o["bytes"])
    n, w = o["num_items"], SIZE[kt] + 8
    levels, m = [n], n
    while True:
        m = -(-m // bf)
        levels.append(m)
        if m < bf:
            break
    total = sum(levels)
    if len(b) < total * w:
        return f"{len(b)} bytes for {total} items of {w}"
    items = []
    for i in range(total):
        x = b[i * w:(i + 1) * w]
        items.append((decode(kt, x[:-8]), struct.unpack("<Q", x[-8:])[0]))
    pay = b[total * w:]
    los, used = [], 0
    for k, p in items[total - n:]:
        if p & TAG:
            at = p & ~TAG
            if at + 4 > len(pay):
                return "payload reference outside the payload"
            c = struct.unpack("<I", pay[at:at + 4])[0]
            if at + 4 + 8 * c > len(pay):
                return "payload entry outside the payload"
            los.append(list(struct.unpack(f"<{c}Q", pay[at + 4:at + 4 + 8 * c])))
            used += 4 + 8 * c
        else:
            los.append([p])
    if used != len(pay):
        return f"payload of {len(pay)} bytes, {used} of them referenced"
    return items, n, los


def judge_trees(c, cases, module="STreeTrace", match="range-upper-bound-at-node-start"):
    res = run.run_jobs([t.job for t in cases])
    traces = [t.trace(o) for t, o in zip(cases, res)]
    v = tlc.check_traces(module, traces)
    c.verdict(v, len(cases))
    for i, j in v.rejected:
        t, e = cases[i], traces[i][j]
        job = t.job
        c.violation(f"event {j} is not a behaviour of {module[:-5]}: {json.dumps(e)[:600]}",
                    {"event": e, "tree": traces[i][0] if len(json.dumps(traces[i][0])) < 20000 else "large",
                     "job": job if len(json.dumps(job)) < 100000 else "large"})
    if any("upper-bound-lost" in n for n in v.notes):
        k = [f for f in c.findings if f.get("match") == match]
        if k:
            c.notes["known deviation seen"] = c.notes.get("known deviation seen", 0) + len(v.notes)
            c.known = [k[0].get("what", match)]
        else:
            c.violation("a range search loses its upper bound when it is the first key of a leaf node", {"notes": v.notes[:3]})
    return traces, not v.rejected


def offsets(rnd, n):
    k = rnd.random()
    if k < .5:
        o = [100 * i for i in range(n)]
    elif k < .8:
        o = sorted(rnd.sample(range(0, 40 * n + 10), n))
    else:
        o = [rnd.choice([0, 2**32, 2**40, 2**62]) + i for i in range(n)]
        o = list(dict.fromkeys(o))
        while len(o) < n:
            o.append(o[-1] + 1)
    return o


def tree_case(rnd, kt=None, big=False):
    kt = kt or rnd.choice(list(SIZE))
    nk = rnd.choice([1, 1, 2, 3, 4, 5, 8, 13, 16, 17, 31, 40, 65, 100])
    if big:
        nk = rnd.choice([3, 20, 150, 280])
    ps = pool(rnd, kt, nk)
    idx = []
    shared = None
    for name in ["a", "b", "c"][:rnd.choice([1, 1, 2, 3])]:
        sub = ps if name == "a" or rnd.random() < .5 else rnd.sample(ps, max(1, len(ps) // 2))
        sub = sorted(sub, key=lambda v: cmpval(kt, v))
        dup = rnd.choice([0, .2, .8])
        reps = []
        for v in sub:
            m = 1
            if rnd.random() < dup:
                m = rnd.choice([2, 3, 7])
            reps.append(m)
        if big and name == "a":
            for _ in range(rnd.choice([1, 3])):
                reps[rnd.randrange(len(reps))] = rnd.choice([600, 2100, 4100])
        tot = sum(reps)
        if shared is None:
            shared = offsets(rnd, tot + 3)
        pl = list(shared)
        while len(pl) < tot:
            pl.append(pl[-1] + 7)
        share = rnd.random() < .3          # one offset under several keys (a feature with several values)
        rnd.shuffle(pl)
        es, at = [], 0
        for v, m in zip(sub, reps):
            if share and m < len(pl) // 2:
                s = rnd.sample(pl, m)
            else:
                s = pl[at:at + m]
                at += m
            es += [(v, o) for o in s]
        idx.append((name, rnd.choice([2, 2, 3, 3, 4, 5, 7, 16, 17, 64, 300]), es))
    vals = ps + pool(rnd, kt, 6)
    q = []
    for _ in range(12 if big else 30):
        k = rnd.random()
        if k < .3:
            q.append(["exact", rnd.choice(vals)])
        elif k < .65:
            lo, hi = rnd.choice(vals), rnd.choice(vals)
            if rnd.random() < .8 and cmpval(kt, lo) > cmpval(kt, hi):
                lo, hi = hi, lo
            q.append(["range", lo if rnd.random() < .85 else None, hi if rnd.random() < .85 else None])
        else:
            names = [n for n, _, _ in idx]
            cs = [[rnd.choice(names), rnd.choice(["eq", "ne", "lt", "le", "gt", "ge"]), rnd.choice(vals)]
                  for _ in range(rnd.choice([1, 1, 2, 3]))]
            if rnd.random() < .03:
                cs = [["nosuch", "eq", rnd.choice(vals)]]
            q.append(["conds", cs])
    return TreeCase(kt, idx, q, prefix=rnd.choice([0, 1, 37, 5000]), suffix=rnd.choice([0, 0, 3, 100, 70000]),
                    chunk=rnd.choice([0, 0, 1, 7]) if not big else 0, threshold=rnd.choice([0, 64, 300, 1 << 20]),
                    min_req=rnd.choice([0, 0, 100, 5000]))


def universe_trees(c):
    """every design state of STreeMC's universe, with every exact and range query, on the real code"""
    out = os.path.join(tempfile.mkdtemp(dir=run.scratch()), "u")
    tlc.tlc("STreeMC", "STreeOut.cfg", env={"OUT": out})
    cases = []
    for line in open(out):
        u = json.loads(line)
        kt = c.rnd.choice(["i32", "u16", "s20", "f64"])
        n, top = u["n"], u["top"]
        if kt == "i32":
            val = lambda r: 2**31 - 1 if r == top else -5 + r
        elif kt == "u16":
            val = lambda r: 65535 if r == top else r
        elif kt == "f64":
            val = lambda r: "inf" if r == top else r / 4
        else:
            val = lambda r: "k%03d" % r
        qs = [["exact", val(r)] for r in range(1, top + 1)]
        ends = list(range(1, top + 1))
        qs += [["range", val(a), val(b)] for a in ends for b in ends if b >= a - 1]
        qs += [["range", None, val(b)] for b in ends] + [["range", val(a), None] for a in ends] + [["range", None, None]]
        es = []
        for i, r in enumerate(u["keys"]):
            for k in range(c.rnd.choice([1, 1, 2])):
                es.append((val(r), 10 * i + k))
        cases.append(TreeCase(kt, [("a", u["B"], es)], qs, prefix=9, suffix=c.rnd.choice([0, 40])))
    return cases


def huge_case(rnd, n, per, bf):
    """an index with more entries than any buffer, page or prefetch of the reader holds"""
    kt = rnd.choice(["i32", "u32", "f64", "s20", "dt"])
    val = {"i32": lambda i: i - n // 2, "u32": lambda i: 7 * i, "f64": lambda i: i / 4 - 100, "s20": lambda i: "k%07d" % i,
           "dt": lambda i: [1000 + i // 3, (i % 3) * 1000]}[kt]
    es, o = [], 0
    for i in range(n):
        for _ in range(per(i)):
            es.append((val(i), o))
            o += rnd.choice([1, 50])
    a, b = sorted(rnd.sample(range(1, n - 1), 2))
    q = [["conds", [["a", "ge", val(rnd.randrange(3))]]], ["range", val(2), val(n - 2)], ["exact", val(a)], ["exact", val(n - 1)],
         ["conds", [["a", "ne", val(b)]]], ["range", val(a), val(b)], ["conds", [["a", "le", val(a)]]],
         ["conds", [["a", "gt", val(n - 40)]]]]
    return TreeCase(kt, [("a", bf, es)], q, prefix=100, suffix=rnd.choice([0, 1000]), threshold=1 << 18, min_req=rnd.choice([0, 5000]),
                    huge=True)


def f07(c):
    c.design("STreeMC", "STreeMCDeep.cfg" if c.thorough else "STreeMC.cfg")
    cases = universe_trees(c)
    traces, ok = judge_trees(c, cases)
    c.notes["universe"] = {"trees": len(cases), "queries": sum(len(t.queries) for t in cases)}
    if not ok:
        return
    c.sample({"trace": traces[0][:4]})
    n = c.n(400, 6000)
    for i in range(0, n, 600):
        part = [tree_case(c.sub(j), kt=list(SIZE)[j % len(SIZE)]) for j in range(i, min(n, i + 600))]
        _, ok = judge_trees(c, part)
        if not ok:
            return
    big = [tree_case(c.sub(f"big{j}"), big=True) for j in range(c.n(16, 150))]
    _, ok = judge_trees(c, big)
    if ok:
        r = c.sub("huge")
        shapes = [(64000, lambda i: 3, 16), (70000, lambda i: 1 + (i % 5 == 0), 16), (20000, lambda i: 9 if i % 2 else 1, 300)]
        judge_trees(c, [huge_case(r, *s) for s in shapes])


# ---------------------------------------------------------------- F08
class BoxCase:
    """boxes and queries for the packed R-tree.  rank: coordinates are arbitrary floats, TLC sees their ranks;
    otherwise they are multiples of 1/unit and TLC sees integers (needed for nearest)."""

    def __init__(self, boxes, ns, queries, rank, unit=4, **opts):
        self.boxes, self.ns, self.queries, self.rank, self.unit = boxes, ns, queries, rank, unit
        self.offs = []
        at = opts.pop("first", 0)
        step = opts.pop("step", lambda i: 100)
        for i in range(len(boxes)):
            self.offs.append(at)
            at += step(i)
        self.job = dict(op="rtree", boxes=boxes, offsets=self.offs, node_size=ns, queries=queries, dump=True, **opts)

    def trace(self, ob):
        if ob.get("build") != "ok" or ob.get("write") != "ok":
            return [{"ev": "broken", "why": json.dumps({k: ob[k] for k in ob if k != "id"})[:500]}]
        b = bytes.fromhex(ob["bytes"])
        nodes = [struct.unpack("<4dQ", b[i:i + 40]) for i in range(0, len(b) - 39, 40)]
        if self.rank:
            mx, my = {}, {}
            xs, ys = set(), set()
            for o in list(nodes) + self.boxes:
                xs.update((o[0] + 0.0, o[2] + 0.0))
                ys.update((o[1] + 0.0, o[3] + 0.0))
            for q in self.queries:
                xs.update(v + 0.0 for v in q[1::2])
                ys.update(v + 0.0 for v in q[2::2])
            if any(x != x for x in xs | ys):
                return [{"ev": "broken", "why": "NaN in a node"}]
            mx = {x: i for i, x in enumerate(sorted(xs))}
            my = {y: i for i, y in enumerate(sorted(ys))}
            X, Y = (lambda v: mx[v + 0.0]), (lambda v: my[v + 0.0])
        else:
            def X(v):
                w = v * self.unit
                return int(w) if w == int(w) and abs(w) < 20000 else 99999
            Y = X
        try:
            nd = [[X(a), Y(y), X(c), Y(d), 0] for a, y, c, d, _ in nodes]
        except (OverflowError, ValueError):
            return [{"ev": "broken", "why": "a node box that is not finite"}]
        first_leaf = len(nodes) - len(self.boxes)
        oid = {o: i + 1 for i, o in enumerate(self.offs)}
        for i, x in enumerate(nodes):
            nd[i][4] = min(x[4], 2**31 - 1) if i < first_leaf else oid.get(x[4], 0)
        ev = [{"ev": "tree", "n": len(self.boxes), "B": self.ns, "nodes": nd,
               "boxes": [[X(a), Y(y), X(c), Y(d)] for a, y, c, d in self.boxes],
               "offs": list(range(1, len(self.offs) + 1)),
               "size": ob["size"], "len": ob["len"], "isize": ob["index_size"]}]
        total = self.job.get("prefix", 0) + len(b) + self.job.get("attr_size", 0) + self.job.get("suffix", 0)
        for q, a in zip(self.queries, ob["answers"]):
            k = {"bbox": "bbox", "point": "point", "nearest": "near"}[q[0]]
            v = [(X if i % 2 == 0 else Y)(x) for i, x in enumerate(q[1:])]
            ans = []
            for via in ("mem", "buf", "stream", "http"):
                r = a[via]
                if isinstance(r, dict):
                    ok, rs, es = "r" in r, r.get("r", []), r.get("e", [])
                else:
                    ok, rs, es = True, r, []
                ans.append({"via": via, "ok": ok, "r": [oid.get(x, 0) for x in rs],
                            "e": [0 if x is None else oid.get(x, -1) for x in es],
                            "why": "" if ok else json.dumps(r)[:200]})
            ev.append({"ev": "q", "q": {"k": k, "b": v}, "ans": ans, "len": total,
                       "reqs": [min(x[0], 2**31 - 1) for x in a["http"].get("log", [])]})
        return ev


def judge_boxes(c, cases):
    res = run.run_jobs([t.job for t in cases])
    traces = [t.trace(o) for t, o in zip(cases, res)]
    return judge_plain(c, "RTreeTrace", cases, traces), traces


def judge_plain(c, module, cases, traces, what=None):
    v = tlc.check_traces(module, traces)
    c.verdict(v, len(cases))
    for i, j in v.rejected:
        e = traces[i][j]
        job = getattr(cases[i], "job", cases[i])
        c.violation(f"event {j} is not a behaviour of {module[:-5]}: {json.dumps(e)[:700]}",
                    {"event": e, "first": traces[i][0] if len(json.dumps(traces[i][0])) < 20000 else "large",
                     "job": job if len(json.dumps(job)) < 100000 else "large"})
    return not v.rejected


def hilbert_perms(c, cases):
    """orders the boxes of every case as the writer does; each ordering is an event of its own"""
    res = run.run_jobs([dict(op="hilbert", boxes=b) for b in cases])
    traces = [[{"ev": "sort", "n": len(b), "perm": [x + 1 for x in r.get("perm", [])]}] for b, r in zip(cases, res)]
    return traces, res


def fnum(rnd, spread):
    k = rnd.random()
    if k < .4:
        return rnd.uniform(-spread, spread)
    if k < .7:
        return float(rnd.randint(-5, 5))
    if k < .8:
        return rnd.choice([0.0, -0.0, 1e-300, 1e300, -1e300, 1e9, 0.1, 0.3, 123456.789])
    return rnd.choice([-1, 1]) * rnd.random() * 10 ** rnd.randint(-5, 9)


def box_case(rnd, big=False):
    rank = rnd.random() < .5
    n = rnd.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 33, 60]) if not big else rnd.choice([255, 256, 257, 300, 520])
    unit = 4
    sp = rnd.choice([3, 30, 200])
    boxes = []
    for i in range(n):
        if rank:
            x, y = sorted([fnum(rnd, 100), fnum(rnd, 100)]), sorted([fnum(rnd, 100), fnum(rnd, 100)])
            if rnd.random() < .3:
                x[1] = x[0]
            boxes.append([x[0], y[0], x[1], y[1]])
        else:
            x, y = rnd.randint(-sp, sp), rnd.randint(-sp, sp)
            w, h = rnd.choice([0, 0, 1, 2, sp]), rnd.choice([0, 1, 3, sp])
            boxes.append([x / unit, y / unit, (x + w) / unit, (y + h) / unit])
    if rnd.random() < .3 and n > 1:   # several items in the same place
        for _ in range(n // 2):
            boxes[rnd.randrange(n)] = list(rnd.choice(boxes))
    qs = []
    allx, ally = [v for b in boxes for v in (b[0], b[2])], [v for b in boxes for v in (b[1], b[3])]

    def pick(vals):
        k = rnd.random()
        v = rnd.choice(vals)
        if rank:
            return v if k < .6 else fnum(rnd, 100)
        return v + rnd.choice([0, 0, 0, .25, -.25]) if k < .7 else rnd.randint(-2 * sp, 2 * sp) / unit
    for _ in range(10 if big else 16):
        k = rnd.random()
        if k < .5:
            x, y = sorted([pick(allx), pick(allx)]), sorted([pick(ally), pick(ally)])
            qs.append(["bbox", x[0], y[0], x[1], y[1]])
        elif k < .75 or rank:
            qs.append(["point", pick(allx), pick(ally)])
        else:
            p = [pick(allx), pick(ally)]
            if rnd.random() < .3:
                p = [rnd.randint(-2000, 2000) / unit, rnd.randint(-2000, 2000) / unit]
            qs.append(["nearest"] + p)
    if rnd.random() < .5:
        qs.append(["bbox", min(allx), min(ally), max(allx), max(ally)])
    step = rnd.choice([lambda i: 100, lambda i: 1 + (i * 7) % 13, lambda i: 3])
    return dict(boxes=boxes, ns=rnd.choice([2, 2, 3, 3, 4, 5, 16, 16, 17, 64, 65535]), queries=qs, rank=rank, unit=unit,
                prefix=rnd.choice([0, 1, 33, 5000]), attr_size=rnd.choice([0, 0, 77, 4000]), suffix=rnd.choice([10, 3000]),
                threshold=rnd.choice([0, 1, 39, 40, 41, 80, 400, 1 << 18]), min_req=rnd.choice([0, 0, 100, 4096]), step=step,
                first=rnd.choice([0, 0, 5, 2**33]))


def f08(c):
    c.design("RTreeMC", "RTreeMCDeep.cfg" if c.thorough else "RTreeMC.cfg", timeout=850)
    out = os.path.join(tempfile.mkdtemp(dir=run.scratch()), "u")
    tlc.tlc("RTreeMC", "RTreeOut.cfg", env={"OUT": out})
    cases = []
    for i, line in enumerate(open(out)):
        ls = json.loads(line)["lanes"]
        bx = [[10.0 * (k + 1), float(v), 10.0 * (k + 1) + 4, float(v)] for k, v in enumerate(ls)]
        n = len(ls)
        qs = [["bbox", 0, 0, 10 * n + 9, 0], ["nearest", 17, 0], ["point", 22, 0], ["bbox", 14, 0, 20, 1]]
        cases.append(BoxCase(bx, 2 + i % 2, qs, False, unit=1, suffix=50, threshold=[0, 40, 400][(i // 2) % 3]))
    c.notes["universe"] = {"trees": len(cases), "queries": 4}
    ok, traces = judge_boxes(c, cases)
    if not ok:
        return
    c.sample({"trace": traces[len(traces) // 2]})
    # random trees; the boxes are first put in Hilbert order for half of them
    for i in range(0, c.n(500, 8000), 500):
        raw = [box_case(c.sub(j)) for j in range(i, i + 500)]
        if i == 0:
            raw += [box_case(c.sub(f"b{j}"), big=True) for j in range(c.n(16, 160))]
        pt, perms = hilbert_perms(c, [r["boxes"] for r in raw])
        if not judge_plain(c, "RTreeTrace", [dict(op="hilbert", boxes=r["boxes"]) for r in raw], pt):
            return
        for j, (r, p) in enumerate(zip(raw, perms)):
            if j % 2:
                r["boxes"] = [r["boxes"][x] for x in p["perm"]]
        ok, _ = judge_boxes(c, [BoxCase(**r) for r in raw])
        if not ok:
            return
    # trees with more items than any page, level or request of the reader covers
    big = []
    for k, (n, ns) in enumerate([(70000, 16), (4500, 16), (9000, 3)] if not c.thorough else [(70000, 16), (140000, 16), (66000, 255), (9000, 2)]):
        rnd = c.sub(f"huge{k}")
        # two far apart clusters, in order along x; queries that touch both, one, the edges
        bx = [[x / 4, (i * 7 % 50) / 4, (x + 1) / 4, (i * 7 % 50 + i % 3) / 4]
              for i, x in ((i, (i // 5 if i < n // 2 else i // 5 + 9000) % 18000) for i in range(n))]
        a, b = bx[rnd.randrange(n // 2)], bx[n // 2 + rnd.randrange(n // 2)]
        qs = [["bbox", a[0], a[1], a[0] + 2, a[1] + 3], ["bbox", a[0], 0, b[2], 1], ["bbox", -1, -1, 4500, 20], ["point", b[0], b[1]],
              ["bbox", 0, 12, 4500, 12.25], ["nearest", a[0] + .25, -20], ["nearest", b[2] + 1, b[3]]]
        big.append(BoxCase(bx, ns, qs, False, prefix=33, attr_size=1000, suffix=10, threshold=rnd.choice([0, 4096, 1 << 18]), step=lambda i: 1 + i % 3))
    if not judge_boxes(c, big)[0]:
        return
    # sizes of trees too large to build
    sz = [[n, b] for n in range(1, 300) for b in (2, 3, 16)]
    rnd = c.sub("size")
    sz += [[rnd.choice([rnd.randint(1, 10**4), rnd.randint(1, 2 * 10**7), 16**k * m + d])
            , rnd.choice([2, 3, 4, 7, 16, 17, 255, 65535])]
           for k in range(1, 5) for m in (1, 2, 15) for d in (-1, 0, 1) for _ in range(10)]
    sz = [x for x in sz if x[0] >= 1]
    r = run.run_jobs([dict(op="level_bounds", cases=sz)])[0].get("sizes", [])
    t = [[{"ev": "isize", "n": n, "B": b, "size": s if isinstance(s, int) else -1}] for (n, b), s in zip(sz, r)]
    if len(t) != len(sz):
        c.violation("index_size does not answer", {"sizes": len(t)})
        return
    judge_plain(c, "RTreeTrace", [dict(n=n, B=b) for n, b in sz], t)


CHECKS = {"F07": f07, "F08": f08}
