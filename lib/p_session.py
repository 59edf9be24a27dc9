"""Checks over sessions: recorded by the harness, judged by TLC against spec/Fcb.tla."""
import copy
import json
import os
import tempfile
from fractions import Fraction

import docs
import run
import sess
import tlc
from data import COLKEY, RANGE, DataSet, canon, digest, key, value_pool
from sess import Session

MODES = ("seek", "seq", "http")


def rd(mode, sel, **k):
    return dict(dict(mode=mode, sel=sel, want="full"), **k)


def report(c, v, bad, n):
    c.verdict(v, n)
    for s, j in bad:
        t = s.trace
        lo = max(0, j - 6)
        # the open and select events this one belongs to
        head = [e for e in t[:j] if e["ev"] in ("open", "select")][-2:]
        c.violation(f"not a behaviour of the specification: event {j} {json.dumps(t[j])[:300]} after "
                    f"{json.dumps(head)[:400]} {s.tag}",
                    {"event": j, "rejected": t[j], "before": t[lo:j] if j - lo < 7 else t[lo:j], "context": head,
                     "file": {k: (x if len(json.dumps(x)) < 20000 else "large") for k, x in t[0].items()},
                     "job": s.job if len(json.dumps(s.job)) < 200000 else "large"})


def go(c, sessions, chunk=400):
    """run and judge; stops at the first violations"""
    for i in range(0, len(sessions), chunk):
        part = sessions[i:i + chunk]
        v, bad = sess.judge(part)
        if i == 0 and part:
            k = min(part, key=lambda s: abs(len(s.trace) - 30))
            c.sample({"trace": k.trace[:25]})
        report(c, v, bad, len(part))
        if bad:
            return False
    return True


def all_modes(s, t, o=None, **k):
    return [(rd(m, s, **k), t, o or {}) for m in MODES]


# ---------------------------------------------------------------- universes written out by TLC
class GenSet:
    """a data set of the universe of spec/FcbGen.tla"""

    def __init__(self, kind, us, index=True, bf=None):
        self.kind, self.index = kind, index
        self.features, self.facts = [], []
        self.cols = {"a": (0, "Int")} if kind == "attr" else {}
        self.attr = [["a", bf]] if kind == "attr" and any(us) else []
        for i, u in enumerate(us):
            fid = f"f{i}"
            objs = {}
            if kind == "space":
                b, a = u, {}
                verts = [[u[0], u[1], 0], [u[2], u[3], 5]]
                objs[fid] = {"type": "Building", "geometry": [{"type": "MultiPoint", "lod": "1", "boundaries": [0, 1]}]}
            else:
                b, verts = [i, i, i, i], [[i, i, 0]]
                a = {"a": [key("i32", x) for x in u]} if u else {}
                for k in range(max(1, len(u))):
                    objs[f"{fid}-{k}"] = {"type": "Building"}
                    if u:
                        objs[f"{fid}-{k}"]["attributes"] = {"a": u[k]}
            f = {"type": "CityJSONFeature", "id": fid, "CityObjects": objs, "vertices": verts}
            self.features.append(f)
            self.facts.append({"id": fid, "h": digest(f), "b": b, "a": a})

    def indexed(self):
        return {"a": "i32"} if self.attr else {}

    def write_job(self):
        cj = {"type": "CityJSON", "version": "2.0", "transform": {"scale": [1.0] * 3, "translate": [0.0] * 3},
              "CityObjects": {}, "vertices": []}
        return dict(cj=cj, features=self.features, sem=None, schema={"a": [0, "Int"]} if self.kind == "attr" else None,
                    opts=dict(write_index=self.index, attr=self.attr or None))


def universe(c, kind):
    """(data sets, queries) enumerated by TLC"""
    d = tempfile.mkdtemp(dir=run.scratch())
    out, q = os.path.join(d, "u"), os.path.join(d, "q")
    cfg = {"space": "FcbGenSpaceOut.cfg", "attr": "FcbGenAttrOut.cfg"}[kind]
    tlc.tlc("FcbGen", cfg, env={"OUT": out, "OUTQ": q})
    return ([json.loads(x)["u"] for x in open(out)], [json.loads(x) for x in open(q)])


def gen_read(mode, q):
    """a query of the specification as a call of the library, and back"""
    q = json.loads(json.dumps(q))
    if q["k"] == "bbox":
        sel = {"q": ["bbox"] + q["b"]}
    elif q["k"] in ("point", "near"):
        sel = {"q": ["nearest" if q["k"] == "near" else "point"] + q["p"]}
    elif q["k"] == "attr":
        for x in q["c"]:
            x["raw"] = x["v"][0]
            x["v"] = key("i32", x["v"][0])
        sel = {"attr": [[x["n"], x["op"], "i32", x.pop("raw")] for x in q["c"]]}
    else:
        sel = {}
    return (rd(mode, sel), q, {})


def replay_universe(c, kind, keep, sets, rnd, nq, modes=MODES, bfs=(None, 2, 3)):
    us, qs = universe(c, kind)
    qs = [q for q in qs if keep(q)]
    if sets < len(us):
        us = rnd.sample(us, sets)
    S = []
    for u in us:
        d = GenSet(kind, u, bf=rnd.choice(bfs))
        k = qs if nq >= len(qs) else rnd.sample(qs, nq)
        S.append(Session(d, [gen_read(m, q) for m in modes for q in k]))
    c.notes["universe:" + kind] = {"data sets": len(us), "queries": len(S[0].reads) if S else 0}
    return go(c, S)


# ---------------------------------------------------------------- F01
def f01(c):
    c.design("FcbGen", "FcbGenSpace.cfg")
    c.design("FcbGen", "FcbGenAttr.cfg")
    S = []
    for i in range(c.n(260, 2500)):
        rnd = c.sub(i)
        n = rnd.choice([0, 1, 1, 2, 3, 5, 9, 16, 17, 18, 33, 40])
        if i % 60 == 7:
            n = rnd.choice([257, 300, 273])
        d = DataSet(rnd, n, dup_ids=rnd.random() < .3, index=rnd.random() < .6, empties=rnd.random() < .5,
                    exact=rnd.random() < .6, said=rnd.choice(["true", "zero", "less", "more"]), pool=rnd.choice([2, 4, 12]))
        w = d.write_job()
        if d.index and not d.attr and rnd.random() < .2:
            w["opts"] = None   # the default options: spatial index, no attribute index
        elif rnd.random() < .3:
            w["opts"]["index_node_size"] = rnd.choice([0, 2, 4, 16, 33])
        reads = []
        for m in MODES:
            for _ in range(2):
                reads.append((rd(m, {}), {"k": "all"}, {}))
        S.append(Session(d, reads, write=w, tag=f"seed {i}"))
    if not go(c, S):
        return
    # files of several levels and of several HTTP batches
    S = []
    for i in range(c.n(3, 20)):
        rnd = c.sub(("big", i))
        d = DataSet(rnd, rnd.choice([1000, 2000, 4369, 1500]), cols=1, index=i % 2 == 0, spread=600)
        S.append(Session(d, [(rd(m, {}), {"k": "all"}, {}) for m in MODES]))
    for i in range(c.n(2, 10)):
        S.append(Session(Heavy(c.sub(("heavy", i)), 24, index=i % 2 == 0), [(rd(m, {}), {"k": "all"}, {}) for m in MODES]))
    # files of several megabytes, single features above a megabyte
    for i in range(c.n(2, 12)):
        d = Heavy(c.sub(("bulk", i)), 7, size=(20000, 110000), index=i % 2 == 0)
        S.append(Session(d, [(rd(m, {}), {"k": "all"}, {}) for m in MODES], tag=f"bulk {i}"))
    if not go(c, S):
        return
    # more features than two bytes can number
    S = []
    for i in range(c.n(1, 4)):
        d = Crowd(c.sub(("crowd", i)), c.n(66000, 140000), index=i % 2 == 0)
        S.append(Session(d, [(rd(m, {}), {"k": "all"}, {}) for m in MODES], tag=f"crowd {i}"))
    go(c, S, chunk=1)


class Crowd(DataSet):
    """a great number of small features on a grid; attr: with attribute indexes of as many keys as that takes"""

    def __init__(self, rnd, n, index=True, per=40, attr=(), row=300):
        self.per, self.count, self.row = per, n, row
        super().__init__(rnd, 0, cols=0, index=index, exact=True, spread=1)
        self.cols = {"k": (0, "UInt"), "s": (1, "String")} if attr else {"k": (0, "UInt")}
        self.attr = [[nm, bf] for nm, bf in attr]
        self.pools = {"k": [0, 1, n // per, n // per + 1]}
        self.scale, self.trans, self.grid = [1.0] * 3, [0.0] * 3, [(1, 0)] * 3
        self.unit_, self.unit, self.far = Fraction(1), 1.0, [0.0] * 3
        k = list(range(n))
        rnd.shuffle(k)
        for i in k:
            x, y = i % row, i // row
            at = {"k": i // per}
            f = {"type": "CityJSONFeature", "id": "f%d" % i, "vertices": [[x, y, 0]],
                 "CityObjects": {"o": {"type": "Building", "attributes": at}}}
            a = {"k": [key("u32", i // per)]}
            if attr:
                at["s"] = self.name(i // per)
                a["s"] = [key("s50", at["s"])]
            self.features.append(f)
            self.facts.append({"id": f["id"], "h": digest(f), "b": [x, y, x, y], "a": a})
        self.spread = 300

    def name(self, k):
        return "%x street %d" % (k * 7919 % 65521, k)

    def q_bbox(self):
        rnd, high = self.rnd, self.count // self.row
        w, h = rnd.choice([(0, 0), (1, 1), (3, 9), (20, 2), (100, 3), (1, self.count)])
        x, y = rnd.randint(-5, self.row + 5), rnd.randint(-5, high + 5)
        b = [x, y, x + w, y + h]
        return {"q": ["bbox"] + [float(v) for v in b]}, {"k": "bbox", "b": b}

    def q_point(self, kind):
        rnd = self.rnd
        p = [rnd.randint(-50, self.row + 50), rnd.randint(-50, self.count // self.row + 50)]
        if rnd.random() < .7:
            p = [rnd.randrange(self.row), rnd.randrange(self.count // self.row)]
        return {"q": [kind] + [float(v) for v in p]}, {"k": "near" if kind == "nearest" else "point", "p": p}

    def cond(self, nm=None):
        """selective ones: equal, or close to either end"""
        rnd, m = self.rnd, self.count // self.per
        nm = nm or rnd.choice(self.attr)[0]
        op, k = rnd.choice([("eq", rnd.randint(0, m + 3))] * 3 + [("lt", rnd.randint(0, 9)), ("le", rnd.randint(0, 9)),
                           ("gt", m - rnd.randint(0, 9)), ("ge", m - rnd.randint(0, 9)), ("ne", rnd.randint(0, m))])
        if nm == "s":
            op = "eq" if rnd.random() < .8 else op
            return cond_of(self, nm, op, self.name(k) if op == "eq" else {"l": "0", "g": "fff", "n": self.name(k)}[op[0]])
        return cond_of(self, nm, op, k)


def crowds(c, n, ask, attr=False):
    """files with indexes far larger than what an HTTP reader fetches at once"""
    S = []
    for i in range(n):
        rnd = c.sub(("crowd", i))
        d = Crowd(rnd, (20000, 6000, 30000, 9000)[i % 4], per=rnd.choice([1, 1, 2, 5]), index=not attr or rnd.random() < .5,
                  attr=[["k", rnd.choice([None, 2, 16, 40])], ["s", rnd.choice([None, 3, 16])]] if attr else ())
        S.append(Session(d, [(rd(m, q), t, {}) for q, t in ask(d, rnd) for m in MODES], tag=f"crowd {i}"))
    return go(c, S, chunk=8)


class Heavy(DataSet):
    """few features of tens of kilobytes, so that HTTP reads take several requests"""

    def __init__(self, rnd, n, size=(2000, 7000), **k):
        self.size = size
        super().__init__(rnd, n, exact=True, **k)

    def _feature(self, i, dup_ids, multi, empties):
        rnd = self.rnd
        f = super()._feature(i, dup_ids, multi, empties)
        # the box stays: the new vertices lie inside it
        v = f["vertices"]
        lo = [min(x[d] for x in v) for d in range(2)]
        hi = [max(x[d] for x in v) for d in range(2)]
        if rnd.random() < .8:
            extra = rnd.randint(*self.size)
            v += [[rnd.choice([lo[0], hi[0]]), rnd.choice([lo[1], hi[1]]), k] for k in range(extra)]
            self.refact(f)
        return f


class Gaps(DataSet):
    """clusters of small features far from each other, and between them in the file features of
    hundreds of kilobytes, some of megabytes: the selected features are far apart in the file"""

    def __init__(self, rnd, n, huge=2, **k):
        self.n, self.huge = n, huge
        self.at = [(x, y) for x in (-350, 350) for y in (-350, 350)]
        self.share = [rnd.choice([1, 1, 5, 10]) for _ in self.at]
        super().__init__(rnd, n, exact=True, spread=8, **k)
        self.spread = 350

    def _feature(self, i, dup_ids, multi, empties):
        rnd = self.rnd
        f = super()._feature(i, dup_ids, multi, empties)
        v = f["vertices"]
        if i < self.huge:
            m = rnd.choice([24000, 30000, 90000] if i else [24000, 30000])
            x, y = rnd.choice([(0, 0), (-350, 10), (350, -10), (10, 350), (10, -350), (0, 0)])
            f["vertices"] = [[x, y, k] for k in range(m)]
        else:
            x, y = rnd.choices(self.at, self.share)[0]
            f["vertices"] = [[p[0] + x, p[1] + y, p[2]] for p in v]
        self.refact(f)
        return f

    def q_bbox(self):
        """strips over some of the clusters"""
        rnd = self.rnd
        c = [rnd.choice([(-400, -300), (300, 400), (-400, 400)]) for _ in range(2)]
        b = [self.model(d, c[d][e]) for e in range(2) for d in range(2)]
        return {"q": ["bbox"] + [self.num(i % 2, x) for i, x in enumerate(b)]}, {"k": "bbox", "b": b}


# ---------------------------------------------------------------- F03, F04
def spatial(c, kinds, keep):
    c.design("FcbGen", "FcbGenSpace.cfg")
    if not replay_universe(c, "space", keep, c.n(200, 1333), c.sub("u"), 99):
        return

    def query(d, k):
        return d.q_bbox() if k == "bbox" else d.q_point("nearest" if k == "near" else k)
    S = []
    for i in range(c.n(220, 2500)):
        rnd = c.sub(i)
        n = rnd.choice([1, 2, 3, 5, 9, 15, 16, 17, 18, 31, 33, 60, 100])
        d = DataSet(rnd, n, cols=rnd.choice([0, 0, 1, 2]), index=rnd.random() < .93, dup_ids=rnd.random() < .1,
                    exact=rnd.random() < .65, spread=rnd.choice([1, 3, 6, 30, 100]))
        reads = []
        for _ in range(c.n(4, 8)):
            q, t = query(d, rnd.choice(kinds))
            reads += all_modes(q, t)
        S.append(Session(d, reads, tag=f"seed {i}"))
    # an empty file
    for i in range(3):
        d = DataSet(c.sub(("e", i)), 0, cols=i)
        S.append(Session(d, sum((all_modes(*query(d, k)) for k in kinds), [])))
    if not go(c, S):
        return
    S = []
    for i in range(c.n(6, 60)):
        rnd = c.sub(("big", i))
        d = DataSet(rnd, rnd.choice([256, 257, 272, 273, 300, 500, 700]), cols=1, spread=rnd.choice([5, 60, 400]),
                    exact=rnd.random() < .7)
        reads = []
        for _ in range(c.n(6, 20)):
            q, t = query(d, rnd.choice(kinds))
            reads += all_modes(q, t)
        S.append(Session(d, reads, tag=f"big {i}"))
    for i in range(c.n(2, 10)):
        d = Heavy(c.sub(("heavy", i)), 30, cols=1, spread=40)
        reads = []
        for _ in range(c.n(6, 20)):
            q, t = query(d, c.sub(("hk", i)).choice(kinds))
            reads += all_modes(q, t)
        S.append(Session(d, reads, tag=f"heavy {i}"))
    for i in range(c.n(4, 20)):
        rnd = c.sub(("gaps", i))
        d = Gaps(rnd, rnd.choice([20, 60]), huge=rnd.choice([1, 2, 3]), cols=0)
        S.append(Session(d, sum((all_modes(*query(d, rnd.choice(kinds))) for _ in range(5)), []), tag=f"gaps {i}"))
    if go(c, S):
        crowds(c, c.n(2, 24), lambda d, rnd: [query(d, rnd.choice(kinds)) for _ in range(c.n(8, 30))])


def f03(c):
    spatial(c, ["bbox"], lambda q: q["k"] == "bbox")


def f04(c):
    spatial(c, ["point", "near", "near"], lambda q: q["k"] in ("point", "near"))


# ---------------------------------------------------------------- F05, F06
OPS = ("eq", "ne", "lt", "le", "gt", "ge")


def consts(rnd, d, nm, k):
    """constants to compare with: present, absent, between, extremes"""
    ct = d.cols[nm][1]
    out = list(d.pools[nm])
    out += value_pool(rnd, ct, 5)
    if ct in RANGE:
        lo, hi = RANGE[ct]
        for v in list(d.pools[nm]):
            out += [x for x in (v - 1, v + 1) if lo <= x <= hi]
        out += [lo, hi]
    elif ct == "Double":
        out += [float("inf"), float("-inf")]
    seen, r = set(), []
    for v in out:
        s = repr(v)
        if s not in seen:
            seen.add(s)
            r.append(v)
    rnd.shuffle(r)
    return r[:k]


def jconst(v):
    return {float("inf"): "inf", float("-inf"): "-inf"}.get(v, v) if isinstance(v, float) else v


def cond_of(d, nm, op, v):
    kt = COLKEY[d.cols[nm][1]]
    return [nm, op, kt, jconst(v)], {"n": nm, "op": op, "t": kt, "v": key(kt, v)}


def q_of(conds):
    return {"attr": [x[0] for x in conds]}, {"k": "attr", "c": [x[1] for x in conds]}


def other_type(rnd, kt):
    return rnd.choice([t for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "dt", "s50",
                                   "s20", "s100") if t != kt])


SOME = {"bool": True, "dt": "2020-01-01T00:00:00Z", "s20": "a", "s50": "a", "s100": "a"}


def f05(c):
    c.design("FcbGen", "FcbGenAttr.cfg")
    if not replay_universe(c, "attr", lambda q: q["k"] == "attr" and len(q["c"]) == 1, c.n(220, 1111), c.sub("u"), 24):
        return
    S = []
    types = list(COLKEY)
    for i in range(c.n(208, 2600)):
        rnd = c.sub(i)
        ct = types[i % len(types)]
        n = rnd.choice([1, 2, 3, 5, 8, 13, 20, 40, 80])
        cols = rnd.choice([1, 1, 2, 3])
        d = DataSet(rnd, n, cols=cols, types=[ct] if cols == 1 else [ct, rnd.choice(types)], index=rnd.random() < .6,
                    pool=rnd.choice([1, 2, 4, 9, 30]), spread=4, exact=True, attr=None)
        if not d.attr:
            nm = next(iter(d.cols))
            if any(nm in f["a"] for f in d.facts):
                d.attr = [[nm, rnd.choice([None, 2, 3, 4])]]
        qs = []
        for nm, _ in d.attr:
            for v in consts(rnd, d, nm, c.n(3, 5)):
                for op in (OPS if rnd.random() < .5 else rnd.sample(OPS, 3)):
                    qs.append(q_of([cond_of(d, nm, op, v)]))
        # refused: no index, no column, another type
        for nm in d.cols:
            if nm not in [a[0] for a in d.attr]:
                qs.append(q_of([cond_of(d, nm, rnd.choice(OPS), rnd.choice(d.pools[nm]))]))
        qs.append(({"attr": [["nope", "eq", "i32", 1]]},
                   {"k": "attr", "c": [{"n": "nope", "op": "eq", "t": "i32", "v": key("i32", 1)}]}))
        for nm, _ in d.attr:
            kt = other_type(rnd, COLKEY[d.cols[nm][1]])
            v = SOME.get(kt, 1)
            op = rnd.choice(OPS)
            qs.append(({"attr": [[nm, op, kt, v]]}, {"k": "attr", "c": [{"n": nm, "op": op, "t": kt, "v": key(kt, v)}]}))
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"seed {i} {ct}"))
    if not go(c, S):
        return
    # more columns than a byte can number
    S = []
    for i in range(c.n(6, 60)):
        rnd = c.sub(("wide", i))
        d = DataSet(rnd, rnd.choice([5, 12, 30]), wide=rnd.choice([257, 300, 513]), spread=4, types=[t for t in types if t != "Bool"])
        qs = [q_of([cond_of(d, nm, op, v)]) for nm, _ in d.attr for v in consts(rnd, d, nm, 2) for op in rnd.sample(OPS, 3)]
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"wide {i}"))
    if not go(c, S):
        return
    # many keys and many duplicates per key
    S = []
    for i in range(c.n(6, 60)):
        rnd = c.sub(("big", i))
        d = DataSet(rnd, rnd.choice([200, 400, 600]), cols=1, types=[rnd.choice(["Int", "String", "Double", "Long", "DateTime", "UShort"])],
                    attr=None, pool=rnd.choice([2, 17, 28, 300]), multi=rnd.random() < .5, index=rnd.random() < .5)
        nm = next(iter(d.cols))
        d.attr = [[nm, rnd.choice([None, 2, 3, 16, 17])]]
        qs = [q_of([cond_of(d, nm, op, v)]) for v in consts(rnd, d, nm, c.n(3, 8)) for op in OPS]
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"big {i}"))
    for i in range(c.n(2, 8)):
        d = Heavy(c.sub(("heavy", i)), 30, cols=1, types=["Int"], pool=3)
        nm = next(iter(d.cols))
        d.attr = [[nm, 2]]
        qs = [q_of([cond_of(d, nm, op, v)]) for v in d.pools[nm][:2] for op in OPS]
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"heavy {i}"))
    if go(c, S):
        crowds(c, c.n(2, 20), lambda d, rnd: [q_of([d.cond()]) for _ in range(c.n(12, 40))], attr=True)


def f06(c):
    c.design("FcbGen", "FcbGenAttr.cfg")
    if not replay_universe(c, "attr", lambda q: q["k"] == "attr" and len(q["c"]) == 2, c.n(200, 1111), c.sub("u"),
                           c.n(20, 120)):
        return
    S = []
    for i in range(c.n(200, 2500)):
        rnd = c.sub(i)
        n = rnd.choice([1, 2, 3, 5, 8, 13, 20, 40, 120] if i % 10 else [200])
        d = DataSet(rnd, n, cols=rnd.choice([1, 2, 3, 4]), pool=rnd.choice([1, 2, 3, 6]), index=rnd.random() < .6, spread=4)
        qs = []
        if d.attr:
            for _ in range(c.n(5, 10)):
                k = rnd.choice([2, 2, 3, 4, 5])
                conds = [d.cond() for _ in range(k)]
                if rnd.random() < .25:   # an interval on one attribute
                    nm = rnd.choice(d.attr)[0]
                    v = sorted((rnd.choice(d.pools[nm]) for _ in range(2)), key=lambda x: key(COLKEY[d.cols[nm][1]], x))
                    conds = [cond_of(d, nm, rnd.choice(["ge", "gt"]), v[0]), cond_of(d, nm, rnd.choice(["le", "lt"]), v[1])]
                if rnd.random() < .1:
                    conds.append(rnd.choice(conds))
                qs.append(q_of(conds))
                rnd.shuffle(conds)
                qs.append(q_of(conds))
            if rnd.random() < .3:   # one refused condition refuses the query
                conds = [d.cond(), (["nope", "eq", "i32", 1], {"n": "nope", "op": "eq", "t": "i32", "v": key("i32", 1)})]
                rnd.shuffle(conds)
                qs.append(q_of(conds))
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"seed {i}"))
    for i in range(c.n(4, 40)):
        rnd = c.sub(("wide", i))
        d = DataSet(rnd, rnd.choice([5, 12, 30]), wide=rnd.choice([257, 300, 513]), spread=4, pool=3)
        qs = [q_of([d.cond() for _ in range(rnd.choice([2, 3]))]) for _ in range(8)]
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"wide {i}"))
    for i in range(c.n(4, 40)):
        rnd = c.sub(("big", i))
        d = DataSet(rnd, rnd.choice([300, 600]), cols=rnd.choice([2, 3]), attr=None, pool=rnd.choice([5, 40]), spread=4)
        qs = [q_of([d.cond() for _ in range(rnd.choice([2, 3]))]) for _ in range(6)] if d.attr else []
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"big {i}"))
    for i in range(c.n(3, 20)):
        rnd = c.sub(("gaps", i))
        d = Gaps(rnd, rnd.choice([20, 60]), huge=rnd.choice([1, 2]), cols=2, pool=2)
        qs = [q_of([d.cond() for _ in range(2)]) for _ in range(5)] if d.attr else []
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"gaps {i}"))
    if go(c, S):
        crowds(c, c.n(1, 16), lambda d, rnd: [q_of([d.cond() for _ in range(rnd.choice([2, 2, 3]))]) for _ in range(c.n(12, 40))],
               attr=True)


# ---------------------------------------------------------------- F09
class RichSet:
    """features with full contents; only ids and boxes are known to the specification, and the digest is
    whatever the reference read delivered: every path must deliver the same"""

    def __init__(self, rnd, n):
        self.rnd, self.index = rnd, rnd.random() < .8
        self.cj = docs.header(rnd)
        self.cj["transform"] = {"scale": [1.0, 0.5, 1.0], "translate": [4.0, -8.0, 0.0]}
        self.features = [docs.feature(rnd, f"f{i}") for i in range(n)]
        self.attr = []
        self.facts = []
        for f in self.features:
            xs = [v[0] * 2 + 8 for v in f["vertices"]]
            ys = [v[1] - 16 for v in f["vertices"]]
            a = {}
            for o in f["CityObjects"].values():
                if "s" in o.get("attributes", {}):
                    a.setdefault("s", []).append(key("s50", o["attributes"]["s"]))
            self.facts.append({"id": f["id"], "h": "?", "b": [min(xs), min(ys), max(xs), max(ys)], "a": a})
        for f in self.features:   # keys are shorter than 50 bytes
            for o in f["CityObjects"].values():
                if len(o.get("attributes", {}).get("s", "")) >= 50:
                    o["attributes"]["s"] = "short"
        for f, fa in zip(self.features, self.facts):
            a = [key("s50", o["attributes"]["s"]) for o in f["CityObjects"].values() if "s" in o.get("attributes", {})]
            fa["a"] = {"s": a} if a else {}
        if any(fa["a"] for fa in self.facts):
            self.attr = [["s", rnd.choice([None, 2])]]

    def indexed(self):
        return {"s": "s50"} if self.attr else {}

    def write_job(self):
        return dict(cj=self.cj, features=self.features, schema="auto", sem="auto",
                    opts=dict(write_index=self.index, attr=self.attr or None))

    def settle(self, obs):
        try:
            got = {e[1]["id"]: digest(e[1]) for e in obs["reads"][0]["events"] if e[0] == "f"}
        except (KeyError, TypeError, AttributeError, IndexError):
            return
        for f in self.facts:
            f["h"] = got.get(f["id"], "missing")


def f09(c):
    c.design("FcbGen", "FcbGenSpace.cfg")
    S = []
    for i in range(c.n(150, 1500)):
        rnd = c.sub(i)
        d = RichSet(rnd, rnd.choice([0, 1, 2, 4, 8, 20]))
        qs = [({}, {"k": "all"})]
        for _ in range(4):
            x = sorted(rnd.randint(-90, 110) for _ in range(2))
            y = sorted(rnd.randint(-66, 34) for _ in range(2))
            qs.append(({"q": ["bbox", x[0] / 2, y[0] / 2, x[1] / 2, y[1] / 2]}, {"k": "bbox", "b": [x[0], y[0], x[1], y[1]]}))
        p = [rnd.randint(-90, 110), rnd.randint(-66, 34)]
        for k, t in (("point", "point"), ("nearest", "near")):
            qs.append(({"q": [k, p[0] / 2, p[1] / 2]}, {"k": t, "p": p}))
        for v in ("", "a", "é", "short"):
            op = rnd.choice(OPS)
            qs.append(({"attr": [["s", op, "s50", v]]}, {"k": "attr", "c": [{"n": "s", "op": op, "t": "s50", "v": key("s50", v)}]}))
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"rich {i}"))
    for i in range(c.n(150, 1500)):
        rnd = c.sub(("plain", i))
        d = DataSet(rnd, rnd.choice([0, 1, 2, 5, 17, 40, 90]), index=rnd.random() < .8, exact=rnd.random() < .7,
                    dup_ids=rnd.random() < .2)
        qs = [d.q_all(), d.q_bbox(), d.q_bbox(), d.q_point("point"), d.q_point("nearest")]
        if d.attr:
            qs += [d.q_attr(1), d.q_attr(1), d.q_attr(2), d.q_attr(3)]
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"plain {i}"))
    for i in range(c.n(3, 20)):
        rnd = c.sub(("heavy", i))
        d = Heavy(rnd, 30, cols=2)
        qs = [d.q_all()] + [d.q_bbox() for _ in range(5)] + ([d.q_attr(1) for _ in range(4)] if d.attr else [])
        S.append(Session(d, [(rd(m, q), t, {}) for m in MODES for q, t in qs], tag=f"heavy {i}"))
    for i in range(c.n(6, 40)):
        S.append(gap_session(c, i))
    go(c, S)


def gap_session(c, i, modes=MODES, **k):
    rnd = c.sub(("gaps", i))
    d = Gaps(rnd, rnd.choice([20, 60, 100]), huge=rnd.choice([1, 2, 3]), cols=rnd.choice([0, 1]), pool=2)
    qs = [d.q_all(), d.q_point("nearest")] + [d.q_bbox() for _ in range(5)] + ([d.q_attr(1)] if d.attr else [])
    return Session(d, [(rd(m, q, **k), t, {}) for m in modes for q, t in qs], tag=f"gaps {i}")


# ---------------------------------------------------------------- F10
def some_queries(d, rnd, k=1):
    qs = [d.q_all()]
    for _ in range(k):
        qs += [d.q_bbox(), d.q_point("point"), d.q_point("nearest")]
        if d.attr:
            qs += [d.q_attr(1), d.q_attr(2)]
    return qs


def f10(c):
    c.design("Reader", heap="4g")
    sets = []
    for i in range(c.n(50, 500)):
        rnd = c.sub(i)
        d = DataSet(rnd, rnd.choice([1, 2, 5, 20, 60, 300] if i % 5 else [300, 500]), index=rnd.random() < .9,
                    pool=rnd.choice([2, 30]), dup_ids=rnd.random() < .2, spread=rnd.choice([4, 100]))
        sets.append((d, some_queries(d, rnd, 2)))
    for i in range(c.n(4, 24)):
        rnd = c.sub(("heavy", i))
        d = Heavy(rnd, rnd.choice([12, 30]), cols=2, types=["Int", "String", "Double"], pool=4, spread=40)
        sets.append((d, some_queries(d, rnd, 2)))
    S = [Session(d, [(rd("http", q), t, {}) for q, t in qs], tag="fault-free") for d, qs in sets]
    S += [gap_session(c, i, ("http",)) for i in range(c.n(4, 20))]
    if not go(c, S):
        return
    # the same with a fault at every request
    S2, faults = [], 0
    for s in S:
        rnd = c.sub(("f", len(S2)))
        reads = []
        heavy = isinstance(s.d, (Heavy, Gaps))
        for (r, t, _), ob in zip(s.reads, s.obs["reads"][1:]):
            n = len(ob.get("log", []))
            ks = range(n) if n <= c.n(6, 60) else sorted(rnd.sample(range(n), c.n(6, 60)))
            for k in ks:
                a, b = ob["log"][k][:2]
                part = min(b + 1, s.obs["len"]) - a
                for kind, short in [("err", 0), ("empty", 0), ("short", 0), ("short", 1), ("short", rnd.choice([2, 3, 4, 7, 12, 40, 500, 70000])),
                                    ("short", max(1, part - rnd.choice([1, 2, 5]))), ("short", rnd.randint(1, max(1, part)))]:
                    if heavy and part < 2**20 and rnd.random() < .5:
                        continue
                    h = dict(fault_at=k, kind=kind, short_to=short, sticky=rnd.random() < .5)
                    reads.append((dict(r, http=h), t, {"fault": True}))
        rnd.shuffle(reads)
        reads = reads[:c.n(120, 2000)]
        faults += len(reads)
        S2.append(Session(s.d, reads, tag="faults"))
    c.notes["faulted reads"] = faults
    go(c, S2, chunk=100)


# ---------------------------------------------------------------- F11
def f11(c):
    c.design("FcbGen", "FcbGenSpace.cfg")
    c.design("Reader", heap="4g")
    S = []
    for i in range(c.n(220, 2500)):
        rnd = c.sub(i)
        d = DataSet(rnd, rnd.choice([0, 1, 2, 3, 5, 9, 17, 40]), index=rnd.random() < .85, dup_ids=rnd.random() < .2,
                    pool=rnd.choice([2, 4]), said=rnd.choice(["true", "true", "zero", "more"]))
        reads = []
        for q, t in some_queries(d, rnd):
            for m in MODES:
                h = rnd.choice([dict(hint=True, extra=2), dict(extra=3), dict(hint=True), dict(max=rnd.choice([0, 1, 2, 5]), hint=True)])
                reads.append((rd(m, q, **h), t, {"early": "max" in h}))
        S.append(Session(d, reads, tag=f"seed {i}"))
    for i in range(c.n(3, 12)):
        rnd = c.sub(("long", i))
        d = DataSet(rnd, rnd.choice([256, 257, 300, 513, 700]), index=i > 0, cols=1, pool=2)
        S.append(Session(d, [(rd(m, q, hint=True, extra=2), t, {}) for m in MODES for q, t in [d.q_all()] + some_queries(d, rnd)]))
        S.append(Session(d, [(rd(m, d.q_all()[0], hint=True, max=rnd.choice([255, 256, 100])), d.q_all()[1], {"early": True}) for m in MODES]))
    for i in range(c.n(2, 10)):
        S.append(gap_session(c, i, hint=True, extra=2))
    for i in range(c.n(2, 10)):
        rnd = c.sub(("heavy", i))
        d = Heavy(rnd, 20, cols=1)
        S.append(Session(d, [(rd(m, q, hint=True, extra=2), t, {}) for m in MODES for q, t in some_queries(d, rnd)]))
    go(c, S)


# ---------------------------------------------------------------- F16
def file_bytes(d):
    r = run.run_jobs([dict(op="session", write=d.write_job(), dump=True)])[0]
    return r.get("bytes") and bytes.fromhex(r["bytes"])


def header_end(b):
    return 12 + int.from_bytes(b[8:12], "little")


class Fixed:
    """a data set together with one written file"""

    def __init__(self, d, b):
        self.d, self.b = d, b
        self.index, self.facts = d.index, d.facts

    def indexed(self):
        return self.d.indexed()


def fixed_session(d, b, reads, tag=""):
    s = Session(Fixed(d, b), reads, write={}, tag=tag)
    s.job = dict(op="session", hex=b.hex(), reads=s.job["reads"], timeout=120)
    return s


def f16(c):
    c.design("Reader", heap="4g")
    S, cuts = [], 0
    total = c.n(9000, 150000)
    for i in range(c.n(24, 200)):
        rnd = c.sub(i)
        d = DataSet(rnd, rnd.choice([1, 2, 3, 5, 20]) if i % 4 else 3, cols=rnd.choice([0, 1, 2]), index=rnd.random() < .8,
                    pool=2, spread=4, multi=rnd.random() < .5)
        b = file_bytes(d)
        if b is None:
            c.violation("a data set could not be written", {"job": d.write_job()})
            return
        L, H = len(b), header_end(b)
        reads = []
        every = list(range(L + 1))
        k = max(10, total // c.n(24, 200) // 4)
        picks = every if len(every) <= k else sorted(set(rnd.sample(every, k) + list(range(0, 16)) + list(range(H - 3, min(L, H + 4)))
                                                         + list(range(max(0, L - 6), L + 1))))
        for t in picks:
            qs = some_queries(d, rnd)
            for m in MODES:
                q, tq = rnd.choice(qs)
                reads.append((rd(m, q, trunc=t, extra=1), tq, {"canfail": t < L, "dead": t < H}))
        # damaged magic bytes, version and header size; trailing bytes do not belong to the data set
        def dead(patch):
            for m in MODES:
                reads.append((rd(m, {}, patch=patch), {"k": "all"}, {"canfail": True, "dead": True}))
        for p in (0, 1, 2, 4, 5, 6):
            v = rnd.choice([x for x in (0, 1, b[p] ^ 1, b[p] ^ 0x20, 255, b[p] ^ 0x80, 66, 67, 70) if x != b[p]])
            dead([[p, "%02x" % v]])
        for v in (2, 3, 127, 128, 255, rnd.randint(2, 255)):
            dead([[3, "%02x" % v]])
        for v in (0, 1, 3, 7, 2**29 + 1, 2**31, 2**32 - 1, L - 12 + 1 + rnd.randint(0, 100), rnd.randint(2**20, 2**29)):
            dead([[8, v.to_bytes(4, "little").hex()]])
        for v in (2**32 - 1, 2**31, H - 12 + rnd.randint(1, 1000)):   # the header's root lies outside of it
            dead([[12, v.to_bytes(4, "little").hex()]])
        # the header size cuts the header in two
        for m in MODES:
            reads.append((rd(m, {}, append=rnd.choice(["00", "ff" * 40, b[:50].hex()])), {"k": "all"}, {}))
        cuts += len(picks) * 3
        S.append(fixed_session(d, b, reads, tag=f"seed {i}, {L} bytes"))
    c.notes["cut files read"] = cuts
    if not go(c, S, chunk=50):
        return
    # a feature whose size reaches past the end of the file
    S = []
    for i in range(c.n(20, 200)):
        rnd = c.sub(("size", i))
        d = DataSet(rnd, rnd.choice([1, 2, 5]), cols=0, index=False)
        b = file_bytes(d)
        # the features lie one after the other from the end of the header
        at, offs = header_end(b), []
        while at < len(b):
            offs.append(at)
            at += 4 + int.from_bytes(b[at:at + 4], "little")
        k = rnd.randrange(len(offs))
        reads = []
        for m in MODES:
            for v in (len(b) - offs[k] - 4 + rnd.choice([1, 5, 1000]), 0xFFFFFF):
                # what comes before it is intact; the damage itself is reported
                reads.append((rd(m, {}, patch=[[offs[k], v.to_bytes(4, "little").hex()]]), {"k": "all"}, {"canfail": True}))
        S.append(fixed_session(d, b, reads, tag=f"size {i}"))
    go(c, S)


# ---------------------------------------------------------------- F17
def f17(c):
    c.design("Reader", heap="4g")
    # the output: chunks and interruptions change nothing, a fault is reported
    S, faults = [], []
    for i in range(c.n(50, 500)):
        rnd = c.sub(i)
        d = DataSet(rnd, rnd.choice([0, 1, 2, 5, 20, 60]), index=rnd.random() < .7, dup_ids=rnd.random() < .2)
        for k in range(3):
            w = d.write_job(sink=dict(chunk=rnd.choice([0, 1, 2, 3, 7, 100]), interrupt=rnd.choice([0, 2, 3, 5])))
            S.append(Session(d, [(rd("seek", {}), {"k": "all"}, {})] + [(rd("seek", q), t, {}) for q, t in some_queries(d, rnd)], write=w,
                             tag=f"sink {i}.{k}"))
        faults.append((d, rnd))
    if not go(c, S):
        return
    jobs, own = [], []
    for d, rnd in faults:
        n = next(s.obs["len"] for s in S if s.d is d)
        for p in sorted(set([0, 1, 7, 8, 9, 11, 12, 13, n - 1, n - 2] + [rnd.randrange(max(1, n)) for _ in range(c.n(12, 60))])):
            if 0 <= p < n - 64:   # the length may vary a little between runs (padding follows the order of hash maps)
                jobs.append(dict(op="session", write=d.write_job(sink=dict(fail_at=p, chunk=rnd.choice([0, 0, 5]), interrupt=rnd.choice([0, 3])))))
        jobs.append(dict(op="session", write=d.write_job(sink=dict(fail_at=0, fail_flush=True))))
    res = run.run_jobs(jobs)
    traces = []
    for j, r in zip(jobs, res):
        w = r.get("write")
        rep = isinstance(w, dict) and "err" in w and "hit" in w
        traces.append([{"ev": "writefails", "fault": True, "reported": bool(rep)}])
    v = tlc.check_traces("FcbTrace", traces, shards=1)
    c.verdict(v, len(traces))
    c.notes["output faults"] = len(jobs)
    for i, _ in v.rejected:
        c.violation(f"an output fault at byte {jobs[i]['write']['sink']} is not reported: {res[i].get('write')}", {"job": jobs[i]})
    if c.violations:
        return
    # the input
    S, nf = [], 0
    for i in range(c.n(40, 400)):
        rnd = c.sub(("in", i))
        d = DataSet(rnd, rnd.choice([1, 2, 5, 20, 40]), index=rnd.random() < .85, pool=3, dup_ids=rnd.random() < .2)
        b = file_bytes(d)
        if b is None:
            c.violation("a data set could not be written", {"job": d.write_job()})
            return
        reads = []
        for q, t in some_queries(d, rnd, 2):
            for m in ("seek", "seq"):
                reads.append((rd(m, q, env=dict(chunk=rnd.choice([1, 2, 3, 7, 64]), interrupt=rnd.choice([0, 2, 3]))), t, {}))
                ps = {0, 4, 8, 10, 12, 20, header_end(b) - 1, header_end(b), len(b) - 1}
                ps |= {rnd.randrange(len(b)) for _ in range(c.n(10, 60))}
                for p in ps:
                    if p < len(b):
                        nf += 1
                        reads.append((rd(m, q, env=dict(fail_at=p, chunk=rnd.choice([0, 0, 3]), interrupt=rnd.choice([0, 0, 4]),
                                                        fail_once=rnd.random() < .3)), t, {"fault": True}))
        S.append(fixed_session(d, b, reads, tag=f"in {i}"))
    c.notes["input faults"] = nf
    go(c, S, chunk=60)


CHECKS = {"F01": f01, "F03": f03, "F04": f04, "F05": f05, "F06": f06, "F09": f09, "F10": f10, "F11": f11, "F16": f16, "F17": f17}
