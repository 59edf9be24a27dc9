"""F22, F23: the reader made for browsers and its conversions, compiled for the host with stand-ins for what the browser provides
(browser/stubs: JavaScript values, fetch).  Its sessions are judged by TLC against spec/Fcb.tla like all others."""
import datetime as dt
import json
import os
import tempfile

import build
import p_session
import run
import sess
import tlc
import docs
from data import COLKEY, DataSet, digest, dt_parse, key
from p_session import Crowd, Gaps, GenSet, Heavy, OPS, consts, report, universe
from sess import REF, Session

JSOP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


def js_query(q, num=float):
    """a query of the library (["bbox", ..]) as a JavaScript object"""
    k, v = q[0], [num(x) for x in q[1:]]
    if k == "bbox":
        return dict(zip(("type", "minX", "minY", "maxX", "maxY"), ["bbox"] + v))
    return {"type": {"point": "pointIntersects", "nearest": "pointNearest"}[k], "x": v[0], "y": v[1]}


def js_cond(nm, op, v):
    """(condition in JavaScript, what it means): the type of the value decides the type of the key"""
    if isinstance(v, bool):
        t, k, j = "bool", key("bool", v), v
    elif isinstance(v, (int, float)):
        t, k, j = "f64", key("f64", float(v)), {"num": str(v)} if v in (float("inf"), -float("inf")) else float(v)
    elif isinstance(v, tuple):   # milliseconds since 1970
        t, k, j = "dt", key("dt", [v[0] // 1000, v[0] % 1000 * 10**6]), {"date": v[0]}
    elif len(v.encode()) > 50:
        t, k, j = "s100", key("s100", v), v
    else:
        t, k, j = "s50", key("s50", v), v
    return [nm, JSOP[op], j], {"n": nm, "op": op, "t": t, "v": k}


def js_of(sel, tq):
    """a session's selection as the browser reader takes it"""
    if "q" in sel:
        return {"q": js_query(sel["q"])}, tq
    if "attr" not in sel:
        return {}, tq
    cs = []
    for nm, op, kt, raw in sel["attr"]:
        if kt == "dt":
            s, n = dt_parse(raw)
            raw = (s * 1000 + n // 10**6,)
        cs.append(js_cond(nm, op, raw))
    return {"attr": [x[0] for x in cs]}, {"k": "attr", "c": [x[1] for x in cs]}


def rd(sel, tq, opt=None, **k):
    s, t = js_of(sel, tq)
    dates = any(isinstance(x[2], dict) and "date" in x[2] for x in s.get("attr", []))
    if dates:
        k.pop("echo", None)
    return dict(dict(mode="browser", sel=s), **k), t, opt or {}


def judge(sessions, threads=8):
    """write with the library (and read in full for reference), read with the browser's reader"""
    d = tempfile.mkdtemp(dir=run.scratch())
    for i, s in enumerate(sessions):
        s.path = f"{d}/{i}.fcb"
    r1 = run.run_jobs([dict(s.job, save=s.path, reads=[REF]) for s in sessions], threads=threads)
    ok = [i for i, r in enumerate(r1) if "reads" in r]
    r2 = run.run_jobs([dict(path=sessions[i].path, reads=[r[0] for r in sessions[i].reads]) for i in ok],
                      threads=threads, binary=build.BROWSER)
    for i, b in zip(ok, r2):
        n = len(sessions[i].reads)
        r1[i]["reads"] = r1[i]["reads"] + b.get("reads", [{"crash": b.get("crash")}] * n)
    for s in sessions:
        if os.path.exists(s.path):
            os.unlink(s.path)
    traces = [s.build_trace(o) for s, o in zip(sessions, r1)]
    v = tlc.check_traces("FcbTrace", traces, shards=8, timeout=800)
    return v, [(sessions[i], j) for i, j in v.rejected]


def go(c, S, chunk=300):
    for i in range(0, len(S), chunk):
        v, bad = judge(S[i:i + chunk])
        if i == 0:
            c.sample({"trace": min(S[:chunk], key=lambda s: abs(len(s.trace) - 30)).trace[:25]})
        report(c, v, bad, len(S[i:i + chunk]))
        if bad:
            return False
    return True


def queries(d, rnd, n):
    qs = [d.q_all(), d.q_bbox(), d.q_point("point"), d.q_point("nearest")]
    for _ in range(n):
        qs.append(rnd.choice([d.q_bbox, lambda: d.q_point(rnd.choice(["nearest", "point"]))])())
        if d.attr:
            qs += [d.q_attr(rnd.choice([1, 1, 2, 3])), d.q_attr(1)]
    return qs


def js_values(rnd, d, nm):
    """values of JavaScript to compare a column with, of the right type mostly"""
    out = []
    for v in consts(rnd, d, nm, 4):
        if d.cols[nm][1] == "DateTime":
            s, n = dt_parse(v)
            ms = s * 1000 + n // 10**6
            out += [(ms,), (ms + rnd.choice([1, -1, 500, 999]),)]
        else:
            out.append(v)
    return out + [rnd.choice([True, 0, 1.5, "a", (0,), "x" * 51])]


def flat(b):
    """(nesting, rings) of boundaries"""
    if all(isinstance(x, int) for x in b):
        return "r", [b]
    n, r = [], []
    for x in b:
        m, q = flat(x)
        n.append(m)
        r += q
    return n, r


def bits(doc, scale, origin, lods, head=None):
    """a document as spec/Merge.tla sees it"""
    objs = [] if head is None else [{"id": "", "rest": digest(clean(head)), "lod": [], "refs": []}]
    for oid, o in doc["CityObjects"].items():
        rest, refs, lod = dict(o), [], []
        gs = []
        for g in rest.pop("geometry", []):
            n, r = flat(g["boundaries"])
            refs.append(r)
            lod.append(lods.get(g.get("lod"), 0))
            gs.append([n, {k: v for k, v in g.items() if k != "boundaries"}])
        objs.append({"id": oid, "rest": digest([rest, gs]), "lod": lod, "refs": refs})
    t = doc["transform"]["translate"] if "transform" in doc else origin
    return {"verts": doc["vertices"], "objs": objs, "shift": [round((t[k] - origin[k]) / scale[k]) for k in range(3)]}


def clean(h):
    h = {k: v for k, v in h.items() if k not in ("CityObjects", "vertices", "transform")}
    return {k: v for k, v in h.items() if v not in ({}, None)}


def small(rnd, fid, **k):
    while True:
        f = docs.feature(rnd, fid, **k)
        if len(f["vertices"]) < 1000:
            return f


class Merge:
    LODS = {"0": 1, "1": 2, "1.3": 3, "2": 4, "2.0": 4, "2.2": 5, "3": 6, "10": 7}

    def __init__(self, rnd):
        self.scale = [rnd.choice([1.0, 0.5, 0.001, 0.01]) for _ in range(3)]
        self.origin = [rnd.choice([0.0, 1000.5, -12345.678, 84372.911]) for _ in range(3)]
        h = docs.header(rnd, app=0, tpl=.3)
        h["transform"] = {"scale": self.scale, "translate": self.origin}
        same = rnd.random() < .5
        fs = []
        for i in range(rnd.choice([0, 1, 2, 3, 5, 12])):
            f = small(rnd, "f%d" % (i if rnd.random() < .8 else rnd.randrange(i + 1)), tpl=rnd.random() < .3, span=rnd.choice([2, 50, 10**6]))
            f.pop("appearance", None)
            f["CityObjects"] = {"%d/%s" % (i, k): v for k, v in f["CityObjects"].items()}
            for o in f["CityObjects"].values():
                for g in o.get("geometry", []):
                    g.pop("material", None)
                    g.pop("texture", None)
                    if g["type"] != "GeometryInstance":
                        if rnd.random() < .1:
                            g.pop("lod", None)
                        else:
                            g["lod"] = rnd.choice(["1", "2"] if same else sorted(self.LODS))
            fs.append(f)
        if not fs or rnd.random() < .3:      # a document that has objects of its own
            f = small(rnd, "own", tpl=False)
            for o in f["CityObjects"].values():
                for g in o.get("geometry", []):
                    g.pop("material", None)
                    g.pop("texture", None)
                    g["lod"] = rnd.choice(sorted(self.LODS))
            h["CityObjects"], h["vertices"] = f["CityObjects"], f["vertices"]
        self.head, self.fs = h, fs
        self.valid = True
        self.how = rnd.choice(["merge", "merge", "obj", "obj", "single"])
        base, feats = self.head, self.fs
        if rnd.random() < .15:
            self.valid = False
            bad = rnd.choice([None, 5, "x", True, {}, {k: v for k, v in h.items() if k != "vertices"}, {k: v for k, v in h.items() if k != "CityObjects"}])
            k = rnd.randrange(len(fs) + 1)
            if k == len(fs):
                base = bad
            else:
                bad = rnd.choice([bad, {x: v for x, v in fs[k].items() if x != "vertices"}, {x: v for x, v in fs[k].items() if x != "CityObjects"}])
                feats = fs[:k] + [bad] + fs[k + 1:]
            if self.how == "single":
                base = bad
        if self.how == "merge":
            self.job = {"op": "merge", "base": base, "features": feats}
        elif self.how == "obj":
            doc = [base] + feats
            if rnd.random() < .03:
                doc, self.valid = [], False
            self.job = {"op": "obj", "doc": doc}
        else:
            self.job = {"op": "obj", "doc": base}

    def event(self, ob):
        if "ok" not in ob and "err" not in ob:
            return {"ev": "crash"}
        feats = [self.head] + (self.fs if self.how != "single" else [])
        fs = [bits(f, self.scale, self.origin, self.LODS, f if f is self.head and self.how == "merge" else None) for f in feats]
        ev = {"ev": "merge" if self.how == "merge" else "obj", "ok": "ok" in ob, "valid": self.valid, "feats": fs}
        if "ok" not in ob:
            return ev
        if self.how == "merge":
            if ob["ok"].get("transform", {}).get("scale") != self.scale or ob["ok"].get("type") != "CityJSON":
                return {"ev": "other transform"}
            ev["doc"] = bits(ob["ok"], self.scale, self.origin, self.LODS, ob["ok"])
            return ev
        v, faces = [], []
        for line in ob["ok"].splitlines():
            w = line.split()
            if w and w[0] == "v":
                v.append([round((float(w[1 + k]) - self.origin[k]) / self.scale[k]) for k in range(3)])
        for line in ob["ok"].splitlines():
            w = line.split()
            if w and w[0] == "f":
                faces.append([v[int(x) - 1] if 0 < int(x) <= len(v) else [int(x)] for x in w[1:]])
        ev["faces"] = faces
        return ev


def f23(c):
    build.build(browser=True)
    c.design("MergeMC", "MergeMCDeep.cfg" if c.thorough else "MergeMC.cfg")
    work = [Merge(c.sub(("merge", i))) for i in range(c.n(400, 6000))]
    res = run.run_jobs([m.job for m in work], binary=build.BROWSER)
    traces = [[m.event(o)] for m, o in zip(work, res)]
    v = tlc.check_traces("MergeTrace", traces)
    c.verdict(v, len(work))
    for i, j in v.rejected:
        c.violation(f"{work[i].how} of {len(work[i].fs)} features: {str(res[i])[:300]}", {"event": traces[i][0], "job": work[i].job, "observed": res[i]})


REFUSED = {"k": "attr", "c": [{"n": "\x7fno such column", "op": "eq", "t": "bool", "v": [1]}]}


def wrong(rnd, d):
    """query objects with a member missing or of the wrong kind"""
    if rnd.random() < .5:
        q = dict(js_of(*rnd.choice([d.q_bbox, lambda: d.q_point("point"), lambda: d.q_point("nearest")])())[0]["q"])
        k = rnd.choice(sorted(q))
        if rnd.random() < .4:
            del q[k]
        elif k == "type":
            q[k] = rnd.choice(["circle", "", "BBox", "point", None, 1, True])
        else:
            q[k] = rnd.choice([None, str(q[k]), True, [q[k]], {}])
        return {"q": q}
    nm = rnd.choice([a for a, _ in d.attr]) if d.attr else "a"
    t = [nm, rnd.choice(sorted(JSOP.values())), rnd.choice([1.0, "a", True])]
    k = rnd.randrange(5)
    if k == 0:
        t = t[:rnd.randrange(3)]
    elif k == 1:
        t[0] = rnd.choice([None, 1, True, []])
    elif k == 2:
        t[1] = rnd.choice([None, 1, "eq", "", "Like", "EQ", "=="])
    elif k == 3:
        t[2] = rnd.choice([None, [], {"x": 1}, [1]])
    else:
        t = rnd.choice(["", 1, {}])
    good = [js_cond(n, o, 1.0)[0] for n, o in [(nm, "eq")]] if rnd.random() < .3 else []
    return {"attr": good + [t]}


def f22(c):
    build.build(browser=True)
    c.design("FcbGen", "FcbGenSpace.cfg")
    c.design("FcbGen", "FcbGenAttr.cfg")
    c.design("Reader", heap="4g")
    # the universes written out by TLC
    S = []
    us, qs = universe(c, "space")
    rnd = c.sub("space")
    for u in (us if c.thorough else rnd.sample(us, 120)):
        pick = [p_session.gen_read("browser", q) for q in qs]
        S.append(Session(GenSet("space", u), [rd(r["sel"], t, echo=rnd.random() < .5) for r, t, _ in rnd.sample(pick, min(len(pick), c.n(25, 99)))]))
    if not go(c, S):
        return
    S = []
    for i in range(c.n(160, 2000)):
        rnd = c.sub(i)
        types = [t for t in COLKEY] if rnd.random() < .3 else ["Double", "String", "Bool", "DateTime"]
        d = DataSet(rnd, rnd.choice([0, 1, 2, 3, 5, 9, 17, 40, 100]), index=rnd.random() < .85, dup_ids=rnd.random() < .2, types=types,
                    cols=rnd.choice([0, 1, 2, 3]), pool=rnd.choice([2, 5]), exact=rnd.random() < .7, said=rnd.choice(["true", "zero", "more"]))
        reads = [rd(*q, echo=rnd.random() < .3, extra=rnd.choice([0, 2]), meta=rnd.random() < .1) for q in queries(d, rnd, 3)]
        for nm, _ in d.attr:
            for v in js_values(rnd, d, nm):
                j, t = js_cond(nm, rnd.choice(OPS), v)
                reads.append((dict(mode="browser", sel={"attr": [j]}), {"k": "attr", "c": [t]}, {}))
        reads += [(dict(mode="browser", sel=wrong(rnd, d)), REFUSED, {}) for _ in range(3)]
        q, t = rnd.choice(queries(d, rnd, 1))
        reads.append(rd(q, t, {"early": True}, max=rnd.choice([0, 1, 2])))
        S.append(Session(d, reads, tag=f"seed {i}"))
    for i in range(c.n(4, 30)):
        rnd = c.sub(("large", i))
        d = [Heavy(rnd, 24, cols=2, types=["Double", "String"], pool=3), Gaps(rnd, 40, huge=2, cols=1, types=["Double", "DateTime"], pool=2)][i % 2]
        S.append(Session(d, [rd(*q) for q in queries(d, rnd, 3)], tag=f"large {i}"))
    for i in range(c.n(1, 8)):
        rnd = c.sub(("crowd", i))
        d = Crowd(rnd, 9000, per=1, index=True, attr=[["k", rnd.choice([None, 16])], ["s", rnd.choice([None, 3, 16])]])
        S.append(Session(d, [rd(*q) for q in [d.q_bbox() for _ in range(4)] + [d.q_point("nearest")]]
                         + [rd({"attr": [x[0] for x in [d.cond("s")]]}, {"k": "attr", "c": []}) for _ in range(5)], tag=f"crowd {i}"))
    if not go(c, S):
        return
    # faults of the network
    faults = []
    for s in [s for s in S if len(s.d.facts) and not isinstance(s.d, Crowd)][:c.n(60, 600)]:
        rnd = c.sub(("f", len(faults)))
        reads = []
        for (r, t, o), ob in zip(s.reads, s.obs["reads"][1:]):
            log = ob.get("log", [])
            for k in sorted(rnd.sample(range(len(log)), min(len(log), 4))):
                a, b = log[k][:2]
                part = min(b + 1, s.obs["len"]) - a
                for kind, short in [("err", 0), ("empty", 0), ("short", rnd.choice([0, 1, 3, 4, 7, 12, 300])), ("short", max(1, part - 1))]:
                    reads.append((dict(r, http=dict(fault_at=k, kind=kind, short_to=short, sticky=rnd.random() < .5, net=rnd.random() < .5)),
                                  t, dict(o, fault=True)))
        rnd.shuffle(reads)
        faults.append(Session(s.d, reads[:c.n(50, 400)], tag="faults"))
    c.notes["faulted reads"] = sum(len(s.reads) for s in faults)
    if not go(c, faults):
        return
    # cut and damaged files
    S = []
    for i in range(c.n(20, 150)):
        rnd = c.sub(("cut", i))
        d = DataSet(rnd, rnd.choice([1, 2, 5]), cols=rnd.choice([0, 1]), types=["Double", "String"], index=rnd.random() < .8, pool=2, spread=4)
        b = p_session.file_bytes(d)
        L, H = len(b), p_session.header_end(b)
        reads = []
        for t in sorted(set(rnd.sample(range(L + 1), min(L, c.n(60, 400))) + [0, 7, 8, 11, 12, H - 1, H, L - 1, L])):
            q, tq = rnd.choice(queries(d, rnd, 1))
            reads.append(rd(q, tq, {"canfail": t < L, "dead": t < H}, trunc=t))
        for p, v in [(0, 0), (1, 0x66), (2, 0), (3, rnd.choice([2, 255])), (4, 0), (6, 1)]:
            if b[p] != v:
                reads.append(rd({}, {"k": "all"}, {"canfail": True, "dead": True}, patch=[[p, "%02x" % v]]))
        for v in (0, 1, 7, 2**29 + 1, 2**31, 2**32 - 1, L):
            reads.append(rd({}, {"k": "all"}, {"canfail": True, "dead": True}, patch=[[8, v.to_bytes(4, "little").hex()]]))
        S.append(p_session.fixed_session(d, b, reads, tag=f"cut {i}"))
    if not go(c, S):
        return


CHECKS = {"F22": f22, "F23": f23}
