"""F14: attributes through the real writer and reader (spec/Attrs.tla)."""
import copy
import hashlib
import json
import os
import struct
import tempfile

import docs
import run
import tlc
from data import DATES, RANGE, f32
from data import text as any_text
from p_codec import plain_header

FMT = {"Byte": "<b", "UByte": "<B", "Short": "<h", "UShort": "<H", "Int": "<i", "UInt": "<I", "Long": "<q",
       "ULong": "<Q", "Float": "<f", "Double": "<d"}
TYPES = list(RANGE) + ["Float", "Double", "Bool", "String", "DateTime", "Json", "Binary"]
TEXTS = ["", "a", "é", "日本語", "\U0001f600", "2020-01-01", "2020-13-01T00:00:00Z", "true", "null", "0", '"', "\\", "\n",
         "{}", "x" * 49, "y" * 300, "\u0000", "a,b"]
DOUBLES = [0.5, -1.25, 0.1, -0.1, 3.25, 1e22, 123456.789, 1e-7, 1e300, -1e300, 2.5e-5, 100.125]
STRUCTS = [[], {}, [1, "a", None], {"k": {"l": [1, 2]}}, [[]], {"": 0}, [True, False], {"é": "日本"}, [0.5, -3],
           {"n": None, "m": [None]}, ["x" * 260], {"a": 1, "b": 2}]


def exact(x):
    """numbers compare by value; everything else, nested nulls included, as it is"""
    if isinstance(x, dict):
        return {k: exact(v) for k, v in x.items()}
    if isinstance(x, list):
        return [exact(v) for v in x]
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def digest(d):
    return hashlib.sha1(json.dumps(exact(d), sort_keys=True).encode()).hexdigest()[:12]


def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "nat" if v >= 0 else "neg"
    if isinstance(v, float):
        return "frac"
    if isinstance(v, str):
        return "date" if v in DATES else "text"
    return "struct"


def nested(rnd, d=0):
    """any JSON value; an array or object at the top"""
    r = rnd.random() * (.4 if d == 0 else 1 + d / 3)
    if r < .2:
        return [nested(rnd, d + 1) for _ in range(rnd.randint(0, 3))]
    if r < .4:
        return {any_text(rnd, 30): nested(rnd, d + 1) for _ in range(rnd.randint(0, 3))}
    return rnd.choice([None, True, False, 0, -1, 2**53, 0.25, -1e22, any_text(rnd), any_text(rnd)])


def of_kind(rnd, k):
    if k == "bool":
        return rnd.random() < .5
    if k == "nat":
        return rnd.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2**31, 2**32, 2**53, rnd.randrange(2**40)])
    if k == "neg":
        return -rnd.choice([1, 2, 128, 129, 32768, 2**31, 2**31 + 1, 2**53, rnd.randrange(1, 2**40)])
    if k == "frac":
        return rnd.choice(DOUBLES + [1.0, -2.0, rnd.randint(-9999, 9999) / 16, round(rnd.uniform(-1e6, 1e6), rnd.randint(0, 8))])
    if k == "text":
        return rnd.choice(TEXTS) if rnd.random() < .4 else any_text(rnd)
    if k == "date":
        return rnd.choice(DATES)
    return copy.deepcopy(rnd.choice(STRUCTS)) if rnd.random() < .6 else nested(rnd)


def of_type(rnd, t):
    if t in RANGE:
        lo, hi = RANGE[t]
        return rnd.choice([lo, hi, lo + 1, hi - 1, 0, 1, rnd.randint(lo, hi)])
    if t == "Float":
        return rnd.choice([0.0, 0.5, -1.5, 0.1, 3.25e20, 7, -3, 16777217])
    if t == "Double":
        return rnd.choice(DOUBLES + [0.0, 7, -2**53, 2**53])
    if t == "Json":
        return of_kind(rnd, rnd.choice(["bool", "nat", "neg", "frac", "text", "struct", "struct"]))
    return of_kind(rnd, {"Bool": "bool", "String": rnd.choice(["text", "date"]), "DateTime": "date", "Binary": "text"}[t])


def payload(t, v):
    if t == "Json":
        return [-1]
    if t == "Bool":
        return [int(v)]
    if t in FMT:
        return list(struct.pack(FMT[t], v))
    return list(v.encode())


class AttrCase:
    """objs: list of features, each a list of objects' attributes (None: no attributes); sems: likewise for surfaces"""

    def __init__(self, objs, sems=(), schema="auto", sem="auto", mode="seek", index=False):
        self.schema, self.sem = schema, sem
        self.feats = []
        for i, f in enumerate(objs):
            os_ = {}
            for j, a in enumerate(f):
                o = {"type": "Building"}
                if a is not None:
                    o["attributes"] = a
                os_["f%d.%d" % (i, j)] = o
            if i < len(sems) and sems[i]:
                s = [dict(x, type="RoofSurface") for x in sems[i]]
                n = len(s)
                next(iter(os_.values()))["geometry"] = [
                    {"type": "MultiSurface", "lod": "2", "boundaries": [[[0, 1, 2]]] * n,
                     "semantics": {"surfaces": s, "values": list(range(n))}}]
            self.feats.append({"type": "CityJSONFeature", "id": "f%d" % i, "CityObjects": os_,
                               "vertices": [[1, 2, 3], [4, 5, 6], [7, 8, 9]]})
        self.job = {"op": "session", "write": dict(cj=plain_header(), features=self.feats, schema=schema, sem=sem,
                                                   opts=dict(write_index=index)),
                    "reads": [{"mode": mode, "sel": {}, "want": "full", "hdr": True},
                              {"mode": "seek", "sel": {}, "want": "flat"}]}

    def surfaces(self):
        for f in self.feats:
            for o in f["CityObjects"].values():
                for g in o.get("geometry", []):
                    for s in g["semantics"]["surfaces"]:
                        yield {k: v for k, v in s.items() if k != "type"}

    def objects(self):
        for f in self.feats:
            for o in f["CityObjects"].values():
                if "attributes" in o:
                    yield o["attributes"]

    def schema_event(self, cols, said, values):
        seen = []
        for a in values:
            for k, v in sorted(a.items()):
                if v is not None and [k, kind(v)] not in seen:
                    seen.append([k, kind(v)])
        want = [] if said in ("auto", None) else [{"name": n, "ix": i, "type": t} for n, (i, t) in said.items()]
        return {"ev": "schema", "auto": said == "auto", "seen": seen, "want": want,
                "cols": [{"name": n, "ix": i, "type": t} for i, n, t in cols or []]}

    def expected(self, f, ty, sty):
        f = copy.deepcopy(f)

        def fit(a, ty):
            return {k: f32(v) if ty.get(k) == "Float" else v for k, v in a.items() if v is not None}
        for oid, o in f["CityObjects"].items():
            if "attributes" in o:
                own = self.own.get(oid)
                o["attributes"] = fit(o["attributes"], {n: t for _, n, t in own} if own is not None else ty)
            for g in o.get("geometry", []):
                g["semantics"]["surfaces"] = [dict(fit(s, sty)) for s in g["semantics"]["surfaces"]]
        return f

    def trace(self, ob):
        bad = lambda why: ([{"ev": "broken", "why": json.dumps(why)[:400]}], [why])
        if ob.get("write") != "ok" or "reads" not in ob:
            return bad({k: ob[k] for k in ob if k != "bytes"})
        full, fl = ob["reads"]
        if full.get("open") != "ok" or fl.get("open") != "ok":
            return bad({k: full.get(k) for k in ("open", "panic", "crash")})
        hdr = full["hdr"]
        got = {e[1].get("id"): e[1] for e in full.get("events") or [] if e[0] == "f"}
        flats = {e[1]["id"]: e[1] for e in fl.get("events") or [] if e[0] == "f"}
        if sorted(got) != sorted(flats) or sorted(got) != sorted(f["id"] for f in self.feats):
            return bad({"features": sorted(got), "events": [e for e in full.get("events") or [] if e[0] != "f"],
                        "panic": full.get("panic")})
        ev, show = [], []

        def add(e, s):
            ev.append(e)
            show.append(s)
        add(self.schema_event(hdr["columns"], self.schema, self.objects()), hdr["columns"])
        add(self.schema_event(hdr["sem_columns"], self.sem, self.surfaces()), hdr["sem_columns"])
        ty = {n: t for _, n, t in hdr["columns"] or []}
        sty = {n: t for _, n, t in hdr["sem_columns"] or []}
        self.own = {o["id"]: o["cols"] for f in flats.values() for o in f["objects"]}
        for f in self.feats:
            fo = {o["id"]: o for o in flats[f["id"]]["objects"]}
            for oid, o in f["CityObjects"].items():
                a = o.get("attributes") or {}
                x = fo.get(oid)
                if x is None:
                    return bad({"no object": oid})
                cols = x["cols"] if x["cols"] is not None else hdr["columns"] or []
                by = {n: (i, t) for i, n, t in cols}
                want = []
                for k, v in a.items():
                    if v is not None:
                        i, t = by.get(k, (70000, "Json"))
                        try:
                            want.append([i, payload(t, v)])
                        except (struct.error, TypeError, AttributeError):
                            want.append([70001, [0]])     # the column cannot hold the value
                used = {w[0] for w in want}
                b = x["attrs"] or []
                if len(b) < 3000:
                    add({"ev": "obj", "cols": [[i, t] for i, _, t in cols if len(cols) < 40 or i in used], "bytes": b,
                         "want": want}, {"object": oid, "attributes": a, "columns": cols[:40], "bytes": b})
            e, g = self.expected(f, ty, sty), got[f["id"]]
            add({"ev": "rest", "in": digest(e), "out": digest(g)}, (e, g))
        return ev, show


def judge(c, cases):
    res = run.run_jobs([k.job for k in cases])
    both = [k.trace(o) for k, o in zip(cases, res)]
    traces = [b[0] for b in both]
    v = tlc.check_traces("AttrsTrace", traces)
    c.verdict(v, len(cases))
    for i, j in v.rejected:
        s = both[i][1][j]
        c.violation(f"{traces[i][j]['ev']}: {json.dumps(s)[:700]}", {"event": traces[i][j], "input and output": s,
                                                                    "job": cases[i].job})
    return traces, not v.rejected


def histories(c):
    out = os.path.join(tempfile.mkdtemp(dir=run.scratch()), "u")
    tlc.tlc("AttrsMC", "AttrsOut.cfg", env={"OUT": out})
    return [json.loads(x) for x in open(out)]


NAMES = ["a", "b", "c", "attr", "Z", "été", "x y", "", "type_", "long" * 30, "json", "日本"]


def spread(rnd, values, extra=()):
    """attributes of objects of several features"""
    feats = []
    for _ in range(rnd.randint(1, 5)):
        f = []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            r = rnd.random()
            a = None if r < .08 else {}
            if r >= .12:
                for n, gen in values.items():
                    x = rnd.random()
                    if x < .6:
                        a[n] = gen()
                    elif x < .7:
                        a[n] = None
                for n, gen in dict(extra).items():
                    if rnd.random() < .15:
                        a[n] = gen()
            f.append(a)
        feats.append(f)
    return feats


def auto_case(rnd):
    vals = {}
    kinds = ["bool", "nat", "neg", "frac", "text", "date", "struct"]
    for n in rnd.sample(NAMES, rnd.randint(1, 6)):
        ks = rnd.sample(kinds, rnd.choice([1, 1, 2, 3]))
        if rnd.random() < .15:
            # integers beyond 2^53 alone
            vals[n] = lambda: rnd.choice([2**64 - 1, 2**63, 0, 2**53 + 1])
        else:
            vals[n] = lambda ks=ks: of_kind(rnd, rnd.choice(ks))
    sems = spread(rnd, {n: g for n, g in list(vals.items())[:3]}) if rnd.random() < .5 else []
    sems = [[a for a in f if a is not None] for f in sems]
    return AttrCase(spread(rnd, vals), sems, mode=rnd.choice(["seek", "seq", "http"]), index=rnd.random() < .3)


def told_case(rnd):
    def columns():
        n = rnd.randint(1, 8)
        ix = rnd.sample([0, 1, 2, 3, 7, 100, 255, 256, 257, 1000, 32768, 65535], n)
        return {nm: (i, rnd.choice(TYPES)) for nm, i in zip(rnd.sample(NAMES, n), ix)}
    sch = columns() if rnd.random() < .93 else None
    sem = columns() if rnd.random() < .5 else None
    gens = lambda s: {nm: (lambda t=t: of_type(rnd, t)) for nm, (_, t) in (s or {}).items()}
    extra = {n: (lambda: of_kind(rnd, rnd.choice(["bool", "nat", "neg", "frac", "text", "date", "struct"])))
             for n in ["own1", "own2"]} if rnd.random() < .4 or sch is None else {}
    vals = gens(sch)
    if extra:
        # beside an attribute of its own the object's numbers are stored as they are met
        vals = {nm: g for nm, g in vals.items()}
    sems = [[a for a in f if a is not None] for f in spread(rnd, gens(sem))] if sem else []
    j = lambda s: None if s is None else {k: [i, t] for k, (i, t) in s.items()}
    return AttrCase(spread(rnd, vals, extra), sems, schema=j(sch), sem=j(sem), mode=rnd.choice(["seek", "seq", "http"]))


def wide_case(rnd, n):
    """more columns than a byte can number"""
    names = ["n%d" % i for i in range(n)]
    objs = [[{x: of_kind(rnd, rnd.choice(["nat", "text", "bool"])) for x in rnd.sample(names, 30)}] for _ in range(20)]
    objs[0] = [{x: i for i, x in enumerate(names)}]
    objs[1] = [{"big": "z" * 70000, "n1": 1, "list": list(range(5000))}]
    return AttrCase(objs)


def f14(c):
    c.design("AttrsMC", "AttrsMCDeep.cfg" if c.thorough else "AttrsMC.cfg")
    h = histories(c)
    pick = h if c.thorough else [x for x in h if len(x) < 3] + c.rnd.sample([x for x in h if len(x) == 3], 500)
    cases = []
    for k, x in enumerate(pick):
        rnd = c.sub(f"h{k}")
        objs = [[{n: of_kind(rnd, kd)}] for n, kd in x]
        sems = [[a for a in f] for f in objs] if rnd.random() < .3 else []
        cases.append(AttrCase(objs, sems))
    c.notes["universe"] = {"histories": len(h), "replayed": len(pick)}
    for k in range(c.n(300, 6000)):
        cases.append(auto_case(c.sub(f"a{k}")))
        cases.append(told_case(c.sub(f"t{k}")))
    for k in range(c.n(2, 20)):
        cases.append(wide_case(c.sub(f"w{k}"), c.sub(f"w{k}").choice([255, 256, 257, 300, 700])))
    for a in range(0, len(cases), 1500):
        t, ok = judge(c, cases[a:a + 1500])
        if not ok:
            return
        c.sample({"trace": t[-3][:4]})


CHECKS = {"F14": f14}
