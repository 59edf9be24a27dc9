"""F12, F13: geometry, semantics, materials and textures through the real writer and reader (spec/GeomCodec.tla)."""
import copy
import json
import os
import tempfile

import docs
import run
import tlc
from data import canon, digest

NULL32 = 2**32 - 1
M31 = 2**31 - 1


def toks(x):
    """nested arrays as a list of tokens"""
    if isinstance(x, list):
        r = [-2]
        for y in x:
            r += toks(y)
        return r + [-3]
    if x is None:
        return [-1]
    if isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= M31:
        return [x]
    return [-9]


def nulls(x):
    """leaf nulls as -1; a null in place of an array as an empty array"""
    if isinstance(x, list):
        return [nulls(y) for y in x]
    return -1 if x is None else x


def sem_values(v, d):
    """values of depth d with abbreviating nulls as empty arrays"""
    if v is None:
        return []
    return nulls(v) if d == 1 else [sem_values(x, d - 1) for x in v]


def flat_ints(v):
    return [-1 if x == NULL32 else min(x, M31) for x in (v or [])]


def levels(f):
    return [flat_ints(f[k]) for k in ("strings", "surfaces", "shells", "solids")]


def geom_event(g, out, fl):
    t = g["type"]
    vd = 1 + docs.SEM_DEPTH[t]
    e = {"ev": "g", "t": t, "b": g["boundaries"], "out": toks(out.get("boundaries")), "stored": fl is not None}
    sem = g.get("semantics")
    osem = out.get("semantics")
    e["sem"] = [] if sem is None else [sem_values(sem["values"], vd)]
    e["osem"] = [] if osem is None else [toks(osem.get("values"))]
    m = g.get("material") or {}
    om = out.get("material") or {}
    val = lambda x: -1 if x.get("value") is None else x["value"]
    e["mat"] = [{"theme": k, "value": val(m[k]), "v": nulls(m[k].get("values") or [])} for k in sorted(m)]
    e["omat"] = [{"theme": k, "value": val(om[k]), "toks": toks(om[k]["values"]) if om[k].get("values") is not None else []}
                 for k in sorted(om)]
    x, ox = g.get("texture") or {}, out.get("texture") or {}
    e["tex"] = [{"theme": k, "v": nulls(x[k]["values"])} for k in sorted(x)]
    e["otex"] = [{"theme": k, "toks": toks(ox[k].get("values"))} for k in sorted(ox)]
    e["flat"] = {}
    if fl is not None:
        key = lambda a: a["theme"] or ""
        e["flat"] = {"L": levels(fl), "leaves": flat_ints(fl["boundaries"]), "sem": flat_ints(fl["semantics"]),
                     "mat": [{"theme": a["theme"], "value": -1 if a["value"] is None else min(a["value"], M31),
                              "solids": flat_ints(a["solids"]), "shells": flat_ints(a["shells"]),
                              "vertices": flat_ints(a["vertices"])} for a in sorted(fl["mat"] or [], key=key)],
                     "tex": [{"theme": a["theme"], "L": levels(a), "leaves": flat_ints(a["vertices"])}
                             for a in sorted(fl["tex"] or [], key=key)]}
    return e


def std(gs):
    return [g for g in gs or [] if g.get("type") != "GeometryInstance"]


def bare(doc):
    """the document with its nested arrays taken out of the geometries"""
    doc = copy.deepcopy(doc)
    if not doc.get("metadata", True):
        del doc["metadata"]         # absent metadata is read as an empty object
    for o in doc.get("CityObjects", {}).values():
        gs = o.get("geometry")
        if gs is not None:
            for g in std(gs):
                strip(g)
            o["geometry"] = std(gs) + [g for g in gs if g.get("type") == "GeometryInstance"]
    for g in (doc.get("geometry-templates") or {}).get("templates", []):
        strip(g)
    return doc


def strip(g):
    g.pop("boundaries", None)
    g.pop("material", None)
    g.pop("texture", None)
    if g.get("semantics"):
        g["semantics"].pop("values", None)


def rest(i, o, tidy=lambda d: d):
    a, b = canon(tidy(bare(i))), canon(tidy(bare(o)))
    return {"ev": "rest", "in": digest(a), "out": digest(b)}, (a, b)


class DocCase:
    def __init__(self, head, feats, attr=None, index=True, mode="seek"):
        self.head, self.feats = head, feats
        self.job = {"op": "session", "write": dict(cj=head, features=feats, schema="auto", sem="auto",
                                                   opts=dict(write_index=index, attr=attr)),
                    "reads": [{"mode": mode, "sel": {}, "want": "full", "meta": True},
                              {"mode": "seek", "sel": {}, "want": "flat"}]}

    def trace(self, ob, tidy=lambda d: d):
        """-> events and, for each, what to show when it is rejected"""
        bad = lambda why: ([{"ev": "broken", "why": json.dumps(why)[:400]}], [why])
        if ob.get("write") != "ok" or "reads" not in ob:
            return bad({k: ob[k] for k in ob if k != "bytes"})
        full, fl = ob["reads"]
        got = {}
        for e in full.get("events") or []:
            if e[0] == "f":
                got.setdefault(e[1].get("id"), []).append(e[1])
            elif e[0] != "end":
                return bad(e)
        flats = {e[1]["id"]: e[1] for e in fl.get("events") or [] if e[0] == "f"}
        if sorted(got) != sorted(f["id"] for f in self.feats) or any(len(v) != 1 for v in got.values()):
            return bad({"features": sorted(got), "open": full.get("open"), "panic": full.get("panic")})
        meta = full.get("meta") or {}
        ev, show = [], []

        def add(e, s):
            ev.append(e)
            show.append(s)
        add(*rest(self.head, meta, tidy))
        tg = (self.head.get("geometry-templates") or {}).get("templates", [])
        og = (meta.get("geometry-templates") or {}).get("templates", [])
        for g, o in zip(tg, og):
            add(geom_event(g, o, None), (g, o))
        for f in self.feats:
            o = got[f["id"]][0]
            add(*rest(f, o, tidy))
            fo = {x["id"]: x for x in flats.get(f["id"], {}).get("objects", [])}
            for oid, co in f["CityObjects"].items():
                oo = o.get("CityObjects", {}).get(oid, {})
                fg = fo.get(oid, {}).get("geoms", [])
                for g, og, x in zip(std(co.get("geometry")), std(oo.get("geometry")), fg):
                    add(geom_event(g, og, x), (g, og))
        return ev, show


def judge(c, cases, tidy=lambda d: d):
    res = run.run_jobs([k.job for k in cases])
    both = [k.trace(o, tidy) for k, o in zip(cases, res)]
    traces = [b[0] for b in both]
    v = tlc.check_traces("GeomTrace", traces)
    c.verdict(v, len(cases))
    for i, j in v.rejected:
        s = both[i][1][j]
        c.violation(f"{traces[i][j]['ev']}: {json.dumps(s)[:700]}", {"event": traces[i][j], "input and output": s,
                                                                    "job": cases[i].job})
    return traces, not v.rejected


def plain_header():
    return {"type": "CityJSON", "version": "2.0", "transform": {"scale": [0.5] * 3, "translate": [1.0, 2.0, 3.0]},
            "CityObjects": {}, "vertices": []}


def universe(c):
    out = os.path.join(tempfile.mkdtemp(dir=run.scratch()), "u")
    tlc.tlc("GeomMC", "GeomOut.cfg", env={"OUT": out})
    return [json.loads(x) for x in open(out)]


SAME = {d: [t for t in docs.TYPES if docs.DEPTH[t] == d] for d in range(1, 6)}


def packed(rnd, gs, per=12, objs=3, head=None):
    """geometries distributed over features and objects"""
    feats, k = [], 0
    while k < len(gs):
        os_ = {}
        for i in range(rnd.randint(1, objs)):
            part = gs[k:k + per]
            k += len(part)
            if part:
                os_["f%d.%d" % (len(feats), i)] = {"type": "Building", "geometry": part}
        feats.append({"type": "CityJSONFeature", "id": "f%d" % len(feats), "CityObjects": os_,
                      "vertices": [[rnd.choice([-2**31, 2**31 - 1, 0, rnd.randint(-9999, 9999)]) for _ in range(3)]
                                   for _ in range(70)]})
    return DocCase(head or plain_header(), feats, index=False)


def lod(rnd, g):
    if rnd.random() < .1:
        g.pop("lod", None)
    return g


def hollow(rnd, b, d, top=True):
    """sometimes an empty array where a ring, surface or shell could be"""
    if d == 1:
        return b
    r = [hollow(rnd, x, d - 1, False) for x in b]
    if rnd.random() < .3:
        r.insert(rnd.randint(0, len(r)), [])
    return r


def large(rnd):
    """geometries whose lists and numbers do not fit one byte, or two"""
    far = lambda: rnd.choice([0, 1, 254, 255, 256, 257, 65535, 65536, 70000, 2**31 - 2])
    ring = lambda k: [far() if rnd.random() < .02 else rnd.randrange(70) for _ in range(k)]
    n = rnd.choice([255, 256, 257, 300])
    N = rnd.choice([65535, 65536, 66000])
    return [{"type": "MultiPoint", "lod": "1", "boundaries": ring(N)},
            {"type": "MultiLineString", "lod": "1", "boundaries": [ring(n), ring(3), ring(N)] + [ring(2) for _ in range(n)]},
            {"type": "MultiSurface", "lod": "1", "boundaries": [[ring(3)] for _ in range(rnd.choice([n, 20000]))]},
            {"type": "CompositeSurface", "lod": "1", "boundaries": [[ring(3) for _ in range(n)], [ring(n)]]},
            {"type": "Solid", "lod": "1", "boundaries": [[[ring(3)] for _ in range(n)]] + [[[ring(3), ring(4)]] for _ in range(n)]},
            {"type": "MultiSolid", "lod": "1", "boundaries": [[[[ring(3)]] * 2] * rnd.randint(1, 2) for _ in range(n)]},
            {"type": "CompositeSolid", "lod": "1", "boundaries": [[[[ring(3)]]], [[[ring(2)] for _ in range(n)] for _ in range(3)]]}]


def many_surfaces(rnd, g):
    """semantics with more surface objects than a byte can number; materials and textures likewise"""
    t, b = g["type"], g["boundaries"]
    ns = rnd.choice([255, 256, 257, 300, 700])
    top = rnd.choice([ns, ns, 70000])
    d = docs.SEM_DEPTH[t]
    sf = [{"type": docs.SURFACES[i % len(docs.SURFACES)], "sa": i} for i in range(ns)]
    for i in range(ns):
        if rnd.random() < .3:
            sf[i]["parent"] = rnd.choice([rnd.randrange(ns), ns - 1, 0])
        if rnd.random() < .1:
            sf[i]["children"] = [rnd.randrange(ns) for _ in range(rnd.choice([1, 2, 300]))]
    g["semantics"] = {"surfaces": sf, "values": docs.shaped(b, d, lambda _: rnd.randrange(ns))}
    if t in docs.SOLID_TYPES:
        g["material"] = {"m%d" % i: {"values": docs.shaped(b, d, lambda _: rnd.randrange(top))} if i else {"value": top - 1}
                         for i in range(2)}
        g["texture"] = {"t": {"values": docs.shaped(b, d + 1, lambda r: [rnd.randrange(top)] + [rnd.randrange(top) for _ in r])}}
    return g


def rich_appearance(rnd):
    """many materials, textures and texture coordinates"""
    n = rnd.choice([256, 300])
    return {"materials": [{"name": "m%d" % i, "shininess": i / 512} for i in range(n)],
            "textures": [{"type": "PNG", "image": "i%d" % i} for i in range(n)],
            "vertices-texture": [[i / 1024, 0.5] for i in range(rnd.choice([n, 70000]))]}


def f12(c):
    c.design("GeomMC", "GeomMCDeep.cfg" if c.thorough else "GeomMC.cfg")
    u = universe(c)
    c.notes["universe"] = {"geometries": len(u)}
    gs = []
    for x in u:
        for t in SAME[docs.DEPTH[x["t"]]] if c.thorough else [c.rnd.choice(SAME[docs.DEPTH[x["t"]]])]:
            gs.append({"type": t, "lod": c.rnd.choice(["1", "2.2"]), "boundaries": x["b"]})
    step = 12 * 12
    traces, ok = judge(c, [packed(c.sub(k), gs[k:k + step]) for k in range(0, len(gs), step)])
    if not ok:
        return
    c.sample({"trace": [e for e in traces[-1] if e["ev"] == "g"][:1]})
    cases = []
    for k in range(c.n(250, 5000)):
        rnd = c.sub(f"r{k}")
        head = plain_header()
        nt = 0
        if rnd.random() < .6:
            head["geometry-templates"] = docs.templates(rnd)
            nt = len(head["geometry-templates"]["templates"])
            for g in head["geometry-templates"]["templates"]:
                g.pop("material", None)
                g.pop("texture", None)
        feats = []
        for i in range(rnd.randint(1, 4)):
            v = docs.vertices(rnd, span=rnd.choice([5, 10**6, 2**31 - 1]))
            objs = {}
            for j in range(rnd.choice([1, 1, 2])):
                gg = []
                for _ in range(rnd.choice([0, 1, 2, 4])):
                    g = docs.geometry(rnd, len(v), wide=rnd.random() < .3, sem=0, mat=0, tex=0)
                    if rnd.random() < .1:
                        g["boundaries"] = rnd.choice([[], hollow(rnd, g["boundaries"], docs.DEPTH[g["type"]])])
                    gg.append(lod(rnd, g))
                gg += [docs.instance(rnd, len(v), max(1, nt)) for _ in range(rnd.choice([0, 0, 1, 3]))]
                o = {"type": "Building"}
                if gg:
                    o["geometry"] = gg
                objs["f%d.%d" % (i, j)] = o
            feats.append({"type": "CityJSONFeature", "id": "f%d" % i, "CityObjects": objs, "vertices": v})
        cases.append(DocCase(head, feats, index=rnd.random() < .5, mode=rnd.choice(["seek", "seq", "http"])))
    big = [g for k in range(c.n(1, 8)) for g in large(c.sub(f"large{k}"))]
    cases += [packed(c.sub(f"L{k}"), [g]) for k, g in enumerate(big)]
    rnd = c.sub("templates")
    head = plain_header()
    head["geometry-templates"] = {"templates": [docs.geometry(rnd, 66000, sem=0, mat=0, tex=0) for _ in range(300)],
                                  "vertices-templates": [[i / 8, 0.0, -1.5] for i in range(66000)]}
    o = {"i": {"type": "Building", "geometry": [docs.instance(rnd, 70, 300) for _ in range(300)]}}
    cases.append(DocCase(head, [{"type": "CityJSONFeature", "id": "i", "CityObjects": o, "vertices": docs.vertices(rnd, 70, 70)}]))
    wide = {"o%d" % i: {"type": "Building", "geometry": [docs.geometry(rnd, 9, sem=0, mat=0, tex=0)]} for i in range(300)}
    cases.append(DocCase(plain_header(), [{"type": "CityJSONFeature", "id": "w", "CityObjects": wide, "vertices": docs.vertices(rnd, 9, 9)}]))
    for a in range(0, len(cases), 600):
        if not judge(c, cases[a:a + 600])[1]:
            return


def abbreviate(rnd, t, v, b):
    """nulls for whole shells, solids, or the geometry; only where nothing is assigned below"""
    d = 1 + docs.SEM_DEPTH[t]

    def hide(x, k):
        if k == 0:
            return x
        y = [hide(z, k - 1) for z in x]
        if all(z is None for z in y) and rnd.random() < .7:
            return None
        if k > 1 and y[0] is None and any(z is not None for z in y):
            y[0] = x[0]             # cjseq takes an array that starts with null for a list of values
        return y
    return hide(v, d)


def f13(c):
    c.design("GeomMC", "GeomMC.cfg")
    u = [x for x in universe(c) if x["b"] and docs.DEPTH[x["t"]] >= 1]
    gs = []
    for x in u if c.thorough else c.rnd.sample(u, 2500):
        t = c.rnd.choice(SAME[docs.DEPTH[x["t"]]])
        if any(y == [] for y in walk(x["b"])):
            continue
        gs.append(dress(c.rnd, {"type": t, "lod": "1", "boundaries": x["b"]}))
    step = 12 * 8
    traces, ok = judge(c, [packed(c.sub(k), gs[k:k + step]) for k in range(0, len(gs), step)])
    c.notes["universe"] = {"geometries": len(gs)}
    if not ok:
        return
    c.sample({"trace": [e for e in traces[-1] if e["ev"] == "g" and e["mat"]][:1]})
    cases = []
    for k in range(c.n(250, 5000)):
        rnd = c.sub(f"r{k}")
        head = plain_header()
        if rnd.random() < .5:
            a = docs.appearance(rnd)
            if a:
                head["appearance"] = a
        if rnd.random() < .4:
            head["geometry-templates"] = docs.templates(rnd)
            for g in head["geometry-templates"]["templates"]:
                dress(rnd, g)
        feats = []
        for i in range(rnd.randint(1, 4)):
            v = docs.vertices(rnd)
            objs = {}
            for j in range(rnd.choice([1, 1, 2])):
                gg = [dress(rnd, docs.geometry(rnd, len(v), wide=rnd.random() < .2, sem=0, mat=0, tex=0))
                      for _ in range(rnd.choice([1, 2, 4]))]
                objs["f%d.%d" % (i, j)] = {"type": "Building", "geometry": gg}
            f = {"type": "CityJSONFeature", "id": "f%d" % i, "CityObjects": objs, "vertices": v}
            if rnd.random() < .4:
                a = docs.appearance(rnd)
                if a:
                    f["appearance"] = a
            feats.append(f)
        cases.append(DocCase(head, feats, index=rnd.random() < .5, mode=rnd.choice(["seek", "seq", "http"])))
    for k in range(c.n(2, 20)):
        rnd = c.sub(f"many{k}")
        gg = [many_surfaces(rnd, docs.geometry(rnd, 70, wide=True, sem=0, mat=0, tex=0)) for _ in range(8)]
        if k % 2 == 0:
            gg.append(many_surfaces(rnd, {"type": "MultiSurface", "lod": "2", "boundaries": [[[1, 2, 3]]] * rnd.choice([300, 20000])}))
        x = packed(rnd, gg)
        x.head["appearance"] = rich_appearance(rnd)
        x.feats[0]["appearance"] = rich_appearance(rnd)
        cases.append(x)
    for a in range(0, len(cases), 600):
        if not judge(c, cases[a:a + 600])[1]:
            return


def walk(x):
    yield x
    if isinstance(x, list):
        for y in x:
            yield from walk(y)


def dress(rnd, g):
    t, b = g["type"], g["boundaries"]
    if rnd.random() < .7:
        s = docs.semantics(rnd, b, t)
        s["values"] = abbreviate(rnd, t, s["values"], b)
        g["semantics"] = s
    if t in docs.SOLID_TYPES:
        if rnd.random() < .6:
            g["material"] = docs.materials(rnd, b, t)
        if rnd.random() < .6:
            g["texture"] = docs.textures(rnd, b, t)
    return g


CHECKS = {"F12": f12, "F13": f13}
