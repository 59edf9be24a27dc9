"""F15: the header through the real writer and reader (spec/Doc.tla)."""
import copy
import json
import struct
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import unquote

import docs
import fb
import run
import tlc
from data import canon, digest

POC = {"contactName": 15, "contactType": 16, "role": 17, "phone": 18, "emailAddress": 19, "website": 20}
ADR = {"thoroughfareNumber": 21, "thoroughfareName": 22, "locality": 23, "postalCode": 24, "country": 25}
TEXTS = ["", "x", "é", "日本語", "a b", "0", "x" * 300, "null", '"', "\n", "+31 15 278", "https://e.org/?a=b&c#d"]


def num(x):
    return struct.pack("<d", float(x) + 0.0).hex()


def vec(v):
    return "".join(num(x) for x in v)


def properties(d):
    """of a CityJSON header: <<name, value>> pairs"""
    r = [["version", d.get("version")], ["scale", vec(d["transform"]["scale"])], ["translate", vec(d["transform"]["translate"])]]
    m = d.get("metadata") or {}
    for k in ("identifier", "referenceDate", "title"):
        if m.get(k) is not None:
            r.append([k, m[k]])
    if m.get("geographicalExtent") is not None:
        r.append(["extent", vec(m["geographicalExtent"])])
    if m.get("referenceSystem") is not None:
        u = m["referenceSystem"]
        base, a, v, c = u.rsplit("/", 3)
        r += [["crs.authority", a], ["crs.version", v], ["crs.code", c]]
        if base != "https://www.opengis.net/def/crs":
            r.append(["crs.base", base])
    p = m.get("pointOfContact")
    if p is not None:
        r += [["poc." + k, v] for k, v in p.items() if k != "address" and v is not None]
        r += [["adr." + k, str(v)] for k, v in (p.get("address") or {}).items()]
    known = {"identifier", "referenceDate", "title", "geographicalExtent", "referenceSystem", "pointOfContact"}
    r += [["other." + k, "?"] for k in m if k not in known and m[k] is not None]
    return r


def slots(b):
    """of the header table of a file"""
    t = fb.root(b, 8)
    r = []
    structs = lambda p, n: struct.unpack_from("<%dd" % n, b, p)
    p = t.at(0)
    if p is not None:
        v = structs(p, 6)
        r += [["scale", vec(v[:3])], ["translate", vec(v[3:])]]
    p = t.at(7)
    if p is not None:
        r.append(["extent", vec(structs(p, 6))])
    c = t.table(8)
    if c is not None:
        r.append(["crs", "table"])
        for k, s in (("crs.authority", c.string(0)), ("crs.version", c.scalar(1, "<i")), ("crs.code", c.scalar(2, "<i"))):
            if s is not None:
                r.append([k, str(s)])
    for k, i in (("identifier", 9), ("referenceDate", 10), ("title", 11), ("version", 27)):
        if t.string(i) is not None:
            r.append([k, t.string(i)])
    for pre, names in (("poc.", POC), ("adr.", ADR)):
        r += [[pre + k, t.string(i)] for k, i in names.items() if t.string(i) is not None]
    return r


def stored_extensions(b):
    r = []
    for e in fb.root(b, 8).tables(14):
        js = [json.loads(e.string(i)) for i in (5, 6, 7, 8)]
        r.append([e.string(0), e.string(2), e.string(3), digest({"d": e.string(1), "v": e.string(4), "x": js})])
    return r


class Served:
    """a server of extension files on the loopback interface"""

    def __init__(self):
        self.files = {}
        files = self.files

        class H(BaseHTTPRequestHandler):
            def do_GET(self):
                body = files.get(unquote(self.path))
                self.send_response(200 if body is not None else 404)
                self.end_headers()
                self.wfile.write(body if body is not None else b"no such file")

            def log_message(self, *a):
                pass
        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def url(self, name, body):
        p = "/%d/%s.ext.json" % (len(self.files), name)
        self.files[p] = body
        return "http://127.0.0.1:%d%s" % (self.port, p)

    def stop(self):
        self.srv.shutdown()


def extension(rnd, srv, name, broken=False):
    part = lambda: rnd.choice([{}, {"Building": {"+x": {"type": "string"}}}, {"+é": {"a": [1, None, 0.5]}}])
    keys = ["extraAttributes", "extraCityObjects", "extraRootProperties", "extraSemanticSurfaces"]
    f = {"type": "CityJSONExtension", "name": name, "url": "elsewhere", "version": "9", "versionCityJSON": "2.0"}
    if rnd.random() < .7:
        f["description"] = text(rnd)
    for k in keys:
        if rnd.random() < .7:
            f[k] = part()
    version = rnd.choice(["1.0", "0.9.1", "2"])
    body = json.dumps(f).encode()
    if broken:
        body = rnd.choice([None, b"", body[:-1], b"<html>"])
    url = srv.url(name, body)
    content = digest({"d": f.get("description", ""), "v": "2.0", "x": [f.get(k, {}) for k in keys]})
    return {"url": url, "version": version}, {"name": name, "url": url, "version": version, "served": not broken,
                                             "content": content}


def text(rnd):
    return rnd.choice(TEXTS) if rnd.random() < .7 else docs.text(rnd)


def real(rnd):
    return rnd.choice([0.0, 1.0, -1.0, 0.001, 1e-7, 0.1, 123456.789, -84616.468, 1e7, rnd.randint(-9999, 9999) / 8])


def metadata(rnd, p=.5):
    m = {}
    on = lambda: rnd.random() < p
    if on():
        m["geographicalExtent"] = [real(rnd) for _ in range(6)]
    for k in ("identifier", "title"):
        if on():
            m[k] = text(rnd)
    if on():
        m["referenceDate"] = rnd.choice(["2020-01-01", "1999-12-31", ""])
    if on():
        m["referenceSystem"] = "https://www.opengis.net/def/crs/%s/%d/%d" % (
            rnd.choice(["EPSG", "OGC", "x"]), rnd.choice([0, 0, 1, 2, 2**31 - 1]),
            rnd.choice([7415, 28992, 0, 1, 2**31 - 1]))
    if on():
        c = {"contactName": text(rnd), "emailAddress": text(rnd)}
        for k in ("contactType", "role", "phone", "website"):
            if on():
                c[k] = text(rnd)
        if on():
            c["address"] = {"thoroughfareNumber": rnd.choice([0, 1, -5, 99, 2**40]), "thoroughfareName": text(rnd),
                            "locality": text(rnd), "postalCode": text(rnd), "country": text(rnd)}
        m["pointOfContact"] = c
    return m


class HeaderCase:
    def __init__(self, rnd, srv, meta=None, exts=0, broken=0, extent=None, rich=True):
        from data import DataSet
        n = rnd.choice([1, 1, 2, 5])
        self.d = DataSet(rnd, n, said="true") if rich else DataSet(rnd, 1, cols=0)
        d = self.d
        h = docs.header(rnd, tpl=.3, app=.3) if rich else {"type": "CityJSON", "CityObjects": {}, "vertices": []}
        h["transform"] = {"scale": [rnd.choice([1.0, 0.001, 0.5, 1e-7, 0.01]) for _ in range(3)],
                          "translate": [real(rnd) for _ in range(3)]}
        h["version"] = rnd.choice(["2.0", "1.1", "2.0.1", ""])
        h.pop("metadata", None)
        if meta is not None:
            h["metadata"] = meta
        names = rnd.sample(["Noise", "Energy", "x", "é", "a b"], exts)
        self.exts = []
        if exts or rnd.random() < .1:
            h["extensions"] = {}
            for i, nm in enumerate(names):
                h["extensions"][nm], e = extension(rnd, srv, nm, broken=i < broken)
                self.exts.append(e)
        self.h, self.extent = h, extent
        w = d.write_job(cj=h)
        self.sem = {"sa": [rnd.choice([0, 3, 300]), "Int"], "é": [7, "String"]} if rnd.random() < .4 else None
        w["sem"] = self.sem
        w["opts"]["extent"] = extent
        self.job = {"op": "session", "write": w, "dump": True,
                    "reads": [{"mode": rnd.choice(["seek", "seq", "http"]), "sel": {}, "want": "meta", "hdr": True, "meta": True, "max": 1}]}

    def trace(self, ob):
        broken = lambda why: ([{"ev": "broken", "why": json.dumps(why)[:400]}], [why])
        e = {"ev": "ext", "exts": self.exts, "ok": ob.get("write") == "ok", "out": [], "stored": []}
        if not e["ok"]:
            if not isinstance(ob.get("write"), dict) or "err" not in ob["write"]:
                return broken({k: ob[k] for k in ob if k != "bytes"})
            return [e], [ob["write"]]
        r = ob["reads"][0]
        if r.get("open") != "ok" or not isinstance(r.get("meta"), dict) or "err" in r["meta"] or "panic" in r["meta"]:
            return broken({k: r.get(k) for k in ("open", "meta", "panic")})
        out, b = r["meta"], bytes.fromhex(ob["bytes"])
        e["out"] = [[k, v.get("url"), v.get("version")] for k, v in (out.get("extensions") or {}).items()]
        e["stored"] = stored_extensions(b)
        ms = [x[1] for x in r.get("events", []) if x[0] == "f"]
        if len(ms) != 1:
            return broken({"events": r.get("events"), "select": r.get("select")})
        d, hdr = self.d, r["hdr"]
        cl = {"ev": "cols", "want": [[i, nm, t] for nm, (i, t) in d.cols.items()], "cols": hdr["columns"] or [],
              "wantsem": [[i, nm, t] for nm, (i, t) in (self.sem or {}).items()], "sem": hdr["sem_columns"] or [],
              "meta": [[x["index"], x["name"], x["type"], bool(x["attrIndex"])] for x in ms[0]["columns"]],
              "indexed": [nm for nm, _ in d.attr], "n": len(d.features), "count": hdr["features_count"],
              "metacount": ms[0]["featureCount"]}
        dv = {"ev": "doc", "src": properties(self.h), "extent": "" if self.extent is None else vec(self.extent),
              "slots": slots(b), "out": properties(out)}
        a, z = self.rest(self.h), self.rest(out)
        return ([e, cl, dv, {"ev": "rest", "in": digest(a), "out": digest(z)}],
                [(self.exts, e["out"], e["stored"]), cl, (self.h, out), (a, z)])

    @staticmethod
    def rest(d):
        d = copy.deepcopy(d)
        for k in ("metadata", "extensions", "transform", "version"):
            d.pop(k, None)
        return canon(d)


def judge(c, cases):
    res = run.run_jobs([k.job for k in cases])
    both = [k.trace(o) for k, o in zip(cases, res)]
    traces = [x[0] for x in both]
    v = tlc.check_traces("DocTrace", traces)
    c.verdict(v, len(cases))
    for i, j in v.rejected:
        s = both[i][1][j]
        c.violation(f"{traces[i][j]['ev']}: {json.dumps(s)[:700]}", {"event": traces[i][j], "input and output": s,
                                                                    "job": cases[i].job})
    return traces, not v.rejected


def f15(c):
    c.design("DocMC")
    srv = Served()
    try:
        cases = []
        # every combination of the groups of metadata properties
        full = metadata(c.sub("full"), p=1.1)
        keys = sorted(full)
        for k in range(1 << len(keys)):
            rnd = c.sub(f"m{k}")
            m = metadata(rnd, p=1.1)
            m = {x: m[x] for i, x in enumerate(keys) if k >> i & 1}
            ext = [real(rnd) for _ in range(6)] if rnd.random() < .5 else None
            cases.append(HeaderCase(rnd, srv, meta=m or rnd.choice([None, {}]), extent=ext, rich=False))
        # every combination of the parts of a contact
        for k in range(32):
            rnd = c.sub(f"p{k}")
            m = metadata(rnd, p=1.1)["pointOfContact"]
            may = ["contactType", "role", "phone", "website", "address"]
            m = {x: v for x, v in m.items() if x not in may or k >> may.index(x) & 1}
            cases.append(HeaderCase(rnd, srv, meta={"pointOfContact": m}, rich=False))
        for k in range(c.n(300, 5000)):
            rnd = c.sub(f"r{k}")
            x = rnd.choice([0, 0, 0, 1, 2, 3]) if rnd.random() < .3 else 0
            cases.append(HeaderCase(rnd, srv, meta=rnd.choice([None, {}]) if rnd.random() < .15 else metadata(rnd), exts=x,
                                    broken=rnd.choice([0, 0, 1]) if x else 0,
                                    extent=[real(rnd) for _ in range(6)] if rnd.random() < .3 else None))
        for a in range(0, len(cases), 1000):
            t, ok = judge(c, cases[a:a + 1000])
            if not ok:
                return
        c.sample({"trace": [e for e in t[-1]]})
    finally:
        srv.stop()


CHECKS = {"F15": f15}
