"""Random data sets and queries, in two forms: as jobs for the harness and as facts for TLC."""
import hashlib
import json
import struct
from fractions import Fraction


# ---------------------------------------------------------------- keys as sequences of naturals
def limbs(x, n):
    r = []
    for _ in range(n):
        r.append(x & 0xFFFF)
        x >>= 16
    assert x == 0
    return r[::-1]


def f64_key(x):
    x = float(x) + 0.0
    if x == 0:
        x = 0.0
    u = struct.unpack("<Q", struct.pack("<d", x))[0]
    u = (~u) & (2**64 - 1) if u >> 63 else u | (1 << 63)
    return limbs(u, 4)


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def dt_parse(s):
    """RFC 3339 text -> (seconds, nanoseconds) since 1970, UTC"""
    import datetime
    main, frac = s, ""
    i = s.find(".")
    if i >= 0:
        j = i + 1
        while j < len(s) and s[j].isdigit():
            j += 1
        frac, main = s[i + 1:j], s[:i] + s[j:]
    d = datetime.datetime.fromisoformat(main.replace("Z", "+00:00"))
    e = d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    return e.days * 86400 + e.seconds, int((frac + "000000000")[:9])


def key(kt, v):
    """order-preserving image of a value under key type kt"""
    if kt in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"):
        return limbs(int(v) + 2**64, 5)
    if kt == "f32":
        return f64_key(f32(v))
    if kt == "f64":
        return f64_key(v)
    if kt == "bool":
        return [1 if v else 0]
    if kt == "dt":
        s, n = dt_parse(v) if isinstance(v, str) else v
        return limbs(s + 2**40, 3) + limbs(n, 2)
    return list(v.encode())


COLKEY = {"Byte": "i8", "UByte": "u8", "Short": "i16", "UShort": "u16", "Int": "i32", "UInt": "u32",
          "Long": "i64", "ULong": "u64", "Float": "f32", "Double": "f64", "Bool": "bool",
          "String": "s50", "DateTime": "dt"}
RANGE = {"Byte": (-128, 127), "UByte": (0, 255), "Short": (-2**15, 2**15 - 1), "UShort": (0, 2**16 - 1),
         "Int": (-2**31, 2**31 - 1), "UInt": (0, 2**32 - 1), "Long": (-2**63, 2**63 - 1), "ULong": (0, 2**64 - 1)}
WORDS = ["", "a", "aa", "ab", "b", "B", "z", "é", "日本", "a b", "0", "10", "9", "Ab", "zz", "x" * 20, "x" * 49,
         "x" * 48 + "y", "x" * 48]
DATES = ["1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00.5Z", "2020-02-29T12:00:00Z",
         "2020-02-29T14:00:00+02:00", "2020-02-29T12:00:01Z", "1900-01-01T00:00:00Z", "2099-12-31T23:59:59.999999Z",
         "1969-12-31T23:59:59.25Z", "0001-01-01T00:00:00Z", "2021-06-01T00:00:00-05:30", "2020-02-29T12:00:00+00:00",
         "2020-02-29T12:00:00.000Z", "2020-02-29T12:00:00.123456789Z", "2020-02-29T12:00:00.123456Z", "2020-02-29T12:00:00.123457Z", "2020-02-29T12:00:00.123456788Z",
         "2020-02-29T12:00:00.124Z", "2020-02-29T12:00:00.000000001Z", "2020-02-29T11:59:59.999999999Z", "0001-01-01T00:00:00.000000001Z",
         "1500-06-01T00:00:00.5Z", "1500-06-01T00:00:00.500000001Z", "1600-01-01T00:00:00.001Z", "2500-01-01T00:00:00.123Z",
         "2500-01-01T00:00:00.123000001Z", "9999-12-31T23:59:59.999999999Z", "2000-12-31T23:59:59-00:00",
         "1582-10-15T00:00:00Z", "9999-12-31T23:59:59Z", "2020-03-01T01:30:00+13:30"]


def value_pool(rnd, ct, size):
    """a small pool of distinct values of a column type, extremes included"""
    if ct in RANGE:
        lo, hi = RANGE[ct]
        edge = [lo, lo + 1, hi, hi - 1] + [x for x in (0, 1, -1, 2, 10, 255, 256, 65535, 65536, -256) if lo <= x <= hi]
        base = rnd.randint(lo, hi)
        seq = [x for x in range(base, base + size) if lo <= x <= hi]
        small = [x for x in range(-2, size + 2) if lo <= x <= hi]
        pool = rnd.choice([edge, seq or edge, small])
        pool = list(dict.fromkeys(pool))
        if len(pool) < size:
            pool = list(dict.fromkeys(pool + [x for x in range(max(lo, 3), min(hi, 3 + 2 * size))]))
    elif ct in ("Float", "Double"):
        base = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -1.5, 2.0, 1e-3, 1e10, -1e10, 3.25, 100.125, 1e30, -1e30]
        if ct == "Double":
            base += [0.1, 1e300, -1e300, 1e-300, 2.0**53]
        small = [x / 4 for x in range(-4, size * 2)]
        pool = rnd.choice([base, small])
    elif ct == "Bool":
        return [True, False]
    elif ct == "DateTime":
        pool = list(DATES)
        if rnd.random() < .5:
            pool = ["2020-01-%02dT00:00:00Z" % d for d in range(1, 29)]
        elif rnd.random() < .5:
            # one second, ten years either way: instants that differ below the millisecond
            y, step = rnd.choice([2020, 1970, 1969, 1600, 2400, 1, 9998]), rnd.choice([1, 10, 1000, 10**5, 10**6, 10**8])
            at = rnd.randint(0, 10**9 - 40 * step) if 40 * step < 10**9 else 0
            pool = ["%04d-05-05T05:05:05.%09dZ" % (y, at + k * step) for k in range(9)] + ["%04d-05-05T05:05:05Z" % y]
    else:
        pool = rnd.choice([list(WORDS), ["w%03d" % i for i in range(max(size, 3))],
                           list(dict.fromkeys(text(rnd, 49, nul=False) for _ in range(2 * size + 4)))])
    rnd.shuffle(pool)
    return pool[:max(1, size)]


PIECES = ["", "a", "Z", "9", " ", "  ", "\t", "\n", "\r\n", "\x01", "\x7f", "\x85", "é", "e\u0301", "ß", "İ", "日本", "\U0001f600",
          "\u200d", "\ufeff", "\ufffd", "\u2028", "\\", '"', "'", "/", "%20", "&amp;", "<b>", "{}", "[]", "#", "//", "+00:00", "T", "Z",
          "-", "_", ".", ",", ";", "null", "true", "NaN", "Infinity", "0", "-0", "01", "1e5", "1.0", "0x10", "2020-01-01",
          "12:00:00", "+Foo", "$", "*", "..", "C:\\x", "~", "\x1b[0m"]
WHOLE = ["", " ", "null", "true", "false", "0", "-0", "007", "1e5", "1.0", "1.50", "+1", "NaN", "nan", "inf", "2020-01-01", "2020-13-01T00:00:00Z",
         "2020-01-01T00:00:00", "12:00:00", "20200101", " a", "a ", "\ta", "a\n", "A", "a\x00b", "\x00", "+00:00", "x+00:00", "{}", "[1]", '"a"',
         "https://example.org/a?b=c&d=e#f", "urn:x-y:z", "+ext", "é", "e\u0301", "\u212b", "Å", "ﬁ", "İ", "ı", "ς"]


def text(rnd, most=None, nul=True):
    """a string of any kind; at most so many bytes"""
    r = rnd.random()
    if r < .35:
        s = rnd.choice(WHOLE)
    elif r < .85:
        s = "".join(rnd.choice(PIECES) for _ in range(rnd.randint(1, 5)))
    else:
        s = rnd.choice(["x", "é", "日", "ab "]) * rnd.choice([10, 16, 31, 64, 85, 127, 128, 255, 256, 257])
    if not nul:
        s = s.replace("\x00", "")
    if most is not None:
        while len(s.encode()) > most:
            s = s[:-1]
    return s


# ---------------------------------------------------------------- documents and their digests
def canon(x):
    """nulls are absences, numbers compare by value"""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [canon(v) for v in x]
    if isinstance(x, float) and x == int(x) and abs(x) < 1e15:
        return int(x)
    return x


def digest(doc):
    return hashlib.sha1(json.dumps(canon(doc), sort_keys=True).encode()).hexdigest()[:12]


# the object types of CityJSON 2.0 that the format knows
TYPES = ["Building", "BuildingPart", "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture", "BuildingStorey",
         "BuildingRoom", "BuildingUnit", "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom",
         "BridgeFurniture", "CityFurniture", "CityObjectGroup", "GenericCityObject", "LandUse", "OtherConstruction", "PlantCover",
         "SolitaryVegetationObject", "TINRelief", "Road", "Railway", "Waterway", "TransportSquare", "Tunnel", "TunnelPart",
         "TunnelInstallation", "TunnelConstructiveElement", "TunnelHollowSpace", "TunnelFurniture", "WaterBody", "+Foo", "+Building"]


class DataSet:
    """Features with integer vertex coordinates, a dyadic (or millimetre) transform, and attribute columns."""

    def __init__(self, rnd, n, cols=None, dup_ids=False, index=True, attr=None, spread=None, exact=True,
                 multi=True, types=None, pool=4, empties=False, bfs=(None, 2, 3, 4, 16), said="true", wide=0):
        self.rnd = rnd
        self.wide = wide
        self.index = index
        self.exact = exact
        self._transform(rnd)
        spread = spread if spread is not None else rnd.choice([2, 6, 30])
        self.spread = spread
        ncols = cols if cols is not None else rnd.randint(0, 3)
        types = types or list(COLKEY)
        names = rnd.sample(["a", "b", "c", "attr", "Z", "été", "x y"], ncols)
        idx = rnd.sample(range(0, 12), ncols)
        self.cols = {nm: (i, rnd.choice(types)) for nm, i in zip(names, idx)}
        self.often = []
        if wide:
            # more columns than a byte can number; columns of the same type at distances of 256
            step = rnd.choice([1, 1, 1, 7, 64, 256])
            k = [i * step % 65536 for i in range(wide)] if step != 256 else [i % 250 + 256 * (i // 250) for i in range(wide)]
            types = rnd.sample(types, len(types))
            ty = lambda i: types[i % (256 if step != 256 else 250) % len(types)]
            self.cols = {"c%d" % i: (k[i], ty(i)) for i in range(wide)}
            twins = {}
            for i in range(wide):
                for j in range(i):
                    if k[i] % 256 == k[j] % 256 and ty(i) == ty(j):
                        twins.setdefault(ty(i), []).append((j, i))
            self.often = ["c%d" % i for t in sorted(twins) for i in rnd.choice(twins[t])]
            if attr is None:
                attr = list(self.often)
        self.pools = {nm: value_pool(rnd, ct, pool if ct != "Bool" else 2) for nm, (_, ct) in self.cols.items()}
        if attr is None:
            attr = [nm for nm in self.cols if rnd.random() < .75]
        rnd.shuffle(attr)
        self.attr = [[nm, rnd.choice(bfs)] for nm in attr]
        self.features = []
        self.facts = []
        for i in range(n):
            self.features.append(self._feature(i, dup_ids, multi, empties))
        # an attribute without any value cannot be indexed
        for nm, _ in self.attr:
            if not any(nm in f["a"] for f in self.facts):
                self.attr = [e for e in self.attr if e[0] != nm]
        self.said = {"true": None, "zero": 0, "less": max(0, n - 1), "more": n + 3}[said]

    def _transform(self, rnd):
        """Model coordinates count units of a fraction of the smallest step from self.far, so that they are small
        integers whatever the transform."""
        far, r = [Fraction(0)] * 3, rnd.random()
        if self.exact:
            # dyadic: every coordinate is exact, and so are the distances
            base = Fraction(1)
            if r < .3:
                base = Fraction(1, 2 ** rnd.choice([1, 7, 10, 20, 23]))
                far = [Fraction(rnd.choice([0, 84616, 447422, -121000, 5, -73])) for _ in range(3)]
            elif r < .4:
                base = Fraction(2 ** rnd.choice([4, 9]))
            mul = [Fraction(rnd.choice(["1", "1/2", "1/4", "2"])) for _ in range(3)]
            off = [Fraction(rnd.choice(["0", "1/2", "-15/2", "100", "-31"])) for _ in range(3)]
            self.unit_ = 8 / base
        else:
            # decimal: queries stay off the grid
            base = Fraction(1, rnd.choice([1000, 1000, 1000, 100, 10**6, 10**7]))
            mul = [Fraction(rnd.choice([1, 1, 1, 2, 3, 5])) for _ in range(3)] if r < .5 else [Fraction(1)] * 3
            off = [Fraction(rnd.choice([0, 0, 250, -125, 17])) for _ in range(3)]
            if r > .4:
                far = [Fraction(rnd.choice(["84616.468", "447422.999", "-121000.001", "52.123456", "-4.987654", "0", "179.999999"])) for _ in range(3)]
            self.unit_ = 2 / base
        assert self.unit_ * base in (2, 8)
        self.scale = [float(base * m) for m in mul]
        self.trans = [float(base * o + f) for o, f in zip(off, far)]
        self.grid = [(int(base * m * self.unit_), int(base * o * self.unit_)) for m, o in zip(mul, off)]
        self.unit, self.far = float(self.unit_), [float(f) for f in far]

    def model(self, d, v):
        """model coordinate of an integer vertex coordinate"""
        return v * self.grid[d][0] + self.grid[d][1]

    def _feature(self, i, dup_ids, multi, empties):
        rnd = self.rnd
        fid = "f%d" % (rnd.randrange(max(1, (i + 1) // 2)) if dup_ids else i)
        nv = rnd.choice([1, 2, 3, 4])
        cx, cy = rnd.randint(-self.spread, self.spread), rnd.randint(-self.spread, self.spread)
        w = rnd.choice([0, 1, 2, self.spread // 2])
        verts = [[cx + rnd.randint(-w, w), cy + rnd.randint(-w, w), rnd.randint(-3, 3)] for _ in range(nv)]
        objs, a = {}, {}
        for k in range(rnd.choice([1, 1, 2, 3]) if multi else 1):
            attrs = {}
            names = self.cols if not self.wide else sorted(set(self.often) | set(rnd.sample(list(self.cols), 4)))
            for nm in names:
                ct = self.cols[nm][1]
                r = rnd.random()
                if r < .75:
                    v = rnd.choice(self.pools[nm])
                    attrs[nm] = v
                    a.setdefault(nm, []).append(key(COLKEY[ct], v))
                elif r < .82:
                    attrs[nm] = None
            o = {"type": rnd.choice(TYPES)}
            if attrs:
                o["attributes"] = attrs
            if not (empties and rnd.random() < .5):
                o["geometry"] = [{"type": "MultiPoint", "lod": "1", "boundaries": [rnd.randrange(nv)]}]
            objs["%s-o%d" % (fid, k)] = o
        f = {"type": "CityJSONFeature", "id": fid, "CityObjects": objs, "vertices": verts}
        self.facts.append(None)
        self.refact(f, a)
        return f

    def refact(self, f, a=None):
        """states the facts of the feature added last"""
        verts = f["vertices"]
        co = [[self.model(d, v[d]) for d in range(2)] for v in verts]
        box = [min(c[0] for c in co), min(c[1] for c in co), max(c[0] for c in co), max(c[1] for c in co)]
        exp = json.loads(json.dumps(f))
        for o in exp["CityObjects"].values():
            for nm in list(o.get("attributes", {})):
                if o["attributes"][nm] is None:
                    del o["attributes"][nm]
                elif self.cols[nm][1] == "Float":
                    o["attributes"][nm] = f32(o["attributes"][nm])
        self.facts[-1] = {"id": f["id"], "h": digest(exp), "b": box, "a": self.facts[-1]["a"] if a is None else a}

    def write_job(self, **k):
        cj = {"type": "CityJSON", "version": "2.0", "transform": {"scale": self.scale, "translate": self.trans},
              "CityObjects": {}, "vertices": []}
        w = dict(cj=cj, features=self.features,
                 opts=dict(write_index=self.index, attr=self.attr or None, feature_count=self.said),
                 schema={nm: [i, ct] for nm, (i, ct) in self.cols.items()} or None, sem=None)
        w.update(k)
        return w

    def indexed(self):
        return {nm: COLKEY[self.cols[nm][1]] for nm, _ in self.attr}

    # ---- queries: (selection for the harness, query for TLC)
    def num(self, d, c):
        return float(c / self.unit_) + self.far[d] if self.exact else float(c / self.unit_ + Fraction(repr(self.far[d])))

    def coord(self, axis):
        """a spec coordinate near the data; with inexact scales never on the grid"""
        rnd = self.rnd
        if self.facts and rnd.random() < .7:
            b = rnd.choice(self.facts)["b"]
            c = b[rnd.choice([axis, axis + 2])] + rnd.choice([0, 0, 0, 1, -1, 2, -2])
        else:
            r = self.spread * (16 if self.exact else 4)
            c = rnd.randint(-r, r)
        if not self.exact and c % 2 == 0:
            c += 1
        return c

    def q_bbox(self):
        rnd = self.rnd
        x = sorted([self.coord(0), self.coord(0)])
        y = sorted([self.coord(1), self.coord(1)])
        if rnd.random() < .15:
            x[1] = x[0]
        if rnd.random() < .15:
            y[1] = y[0]
        if rnd.random() < .1:
            big = 100000
            x, y = [-big - 1, big + 1], [-big - 1, big + 1]
        b = [x[0], y[0], x[1], y[1]]
        return {"q": ["bbox"] + [self.num(i % 2, c) for i, c in enumerate(b)]}, {"k": "bbox", "b": b}

    def q_point(self, kind):
        p = [self.coord(0), self.coord(1)]
        if kind == "nearest" and self.rnd.random() < .3:
            p = [self.rnd.randint(-3000, 3000) | (0 if self.exact else 1) for _ in range(2)]
        return ({"q": [kind] + [self.num(i, c) for i, c in enumerate(p)]}, {"k": "near" if kind == "nearest" else "point", "p": p})

    def cond(self, nm=None):
        rnd = self.rnd
        names = [nm] if nm else [n for n, _ in self.attr]
        nm = rnd.choice(names)
        ct = self.cols[nm][1]
        pool = self.pools[nm]
        v = rnd.choice(pool) if rnd.random() < .75 else rnd.choice(value_pool(rnd, ct, 6))
        op = rnd.choice(["eq", "ne", "lt", "le", "gt", "ge"])
        kt = COLKEY[ct]
        return [nm, op, kt, v], {"n": nm, "op": op, "t": kt, "v": key(kt, v)}

    def q_attr(self, n=1):
        cs = [self.cond() for _ in range(n)]
        return {"attr": [c[0] for c in cs]}, {"k": "attr", "c": [c[1] for c in cs]}

    def q_all(self):
        return {}, {"k": "all"}


# ---------------------------------------------------------------- observations -> traces
def read_events(job_read, tq, ob, canfail=False, dead=False, early=False, fault=False, length=None):
    """events of one read session for FcbTrace.  canfail: the file is cut or damaged, errors are to be expected;
    fault: errors are legitimate once the environment has really failed (the harness counts)"""
    ev = []
    mode = job_read["mode"]
    if "crash" in ob:
        return [{"ev": "crash"}]
    op = ob.get("open")
    if op != "ok":
        if op is None:
            return [{"ev": "panic"}]
        cf = canfail or (fault and op.get("hit", 0) > 0)
        return [{"ev": "open", "mode": mode, "canfail": cf, "dead": dead, "ok": False}, {"ev": "stop", "early": False}]
    ev.append({"ev": "open", "mode": mode, "canfail": canfail, "dead": dead, "ok": True})
    s = ob.get("select")
    if s is None:
        return ev + [{"ev": "panic"}]
    if s != "ok":
        if fault and s.get("hit", 0) > 0:
            ev.append({"ev": "fault"})
        return ev + [{"ev": "select", "q": tq, "ok": False, "n": -1}, {"ev": "stop", "early": False}]
    n = ob.get("count")
    ev.append({"ev": "select", "q": tq, "ok": True, "n": -1 if n is None else n})
    ends = []
    for e in ob["events"]:
        if e[0] == "f":
            if isinstance(e[1], str):
                ev.append({"ev": "f", "id": e[1], "h": ""})
            else:
                d = e[1]
                ev.append({"ev": "f", "id": d.get("id", "?"), "h": digest(d)})
        elif e[0] == "hint":
            ev.append({"ev": "hint", "lo": e[1], "hi": -1 if e[2] is None else min(e[2], 2**31 - 1)})
        elif e[0] == "end":
            ends.append(e[1])
            ev.append({"ev": "end"})
        elif e[0] == "err":
            if fault and e[2] > 0:
                ev.append({"ev": "fault"})
            ev.append({"ev": "err"})
            break   # what a caller sees who goes on after an error is not specified
        else:
            ev.append({"ev": e[0]})
    ev = merged(ev)
    if len(ends) > 1:
        ev.append({"ev": "idle", "reads": ends[-1] - ends[0]})
    if mode in ("http", "browser") and length is not None and not canfail:
        rs = [[min(a, 2**31 - 1), min(b, 2**31 - 1)] for a, b, _ in ob.get("log", [])]
        ev.append({"ev": "reqs", "r": rs, "len": length})
    ev.append({"ev": "stop", "early": early})
    return ev


def merged(ev, run=60):
    """long runs of steps as single events"""
    out, i = [], 0
    while i < len(ev):
        j = i
        while j < len(ev) and ev[j]["ev"] == "f":
            j += 1
        if j - i >= run:
            out.append({"ev": "many", "ids": [e["id"] for e in ev[i:j]], "hs": [e["h"] for e in ev[i:j]]})
            i = j
        elif j > i:
            out += ev[i:j]
            i = j
        else:
            out.append(ev[i])
            i += 1
    return out


def file_event(d, order, said):
    return {"ev": "file", "feats": d.facts, "index": d.index, "cols": d.indexed(), "order": order,
            "said": said if said is not None else -1}


def order_of(d, events):
    """positions in the list of added features of what the reference read delivered"""
    left = {}
    for i, f in enumerate(d.facts):
        left.setdefault((f["id"], f["h"]), []).append(i + 1)
    r = []
    for e in events:
        if e[0] == "f":
            k = (e[1].get("id"), digest(e[1]))
            c = left.get(k)
            r.append(c.pop(0) if c else 0)
    return r
