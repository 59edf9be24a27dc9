"""Random CityJSON documents: geometries with semantics, materials and textures; headers; city objects."""
from data import text


def word(rnd, *usual):
    """a name or text: mostly one of the usual ones"""
    return rnd.choice(usual) if rnd.random() < .7 else text(rnd)


def words(rnd, n, *usual):
    """n different ones"""
    r = []
    while len(r) < n:
        w = word(rnd, *usual)
        if w in r:
            w = w + "%d" % len(r)
        r.append(w)
    return r


SOLID_TYPES = ("MultiSurface", "CompositeSurface", "Solid", "MultiSolid", "CompositeSolid")
TYPES = ("MultiPoint", "MultiLineString") + SOLID_TYPES
DEPTH = {"MultiPoint": 1, "MultiLineString": 2, "MultiSurface": 3, "CompositeSurface": 3, "Solid": 4,
         "MultiSolid": 5, "CompositeSolid": 5}
SEM_DEPTH = {"MultiPoint": 0, "MultiLineString": 0, "MultiSurface": 0, "CompositeSurface": 0, "Solid": 1,
             "MultiSolid": 2, "CompositeSolid": 2}
SURFACES = ["RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface", "OuterFloorSurface",
            "Window", "Door", "InteriorWallSurface", "CeilingSurface", "FloorSurface", "WaterSurface",
            "WaterGroundSurface", "WaterClosureSurface", "TrafficArea", "AuxiliaryTrafficArea",
            "TransportationMarking", "TransportationHole", "+Ext", "+PVPanel"]
OBJECTS = ["Building", "BuildingPart", "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture",
           "BuildingStorey", "BuildingRoom", "BuildingUnit", "Bridge", "BridgePart", "BridgeInstallation",
           "BridgeConstructiveElement", "BridgeRoom", "BridgeFurniture", "CityFurniture", "CityObjectGroup",
           "GenericCityObject", "LandUse", "OtherConstruction", "PlantCover", "SolitaryVegetationObject", "TINRelief",
           "Road", "Railway", "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation",
           "TunnelConstructiveElement", "TunnelHollowSpace", "TunnelFurniture", "WaterBody", "+Foo", "+GenericThing"]


def sizes(rnd, wide):
    """how many elements a level has; single-element levels are common"""
    return rnd.choice([1, 1, 2, 3] if not wide else [1, 2, 3, 5, 9])


def boundaries(rnd, depth, nv, wide=False):
    if depth == 1:
        return [rnd.randrange(nv) for _ in range(rnd.randint(1, 5))]
    return [boundaries(rnd, depth - 1, nv, wide) for _ in range(sizes(rnd, wide))]


def shaped(b, depth, leaf):
    """an array of b's shape down to `depth`, with leaf(element) at the bottom"""
    return [leaf(x) for x in b] if depth == 0 else [shaped(x, depth - 1, leaf) for x in b]


def semantics(rnd, b, t):
    ns = rnd.randint(1, 4)

    def surface():
        d = {"type": rnd.choice(SURFACES) if rnd.random() < .95 else "+" + text(rnd)}
        if rnd.random() < .4:
            d["parent"] = rnd.randrange(ns)
        if rnd.random() < .4:
            d["children"] = [rnd.randrange(ns) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < .4:
            d["sa"] = rnd.choice([0, 9, -3, 70000])
        if rnd.random() < .3:
            d["sb"] = word(rnd, "", "x", "zzz", "é")
        if rnd.random() < .2:
            d["sc"] = rnd.choice([True, False])
        return d
    p = rnd.choice([0, .3, .9])
    return {"surfaces": [surface() for _ in range(ns)],
            "values": shaped(b, SEM_DEPTH[t], lambda _: None if rnd.random() < p else rnd.randrange(ns))}


def materials(rnd, b, t):
    m = {}
    for th in words(rnd, rnd.randint(1, 3), "a", "b", "theme", "visual"):
        p = rnd.choice([0, .3, .9])
        m[th] = ({"value": rnd.randrange(3)} if rnd.random() < .3 else
                 {"values": shaped(b, SEM_DEPTH[t], lambda _: None if rnd.random() < p else rnd.randrange(3))})
    return m


def textures(rnd, b, t):
    m = {}
    for th in words(rnd, rnd.randint(1, 3), "a", "b", "theme", "winter"):
        p = rnd.choice([0, .3, .9])
        m[th] = {"values": shaped(b, SEM_DEPTH[t] + 1,
                                  lambda r: [None] if rnd.random() < p
                                  else [rnd.randrange(2)] + [rnd.randrange(5) for _ in r])}
    return m


def number(rnd):
    """a number of up to fifteen digits"""
    return rnd.choice([0.0, 1.0, -1.0, rnd.randint(-400, 400) / 8, float("%.15g" % rnd.uniform(-10, 10)), float("%.3f" % rnd.uniform(-1e6, 1e6)),
                       rnd.randint(1, 10**15) * 10.0**-9 if rnd.random() < .2 else 0.1, 1e300, 1e-7, 1e22, float(2**53)])


def geometry(rnd, nv, t=None, wide=False, sem=.5, mat=.4, tex=.4):
    t = t or rnd.choice(TYPES)
    b = boundaries(rnd, DEPTH[t], nv, wide)
    g = {"type": t, "lod": word(rnd, "0", "1", "2", "2.2", "1.3", "3", "1.0", "2.20", "02"), "boundaries": b}
    if rnd.random() < sem:
        g["semantics"] = semantics(rnd, b, t)
    if t in SOLID_TYPES:
        if rnd.random() < mat:
            g["material"] = materials(rnd, b, t)
        if rnd.random() < tex:
            g["texture"] = textures(rnd, b, t)
    return g


def vertices(rnd, lo=4, hi=9, span=50):
    return [[rnd.randint(-span, span) for _ in range(3)] for _ in range(rnd.randint(lo, hi))]


def matrix(rnd):
    return [rnd.choice([1.0, 0.0, -2.5, number(rnd)]) for _ in range(12)] + rnd.choice([[0.0, 0.0, 0.0, 1.0], [number(rnd) for _ in range(4)]])


def instance(rnd, nv, templates=3):
    return {"type": "GeometryInstance", "template": rnd.randrange(templates), "boundaries": [rnd.randrange(nv)],
            "transformationMatrix": matrix(rnd)}


def appearance(rnd):
    a = {}
    unit = lambda n: [rnd.choice([rnd.randint(0, 8) / 8, rnd.randint(0, 255) / 1000, 0.1]) for _ in range(n)]
    if rnd.random() < .8:
        a["materials"] = ms = []
        for i in range(rnd.randint(1, 3)):
            m = {"name": word(rnd, "m%d" % i)}
            if rnd.random() < .5:
                m["ambientIntensity"] = rnd.randint(0, 8) / 8
            for k in ("diffuseColor", "emissiveColor", "specularColor"):
                if rnd.random() < .5:
                    m[k] = unit(3)
            for k in ("shininess", "transparency"):
                if rnd.random() < .5:
                    m[k] = rnd.choice([0.0, 1.0, 0.25, 0.1])
            if rnd.random() < .5:
                m["isSmooth"] = rnd.random() < .5
            ms.append(m)
    if rnd.random() < .8:
        a["textures"] = ts = []
        for i in range(rnd.randint(1, 3)):
            t = {"type": rnd.choice(["PNG", "JPG"]), "image": word(rnd, "http://x/%d.png" % i)}
            if rnd.random() < .6:
                t["wrapMode"] = rnd.choice(["none", "wrap", "mirror", "clamp", "border"])
            if rnd.random() < .6:
                t["textureType"] = rnd.choice(["unknown", "specific", "typical"])
            if rnd.random() < .6:
                t["borderColor"] = unit(4)
            ts.append(t)
    if rnd.random() < .8:
        a["vertices-texture"] = [unit(2) for _ in range(rnd.randint(1, 5))]
    if rnd.random() < .4:
        a["default-theme-texture"] = word(rnd, "tt", "winter")
    if rnd.random() < .4:
        a["default-theme-material"] = word(rnd, "mm", "visual")
    return a


def templates(rnd):
    nv = rnd.randint(3, 7)
    g = [geometry(rnd, nv, sem=0) for _ in range(rnd.randint(1, 4))]
    return {"templates": g, "vertices-templates": [[rnd.choice([rnd.randint(-40, 40) / 8, 0.1, 1e6, -3.3, number(rnd)])
                                                    for _ in range(3)] for _ in range(nv)]}


def transform(rnd):
    return {"scale": [rnd.choice([1.0, 0.001, 0.5, 0.01, 1e-7, 1e-9, 0.00042, 100.0]) for _ in range(3)],
            "translate": [rnd.choice([0.0, -100.5, 1e5, 0.1, 84616.468, 447422.999, -1.234567890123, 1e9]) for _ in range(3)]}


def metadata(rnd):
    m = {}
    if rnd.random() < .6:
        m["geographicalExtent"] = [number(rnd) for _ in range(6)]
    if rnd.random() < .6:
        m["identifier"] = word(rnd, "id-é-1", "x", "urn:a:b")
    if rnd.random() < .6:
        p = {"contactName": word(rnd, "n"), "emailAddress": word(rnd, "a@b")}
        for k in ("contactType", "role", "phone", "website"):
            if rnd.random() < .5:
                p[k] = word(rnd, k + "v")
        if rnd.random() < .5:
            p["address"] = {"thoroughfareNumber": rnd.choice([0, 1, 99, -1, 255, 256, 65536, 2**31, 2**53, -2**40]), "thoroughfareName": word(rnd, "st"), "locality": word(rnd, "L"),
                            "postalCode": word(rnd, "p"), "country": word(rnd, "c")}
        m["pointOfContact"] = p
    if rnd.random() < .6:
        m["referenceDate"] = word(rnd, "2020-01-01", "1999-12-31", "2020-01-01T00:00:00Z")
    if rnd.random() < .6:
        m["referenceSystem"] = "https://www.opengis.net/def/crs/%s/%d/%d" % (
            rnd.choice(["EPSG", "OGC", "epsg", "IGNF"]), rnd.choice([0, 1, 2020, 300, -1]), rnd.choice([7415, 28992, 4326, 1, 0, 900913, 2**31 - 1]))
    if rnd.random() < .6:
        m["title"] = word(rnd, "T", "Ünïcode title", "a b")
    return m


def header(rnd, tpl=.5, app=.5):
    d = {"type": "CityJSON", "version": "2.0", "transform": transform(rnd), "CityObjects": {}, "vertices": []}
    m = metadata(rnd)
    if m:
        d["metadata"] = m
    if rnd.random() < app:
        a = appearance(rnd)
        if a:
            d["appearance"] = a
    if rnd.random() < tpl:
        d["geometry-templates"] = templates(rnd)
    return d


def attributes(rnd):
    pool = {"i": lambda: rnd.choice([0, 1, -1, 255, 256, 65535, 70000, -70000, 2**31, 2**53, -2**63, 2**63 - 1]), "f": lambda: rnd.choice([0.5, -1.25, 0.1, 1e300, float("%.15g" % rnd.random())]),
            "s": lambda: word(rnd, "", "a", "é", "long " * 20, *(["é" * 33000, "x" * 65535, "y" * 65536] if rnd.random() < .05 else [])), "b": lambda: rnd.random() < .5,
            "j": lambda: rnd.choice([[1, "a", None], {"k": {"l": [1, 2]}}, [], {}])}
    return {k: pool[k]() for k in rnd.sample(sorted(pool), rnd.randint(0, 5))}


def feature(rnd, fid, rich=True, tpl=True, span=50):
    """a feature with a small hierarchy of objects"""
    v = vertices(rnd, span=span)
    many = rnd.random()
    if many < .04:          # indices that do not fit a byte, or two
        v += [[rnd.randint(-span, span) for _ in range(3)] for _ in range(300 if many < .03 else 70000)]
    n = rnd.choice([1, 1, 2, 3, 4]) if rich else 1
    ids = [word(rnd, "%s/%d" % (fid, i)) if i else fid for i in range(n)]
    if len(set(ids)) < n:
        ids = ["%s/%d" % (fid, i) if i else fid for i in range(n)]
    objs = {}
    for i, oid in enumerate(ids):
        o = {"type": rnd.choice(OBJECTS) if rnd.random() < .95 else "+" + text(rnd)}
        gs = [geometry(rnd, len(v)) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
        if tpl:
            gs += [instance(rnd, len(v)) for _ in range(rnd.choice([0, 0, 1, 2]))]
        if gs:
            o["geometry"] = gs
        if rnd.random() < .7:
            a = attributes(rnd)
            if a:
                o["attributes"] = a
        if rnd.random() < .3:
            o["geographicalExtent"] = [number(rnd) for _ in range(6)]
        if n > 1:
            if i == 0:
                o["children"] = ids[1:]
                if o["type"] == "CityObjectGroup" and rnd.random() < .6:
                    o["children_roles"] = [word(rnd, "role%d" % k) for k in range(n - 1)]
            else:
                o["parents"] = [ids[0]]
        objs[oid] = o
    f = {"type": "CityJSONFeature", "id": fid, "CityObjects": objs, "vertices": v}
    if rnd.random() < .3:
        a = appearance(rnd)
        if a:
            f["appearance"] = a
    return f
