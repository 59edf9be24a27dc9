"""F19: the command line tool (spec/Cli.tla)."""
import copy
import json
import os
import re
import shutil
import struct
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import build
import docs
import run
import tlc
from data import COLKEY, canon, digest

UNIT = 8
DATES = ["2020-01-01T00:00:00Z", "1969-07-20T20:17:40Z", "2099-12-31T23:59:59Z"]


def grid(xs):
    """an extent: six numbers on the grid, or one text"""
    if xs is None:
        return []
    ys = [x * UNIT for x in xs]
    if all(y == int(y) and abs(y) < 2**31 for y in ys):
        return [int(y) for y in ys]
    return ["".join(struct.pack("<d", float(x)).hex() for x in xs)]


def split(h):
    """digest of a header without its extent, and the extent"""
    h = copy.deepcopy(h)
    m = h.get("metadata") or {}
    e = m.pop("geographicalExtent", None)
    if not m:
        h.pop("metadata", None)
    return digest(h), grid(e)


def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, float)):
        return "num"
    if isinstance(v, str):
        return "date" if v in DATES else "text"
    return "struct"


def values(rnd, k):
    return {"i": lambda: rnd.choice([0, 1, -1, 255, 70000, -70000]), "n": lambda: rnd.choice([0, 7, 300]),
            "f": lambda: rnd.choice([0.5, -1.25, 0.1, 1e300, 3]),
            "s": lambda: rnd.choice(["", "a", "é", "long " * 9]), "b": lambda: rnd.random() < .5,
            "d": lambda: rnd.choice(DATES), "t": lambda: rnd.choice(DATES + ["x", ""]),
            "m": lambda: rnd.choice([1, "x", True, 0.5]), "j": lambda: rnd.choice([[1, "a"], {"k": {"l": [1, 2]}}, [], {}]),
            "x y": lambda: rnd.choice([1, 2])}[k]()


NAMES = ["i", "n", "f", "s", "b", "d", "t", "m", "j", "x y"]


class World:
    def __init__(self, rnd, n, rich=True, late=False):
        self.rnd = rnd
        self.heavy = rnd.choice([0, 0, 0, 0, 0, .5]) if n < 30 else 0
        h = docs.header(rnd, tpl=.3, app=.3)
        h["transform"] = {"scale": [rnd.choice([1.0, 0.5, 0.25, 2.0]) for _ in range(3)],
                          "translate": [rnd.choice([0.0, 0.125, -7.5, 1000.0, -31.0]) for _ in range(3)]}
        if "geometry-templates" in h and rnd.random() < .6:
            g = rnd.choice(h["geometry-templates"]["templates"])
            g["semantics"] = docs.semantics(rnd, g["boundaries"], g["type"])
        self.h = h
        self.names = rnd.sample(NAMES, rnd.choice([0, 1, 3, 5]))
        self.features = [self.feature(i, rich, late and i < n - 1) for i in range(n)]
        if n > 2 and rnd.random() < .2:
            self.features[-1] = self.features[0]        # the same feature twice
        self.facts = {digest(f): self.fact(f) for f in self.features}

    def feature(self, i, rich, plain):
        rnd = self.rnd
        if rich:
            f = docs.feature(rnd, "f%d" % i, tpl="geometry-templates" in self.h, span=rnd.choice([2, 10]))
        else:
            f = {"type": "CityJSONFeature", "id": "f%d" % i, "CityObjects": {"f%d" % i: {"type": "Building"}},
                 "vertices": [[rnd.randint(-9, 9) for _ in range(3)]]}
        if rnd.random() < self.heavy:       # many vertices, those at the edge anywhere among them
            f["vertices"] += [[rnd.randint(-9, 9) for _ in range(3)] for _ in range(rnd.choice([300, 1100, 5000]))]
            for _ in range(rnd.choice([1, 3])):
                f["vertices"][rnd.choice([-1, -1, rnd.randrange(len(f["vertices"]))])] = [rnd.randint(-60, 60) for _ in range(3)]
        shift = [rnd.randint(-12, 12) for _ in range(3)]
        f["vertices"] = [[a + b for a, b in zip(v, shift)] for v in f["vertices"]]
        for o in f["CityObjects"].values():
            o.pop("attributes", None)
            if plain:
                continue
            a = {k: values(rnd, k) for k in self.names if rnd.random() < .7}
            if a:
                o["attributes"] = a
        return f

    def fact(self, f):
        t = self.h["transform"]
        v = [[int((x * s + o) * UNIT) for x, s, o in zip(p, t["scale"], t["translate"])] for p in f["vertices"]]
        a = {}
        for o in f["CityObjects"].values():
            for k, x in o.get("attributes", {}).items():
                a.setdefault(k, []).append([kind(x), digest({"v": x})])
        xs, ys = [p[0] for p in v], [p[1] for p in v]
        return {"v": v, "a": a, "b": [min(xs), min(ys), max(xs), max(ys)]}

    def text(self):
        h, e = split(self.h)
        return {"k": "text", "h": h, "ext": e, "fs": [digest(f) for f in self.features]}

    def lines(self):
        return [json.dumps(d, ensure_ascii=self.rnd.random() < .5) for d in [self.h] + self.features]

    def box(self):
        """a box whose sides touch, hold or miss vertices"""
        rnd = self.rnd
        vs = [p for f in self.facts.values() for p in f["v"]] or [[0, 0, 0]]
        r = rnd.random()
        if r < .07:
            return rnd.choice([[1, 2, 3], [5, 0, 4, 9], [0, 5, 9, 4], ["x"], [], [0, 0, 1, 1, 1]]) or [""]
        if r < .15:
            return [-99999, -99999, 99999, 99999]
        p, q = rnd.choice(vs), rnd.choice(vs)
        j = lambda: rnd.choice([0, 0, 1, -1, 3])
        x, y = sorted([p[0] + j(), q[0] + j()]), sorted([p[1] + j(), q[1] + j()])
        return [x[0], y[0], x[1], y[1]]


class Chain:
    """a sequence of runs in a directory of its own"""

    def __init__(self, rnd, n, rich=True, late=False, runs=6):
        self.rnd, self.w, self.runs = rnd, World(rnd, n, rich, late), runs
        self.d = tempfile.mkdtemp(dir=run.scratch())
        self.trace, self.cmds, self.queries = [], [], []
        self.kinds = {}
        t = self.w.lines()
        nl = rnd.choice(["\n", "\r\n"])
        self.put("t", (nl.join(t) + rnd.choice(["", nl])).encode())
        self.put("empty", b"")
        bad = list(t)
        bad[rnd.randrange(len(bad))] = rnd.choice(["{", "null", t[0][:len(t[0]) // 2], '{"type": "CityJSONFeature"}'])
        self.put("bad", "\n".join(bad).encode())
        self.put("noise", bytes(rnd.randrange(256) for _ in range(300)))
        os.mkdir(self.path("dir"))
        paths = {"t": self.w.text()}
        for k in ("empty", "bad", "noise", "dir"):
            paths[k] = {"k": "junk"}
        self.kinds = {k: v["k"] for k, v in paths.items()}
        self.trace.append({"ev": "setup", "world": self.w.facts, "paths": paths})
        self.cmds.append("setup")
        self.seen = {}

    def path(self, p):
        return {"full": "/dev/full", "nowhere": self.d + "/no/such/dir/x"}.get(p, os.path.join(self.d, p))

    def put(self, p, b):
        with open(self.path(p), "wb") as f:
            f.write(b)

    def call(self, sub, i, o, opts=()):
        rnd = self.rnd
        args, kw = [build.CLI, sub] + list(opts), {"stdin": subprocess.DEVNULL}
        fi = fo = None
        if sub != "info" and os.path.isfile(self.path(i)) and rnd.random() < .25:
            args += ["-i", "-"]
            fi = kw["stdin"] = open(self.path(i), "rb")
        else:
            args += ["-i", self.path(i)]
        if o is not None:
            if o not in ("nowhere", "dir") and rnd.random() < .25:
                args += ["-o", "-"]
                fo = kw["stdout"] = open(self.path(o), "wb")
            else:
                args += ["-o", self.path(o)]
        if fo is None:
            kw["stdout"] = subprocess.PIPE
        p = subprocess.run(args, stderr=subprocess.PIPE, timeout=300, cwd=self.d, env={"PATH": "/usr/bin"}, **kw)
        for f in (fi, fo):
            if f:
                f.close()
        self.cmds.append({"args": [str(a)[:200] for a in args], "in": i, "out": o, "rc": p.returncode,
                          "stderr": p.stderr.decode(errors="replace")[-400:]})
        return p.returncode == 0, p.stdout or b""

    def ser(self, i, o):
        rnd = self.rnd
        e = {"ev": "ser", "in": i, "out": o, "box": [], "attrs": [], "all": False, "spatial": True, "ge": True}
        opts = []
        if rnd.random() < .4:
            e["box"] = self.w.box()
            num = lambda x: x if isinstance(x, str) else repr(x / UNIT) if rnd.random() < .8 else " " + repr(x / UNIT)
            opts.append("--bbox=" + ",".join(num(x) for x in e["box"]))
        if rnd.random() < .5:
            e["attrs"] = rnd.sample(NAMES + ["nosuch"], rnd.choice([0, 1, 3]))
            opts += [rnd.choice(["-a", "--attr-index"]), rnd.choice([",", ", "]).join(e["attrs"])]
        if rnd.random() < .3:
            e["all"] = rnd.random() < .7
            opts += ["-A", json.dumps(e["all"])]
        if rnd.random() < .3:
            e["spatial"] = rnd.random() < .3
            opts += ["-s", json.dumps(e["spatial"])]
        if rnd.random() < .4:
            e["ge"] = rnd.random() < .2
            opts += ["-g", json.dumps(e["ge"])]
        if rnd.random() < .4:
            opts += ["--attr-branching-factor", str(rnd.choice([2, 3, 16, 256, 65535]))]
        e["ok"], _ = self.call("ser", i, o, opts)
        self.note(e, o, "fcb")
        if e["ok"] and o in ("a", "b"):
            s = os.path.join(self.d, "saved%d" % len(self.trace))
            shutil.copyfile(self.path(o), s)
            self.queries.append((len(self.trace), o, s))

    def deser(self, i, o):
        e = {"ev": "deser", "in": i, "out": o}
        e["ok"], _ = self.call("deser", i, o)
        if e["ok"]:
            ds = []
            for x in open(self.path(o), "rb").read().split(b"\n")[:-1]:
                try:
                    ds.append(json.loads(x))
                except ValueError:
                    ds.append({"bad": x.decode(errors="replace")[:80]})
            h, ext = split(ds[0]) if ds else ("", [])
            e["text"] = {"k": "text", "h": h, "ext": ext, "fs": [digest(x) for x in ds[1:]]}
        self.note(e, o, "text")

    def info(self, i):
        e = {"ev": "info", "in": i, "count": -1, "ix": []}
        e["ok"], out = self.call("info", i, None)
        if e["ok"]:
            out = out.decode()
            m, a = re.search(r"Features count: (\d+)", out), re.search(r"attr_index: \[(.*)\]", out)
            e["count"] = int(m.group(1)) if m else -2
            e["ix"] = re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1)) if a else ["?"]
        self.trace.append(e)

    def note(self, e, o, k):
        self.trace.append(e)
        if o not in ("full", "nowhere", "dir"):
            self.kinds[o] = k if e["ok"] else "any"

    def cut(self, i):
        b = open(self.path(i), "rb").read()
        n = self.rnd.choice([len(b) - 1, self.rnd.randrange(len(b)), len(b) - self.rnd.randint(1, min(100, len(b)))])
        self.put("cut", b[:n])
        self.kinds["cut"] = "cut"
        self.trace.append({"ev": "cut", "in": i, "out": "cut"})
        self.cmds.append({"cut": i, "bytes": n, "of": len(b)})

    def go(self):
        rnd = self.rnd
        self.ser("t", "a")
        while len(self.trace) < self.runs:
            by = lambda *k: [p for p, x in sorted(self.kinds.items()) if x in k]
            out = lambda i: rnd.choice([p for p in ("a", "b", "c") if p != i] * 4 + ["full", "nowhere"])
            r = rnd.random()
            if r < .12:                                             # anything on anything, except what a failed run left
                i = rnd.choice([p for p, k in sorted(self.kinds.items()) if k != "any"] + ["missing"])
                rnd.choice([lambda: self.ser(i, out(i)), lambda: self.deser(i, out(i)), lambda: self.info(i)])()
            elif r < .4 and by("text"):
                i = rnd.choice(by("text"))
                self.ser(i, out(i))
            elif r < .75 and by("fcb"):
                i = rnd.choice(by("fcb"))
                self.deser(i, out(i))
            elif r < .92 and by("fcb"):
                self.info(rnd.choice(by("fcb")))
            elif by("fcb"):
                self.cut(rnd.choice(by("fcb")))
                rnd.choice([lambda: self.deser("cut", "c"), lambda: self.deser("cut", "c"), lambda: self.info("cut"),
                            lambda: self.ser("cut", "c")])()
        return self


def add_queries(chains):
    """readers on the files that came out; the events go right behind the run that made the file"""
    work = [(k, at, o, s) for k in chains for at, o, s in k.queries]
    hdrs = run.run_jobs([{"op": "session", "path": s, "reads": [{"mode": "seek", "sel": {}, "want": "id", "hdr": True, "max": 0}]}
                         for _, _, _, s in work])
    jobs, plan = [], []
    for (k, at, o, s), ob in zip(work, hdrs):
        rnd, r = k.rnd, (ob.get("reads") or [{}])[0]
        cols = {x[1]: x[2] for x in ((r.get("hdr") or {}).get("columns") or [])}
        reads, qs = [], []
        for _ in range(3):
            mode = rnd.choice(["seek", "seq", "http"])
            if rnd.random() < .4 or not cols:
                b = k.w.box()
                if len(b) != 4 or b[0] > b[2] or b[1] > b[3]:
                    continue
                qs.append({"k": "bbox", "b": b})
                sel = {"q": ["bbox"] + [x / UNIT for x in b]}
            else:
                n = rnd.choice(sorted(cols))
                kt = COLKEY.get(cols[n])
                if kt is None:
                    continue
                v = values(rnd, n)
                if kind(v) in ("num", "bool") and kt in ("s50", "dt") or isinstance(v, str) and kt not in ("s50", "dt") \
                        or isinstance(v, bool) != (kt == "bool") or kt == "dt" and v not in DATES \
                        or isinstance(v, float) and kt not in ("f64", "f32") or kt == "u64" and v < 0:
                    continue
                qs.append({"k": "eq", "n": n, "v": digest({"v": v})})
                sel = {"attr": [[n, "eq", kt, v]]}
            reads.append({"mode": mode, "sel": sel, "want": "full"})
        if reads:
            jobs.append({"op": "session", "path": s, "reads": reads})
            plan.append((k, at, o, qs))
    extra = {}
    for (k, at, o, qs), ob in zip(plan, run.run_jobs(jobs)):
        for q, r in zip(qs, ob.get("reads") or []):
            ok = r.get("select") == "ok"
            ev = r.get("events") or []
            e = {"ev": "query", "in": o, "q": q, "ok": ok, "res": [digest(x[1]) for x in ev if x[0] == "f"]}
            if any(x[0] in ("err", "panic") for x in ev) or ok and not any(x[0] == "end" for x in ev):
                e["ev"] = "broken"
            extra.setdefault(id(k), []).append((at, e, {"query": q, "observed": {x: r[x] for x in r if x != "log"}}))
    for k in chains:
        for at, e, cmd in sorted(extra.get(id(k), []), key=lambda x: -x[0]):
            k.trace.insert(at, e)
            k.cmds.insert(at, cmd)


def f19(c):
    c.design("CliMC", "CliMCDeep.cfg" if c.thorough else "CliMC.cfg")
    sizes = [(c.sub("z%d" % i), n, False, True, 5) for i, n in enumerate(c.n([0, 1, 40, 1100], [0, 1, 2, 999, 1000, 1001, 1100, 3000]))]
    for i in range(c.n(150, 2500)):
        rnd = c.sub("c%d" % i)
        sizes.append((rnd, rnd.choice([0, 1, 1, 2, 3, 5, 9, 20]), rnd.random() < .7, rnd.random() < .3, rnd.choice([6, 10])))
    for a in range(0, len(sizes), 500):
        with ThreadPoolExecutor(8) as ex:
            chains = list(ex.map(lambda x: Chain(x[0], x[1], x[2], x[3], x[4]).go(), sizes[a:a + 500]))
        add_queries(chains)
        v = tlc.check_traces("CliTrace", [k.trace for k in chains])
        c.verdict(v, sum(len(k.trace) - 1 for k in chains))
        for i, j in v.rejected:
            k = chains[i]
            c.violation(f"run not as specified: {json.dumps(k.trace[j])[:400]} {json.dumps(k.cmds[j])[:500]}",
                        {"event": k.trace[j], "run": k.cmds[j], "before": k.cmds[1:j], "text": k.w.lines()[:50], "facts": k.w.text()})
        if v.rejected:
            return
        c.sample({"runs": chains[-1].trace[1:5]})
        for k in chains:
            shutil.rmtree(k.d, ignore_errors=True)


CHECKS = {"F19": f19}
