"""F21: the conversion commands (spec/Conv.tla)."""
import copy
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

import build
import docs
import run
import tlc
from data import text


def number(x):
    """(-1)^neg * 0.m * 2^e, m beginning and ending with a one"""
    q = Fraction(x)
    if q == 0:
        return {"neg": False, "e": 0, "m": []}
    n, d = abs(q.numerator), q.denominator
    m = bin(n)[2:]
    return {"neg": q < 0, "e": len(m) - (d.bit_length() - 1), "m": [int(c) for c in m.rstrip("0")]}


def table(x):
    """a document as a table of nodes"""
    out = []

    def add(x):
        n = {"t": "", "n": number(0), "s": [], "kids": [], "keys": []}
        out.append(n)
        me = len(out)
        if isinstance(x, dict):
            n["t"] = "map"
            for k, v in x.items():
                n["keys"].append(list(k.encode()))
                n["kids"].append(add(v))
        elif isinstance(x, list):
            n["t"] = "arr"
            for v in x:
                n["keys"].append([])
                n["kids"].append(add(v))
        elif isinstance(x, bool):
            n["t"] = "true" if x else "false"
        elif x is None:
            n["t"] = "null"
        elif isinstance(x, str):
            n["t"], n["s"] = "text", list(x.encode())
        else:
            n["t"], n["n"] = "num", number(x)
        return me
    add(x)
    return out


def steps(x):
    """items of a document: arrays and objects begin and end"""
    if isinstance(x, (dict, list)):
        return 2 + sum(steps(v) for v in (x.values() if isinstance(x, dict) else x))
    return 1


def plain(x):
    """what BSON can hold"""
    if isinstance(x, dict):
        return all("\x00" not in k and plain(v) for k, v in x.items())
    if isinstance(x, list):
        return all(plain(v) for v in x)
    return isinstance(x, (bool, float, str)) or x is None or -2**63 <= x < 2**63


def city(rnd, n):
    """a CityJSON document"""
    d = docs.header(rnd, tpl=.3, app=.3)
    v = docs.vertices(rnd)
    for i in range(n):
        f = docs.feature(rnd, "f%d" % i)
        d["CityObjects"].update(f["CityObjects"])
        v += f["vertices"] if len(f["vertices"]) < 999 else []
    d["vertices"] = v
    if rnd.random() < .3:
        d["+more"] = any_json(rnd, 2)
    return d


def scalar(rnd):
    return rnd.choice([None, True, False, 0, 1, -1, 23, 24, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1,
                       2**63, 2**64 - 1, -24, -25, -256, -257, -65536, -65537, -2**31, -2**31 - 1, -2**32, -2**32 - 1, -2**63, 0.0, -0.0, 0.5,
                       -1.5, 0.1, 65504.0, 65520.0, 1e300, -1e-300, 5e-324, 2.0**-24, 2.0**-25, 2.0**-149, 3.4e38, 16777217.0, text(rnd), text(rnd),
                       rnd.choice(["x", "é"]) * rnd.choice([23, 24, 255, 256, 65535, 65536]) if rnd.random() < .2 else ""])


def any_json(rnd, depth):
    r = rnd.random()
    if depth == 0 or r < .3:
        return scalar(rnd)
    k = rnd.choice([0, 1, 2, 3, 5]) if rnd.random() < .97 else rnd.choice([23, 24, 255, 256, 300])
    if r < .6:
        return [any_json(rnd, depth - 1 if k < 9 else 0) for _ in range(k)]
    return {text(rnd) + ("%d" % i if rnd.random() < .5 else ""): any_json(rnd, depth - 1 if k < 9 else 0) for i in range(k)}


class Case:
    def __init__(self, rnd):
        self.fmt = rnd.choice(["cbor", "bson"])
        self.kind = rnd.choice(["city"] * 5 + ["json"] * (3 if self.fmt == "cbor" else 1) + ["junk"])
        self.room = rnd.random() < .85
        self.doc = city(rnd, rnd.choice([0, 0, 1, 2])) if self.kind != "json" else any_json(rnd, rnd.choice([0, 1, 2, 3, 4]))
        if self.kind == "json" and isinstance(self.doc, dict):
            self.doc.pop("type", None)
        t = json.dumps(self.doc, ensure_ascii=rnd.random() < .5, indent=rnd.choice([None, None, 1])).encode()
        if self.kind == "junk":
            t = rnd.choice([b"", b" ", t[:rnd.randrange(len(t))], t + b"}", t + t, b"\xff\xfe" + t, b"nul", t.replace(b'"', b"'", 1)])
        elif rnd.random() < .3:
            t = rnd.choice([b"\n", b" \r\n\t"]) + t + b"\n\n"
        self.text, self.into, self.stdin = t, rnd.choice(["file", "stdout"]), rnd.random() < .3
        self.lost = rnd.random() < .1           # the input is not there

    def go(self):
        d = tempfile.mkdtemp(dir=run.scratch())
        try:
            i, o = os.path.join(d, "in"), os.path.join(d, "out")
            with open(i, "wb") as f:
                f.write(self.text)
            args, kw = [build.CLI, self.fmt], {"stdin": subprocess.DEVNULL, "stdout": subprocess.DEVNULL}
            held = []
            lost = self.lost and not self.stdin
            if self.stdin:
                kw["stdin"] = open(i, "rb")
                held.append(kw["stdin"])
            args += ["-i", "-" if self.stdin else d if lost else i]
            to = o if self.room else "/dev/full"
            if self.into == "stdout":
                kw["stdout"] = open(to, "wb")
                held.append(kw["stdout"])
            args += ["-o", "-" if self.into == "stdout" else to]
            p = subprocess.run(args, stderr=subprocess.PIPE, timeout=120, cwd=d, env={"PATH": "/usr/bin"}, **kw)
            for f in held:
                f.close()
            self.seen = {"args": args, "rc": p.returncode, "stderr": p.stderr.decode(errors="replace")[-300:]}
            ok = p.returncode == 0
            e = {"ev": "run", "fmt": self.fmt, "in": "junk" if lost else self.kind, "room": self.room, "ok": ok, "plain": plain(self.doc)}
            tr = [e]
            if ok:
                e["nodes"] = table(self.doc)
                e["bytes"] = list(open(o, "rb").read()) if self.room else []
                tr += [{"ev": "item"}] * steps(self.doc) + [{"ev": "end"}]
            return tr
        finally:
            shutil.rmtree(d, ignore_errors=True)


def f21(c):
    c.design("ConvMC", "ConvMCDeep.cfg" if c.thorough else "ConvMC.cfg", workers=1)
    for a in range(0, c.n(320, 6000), 320):
        cases = [Case(c.sub("c%d" % (a + k))) for k in range(320)]
        with ThreadPoolExecutor(8) as ex:
            traces = list(ex.map(lambda k: k.go(), cases))
        v = tlc.check_traces("ConvTrace", traces)
        c.verdict(v, len(cases))
        for i, j in v.rejected:
            k = cases[i]
            e = {x: y for x, y in traces[i][0].items() if x not in ("nodes", "bytes")}
            c.violation(f"{json.dumps(e)} not as specified at item {j} of {len(traces[i])}: {json.dumps(k.seen)[:300]} {k.text[:200]!r}",
                        {"event": e, "at": j, "run": k.seen, "input": k.text.decode(errors="replace")[:100000],
                         "output": bytes(traces[i][0].get("bytes", []))[:50000].hex()})
        if v.rejected:
            return
        c.sample({"run": {x: y for x, y in traces[0][0].items() if x not in ("nodes", "bytes")}, "input": cases[0].text.decode(errors="replace")[:300]})


CHECKS = {"F21": f21}
