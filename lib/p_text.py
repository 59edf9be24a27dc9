"""F20: CityJSON text sequences through the real reader (spec/TextSeq.tla)."""
import json
import os
import tempfile

import docs
import run
import tlc
from data import digest

LF, CR, BLANK, JUNK = 0, 1, 2, 3


def heads(rnd):
    return [docs.header(rnd), docs.header(rnd)]


def junk(rnd, h, f):
    """contents of a line that are no document of either kind"""
    t = json.dumps(f)
    broken = dict(f)
    broken.pop(rnd.choice(["id", "CityObjects", "vertices"]))
    bad = dict(f, vertices="x")
    hb = dict(h)
    hb.pop(rnd.choice(["version", "CityObjects", "vertices"]))
    c = ["{", "}", "null", "[]", "{}", "0", '"x"', "#", "\ufffd", t[:rnd.randint(1, len(t) - 2)], t + ",", "[" + t + "]", json.dumps(broken),
         json.dumps(bad), json.dumps(hb), t.replace(":", ";", 1), "\x00", "\ufeff" + t]
    return rnd.choice(c).encode()


class Text:
    """symbols and their bytes"""

    def __init__(self, rnd, symbols, ascii_=None):
        self.rnd, self.symbols = rnd, symbols
        hs = heads(rnd)
        self.doc = {}
        out = []
        sep = rnd.choice([(",", ":"), (", ", ": ")])
        for x in symbols:
            if x == LF:
                out.append(b"\n")
            elif x == CR:
                out.append(b"\r")
            elif x == BLANK:
                out.append(rnd.choice([b" ", b"\t", b"  "]))
            elif x == JUNK:
                out.append(b"\xff\xfe" if rnd.random() < .1 else junk(rnd, hs[0], docs.feature(rnd, "j", rich=False)))
            else:
                if x not in self.doc:
                    self.doc[x] = hs[x % 2] if x < 100 else docs.feature(rnd, "f%d" % x, rich=rnd.random() < .3)
                out.append(json.dumps(self.doc[x], separators=sep, ensure_ascii=rnd.random() < .5).encode())
        self.bytes = b"".join(out)
        # headers may be alike: the first number of each digest
        self.num = {}
        for k, d in self.doc.items():
            self.num.setdefault(digest(clean(d)), k)
        self.same = {k: self.num[digest(clean(d))] for k, d in self.doc.items()}

    def job(self, kind="seq", plain=False):
        rnd = self.rnd
        j = {"op": "cjread", "kind": kind, "hex": self.bytes.hex()}
        if not plain:
            j["chunk"] = rnd.choice([0, 1, 2, 7, 64])
            j["cap"] = rnd.choice([1, 3, 8192, 100])
            j["interrupt"] = rnd.choice([0, 0, 0, 3])
        return j

    def event(self, job, ob):
        fault = job.get("fail_at") is not None and job["fail_at"] <= len(self.bytes)
        e = {"ev": "read", "text": [self.same.get(x, x) for x in self.symbols], "kind": job["kind"], "fault": fault,
             "ok": "cj" in ob, "docs": []}
        if "panic" in ob or "crash" in ob:
            e["ev"] = "panic"
        if e["ok"]:
            e["docs"] = [self.num.get(digest(clean(d)), -1) for d in [ob["cj"]] + ob.get("features", [])]
        return e


def clean(d):
    d = dict(d)
    if not d.get("metadata", True):
        del d["metadata"]
    return d


def judge(c, work):
    """work: (Text, job)"""
    res = run.run_jobs([j for _, j in work])
    evs = [t.event(j, o) for (t, j), o in zip(work, res)]
    step = 200
    traces = [evs[a:a + step] for a in range(0, len(evs), step)]
    v = tlc.check_traces("TextSeqTrace", traces)
    c.verdict(v, len(work))
    for i, j in v.rejected:
        t, job = work[i * step + j]
        o = res[i * step + j]
        c.violation(f"text {traces[i][j]['text']} read as {traces[i][j]['docs']} ({str(o)[:200]})",
                    {"event": traces[i][j], "text": t.bytes.decode(errors="replace"), "job": job, "observed": o})
    return evs, not v.rejected


def random_text(rnd):
    n = rnd.choice([0, 1, 2, 5, 20])
    nl = rnd.choice([[LF], [CR, LF]])
    mixed = rnd.random() < .2
    t = [10]
    for i in range(n):
        t += rnd.choice([[LF], [CR, LF]]) if mixed else nl
        t.append(100 + i if rnd.random() < .9 else 100 + rnd.randrange(n))
    if rnd.random() < .6:
        t += nl
    for _ in range(rnd.choice([0, 0, 0, 1, 2])):         # damage
        p = rnd.randrange(len(t) + 1)
        k = rnd.random()
        if k < .3:
            t.insert(p, rnd.choice([LF, CR, BLANK, JUNK]))
        elif k < .5:
            t.insert(p, rnd.choice([10, 11, 100]))
        elif k < .7 and len(t) > 1:
            t.pop(min(p, len(t) - 1))
        elif k < .85 and p < len(t):
            t[p] = JUNK
        else:
            t.insert(p, BLANK)
    return t


def f20(c):
    c.design("TextSeqMC", "TextSeqMCDeep.cfg" if c.thorough else "TextSeqMC.cfg")
    out = os.path.join(tempfile.mkdtemp(dir=run.scratch()), "u")
    tlc.tlc("TextSeqMC", "TextSeqOut.cfg", env={"OUT": out})
    u = [json.loads(x)["t"] for x in open(out)]
    pick = u if c.thorough else [x for x in u if len(x) < 4] + c.rnd.sample([x for x in u if len(x) >= 4 and 10 in x], 1200)
    c.notes["universe"] = {"texts": len(u), "replayed": len(pick)}
    work = []
    for k, s in enumerate(pick):
        t = Text(c.sub(f"u{k}"), s)
        work.append((t, t.job()))
    for k in range(c.n(400, 6000)):
        rnd = c.sub(f"r{k}")
        t = Text(rnd, random_text(rnd))
        j = t.job()
        if rnd.random() < .4:
            j["fail_at"] = rnd.choice([0, 1, len(t.bytes) - 1, len(t.bytes), rnd.randint(0, len(t.bytes))])
        work.append((t, j))
        if rnd.random() < .2:
            d = tempfile.mkdtemp(dir=run.scratch())
            p = os.path.join(d, "x.jsonl")
            open(p, "wb").write(t.bytes)
            work.append((t, {"op": "cjread", "kind": "seq", "path": p}))
    # every place of failure in one text
    for k in range(c.n(1, 6)):
        rnd = c.sub(f"f{k}")
        t = Text(rnd, [10, LF, 100, CR, LF, 101] + ([LF] if k % 2 else []))
        for at in range(0, len(t.bytes) + 1, max(1, len(t.bytes) // c.n(150, 600))):
            j = t.job()
            j["fail_at"] = at
            work.append((t, j))
    # single documents, spread over lines
    for k in range(c.n(60, 600)):
        rnd = c.sub(f"n{k}")
        t = Text(rnd, [rnd.choice([10, 10, 10, JUNK, 100, LF])] + rnd.choice([[], [LF], [CR, LF], [BLANK, LF], [LF, JUNK], [LF, 100]]))
        if t.symbols[0] == 10 and rnd.random() < .7:
            lines = json.dumps(t.doc[10], indent=1).replace("\n", rnd.choice(["\n", "\r\n"])).encode()
            t.bytes = t.bytes.replace(t.bytes[:t.bytes.rindex(b"}") + 1], lines, 1) if t.symbols[-1] not in (JUNK, 100) else t.bytes
        work.append((t, t.job(kind="normal")))
    # no such file
    t = Text(c.rnd, [JUNK])
    work.append((t, {"op": "cjread", "kind": "seq", "path": "/nonexistent/x.jsonl"}))
    work.append((t, {"op": "cjread", "kind": "normal", "path": "/nonexistent/x.jsonl"}))
    evs, _ = judge(c, work)
    c.sample({"trace": [e for e in evs if e["ok"]][:3]})


CHECKS = {"F20": f20}
