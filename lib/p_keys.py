"""F18: index keys stored, read back and compared by the real code (spec/Keys.tla)."""
import struct

import run
import tlc
from data import RANGE, dt_parse, limbs

INTS = {"i8": (-128, 127), "u8": (0, 255), "i16": RANGE["Short"], "u16": RANGE["UShort"], "i32": RANGE["Int"],
        "u32": RANGE["UInt"], "i64": RANGE["Long"], "u64": RANGE["ULong"]}
STR = {"s20": 20, "s50": 50, "s100": 100}
MAXDT = 253402300799


def rep(t, v):
    """the key as TLC sees it"""
    if t in INTS:
        return limbs(int(v) + 2**64, 5)
    if t == "bool":
        return [int(v)]
    if t in ("f32", "f64"):
        x = float(v)
        u = struct.unpack("<I", struct.pack("<f", x))[0] if t == "f32" else struct.unpack("<Q", struct.pack("<d", x))[0]
        return limbs(u, 2 if t == "f32" else 4)
    if t == "dt":
        s, n = dt_parse(v) if isinstance(v, str) else v
        return [limbs(s + 2**64, 5), limbs(n, 2)]
    return list(v.encode())[:STR[t]]


def special(rnd, t):
    if t in INTS:
        lo, hi = INTS[t]
        c = [lo, lo + 1, hi, hi - 1, 0, 1, -1, 255, 256, -256, -257, 65535, 65536, 2**31, 2**32 - 1, -2**31]
        c += [(1 << k) + d for k in (7, 8, 15, 16, 24, 31, 32, 48, 62, 63) for d in (-1, 0, 1)]
        c += [rnd.randint(lo, hi) for _ in range(12)]
        return [str(x) for x in c if lo <= x <= hi]
    if t == "bool":
        return [True, False]
    if t in ("f32", "f64"):
        top = 3.4028234663852886e38 if t == "f32" else 1.7976931348623157e308
        tiny = 1e-45 if t == "f32" else 5e-324
        c = ["inf", "-inf", 0.0, "-0.0", top, -top, tiny, -tiny, 1.0, -1.0, 0.5, 1.5, 2.0, -2.0, 1e-3, 1e10, -1e10]
        f = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
        for _ in range(25):
            b = rnd.randrange(2**32) if t == "f32" else rnd.randrange(2**64)
            x = struct.unpack("<f", struct.pack("<I", b))[0] if t == "f32" else struct.unpack("<d", struct.pack("<Q", b))[0]
            if x == x:
                c.append(x)
        return [repr(x) if isinstance(x, float) else x for x in c]
    if t == "dt":
        c = ["1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00.5Z", "1969-12-31T23:59:59.25Z",
             "2020-02-29T14:00:00+02:00", "2020-02-29T12:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999Z",
             [0, 1], [0, 999999999], [-1, 999999999], [-1, 0], [MAXDT, 999999999], [-62135596800, 0], [2**31, 5], [2**32, 0]]
        c += [[rnd.randint(-2**36, 2**37), rnd.choice([0, 1, 999999999, rnd.randrange(10**9)])] for _ in range(20)]
        return c
    n = STR[t]
    abc = "abzAZ09 é日\U0001f600\x01\x7f"
    c = ["", "a", "aa", "ab", "b", "a" * n, "a" * (n - 1), "a" * (n - 1) + "b", "a" * (n + 1), "a" * n + "z", "é" * (n // 2),
         "x" * (n - 1) + "é", "\U0010ffff" * (n // 4)]
    c += ["".join(rnd.choice(abc) for _ in range(rnd.randint(0, n + 5))) for _ in range(20)]
    return c


def batch(t, vs, ob):
    if "rows" not in ob:
        return {"ev": "broken"}
    rows = [{"v": rep(t, v), "bytes": list(bytes.fromhex(r["bytes"])), "n": r["n"] if isinstance(r["n"], int) else -1,
             "size": r["size"], "same": r["eq1"] is True and r["eq2"] is True and r["left"] == 0,
             "bounded": r["max"] and r["min"], "short": r["short_w"] and r["short_r"]} for v, r in zip(vs, ob["rows"])]
    return {"ev": "keys", "t": t, "rows": rows, "cmp": ob["cmp"]}


def judge(c, work):
    res = run.run_jobs([{"op": "key", "type": t, "values": vs} for t, vs in work])
    traces = [[batch(t, vs, o)] for (t, vs), o in zip(work, res)]
    v = tlc.check_traces("KeysTrace", traces)
    c.verdict(v, len(work))
    for i, _ in v.rejected:
        t, vs = work[i]
        c.violation(f"keys of type {t}: {str(narrow(t, vs, res[i]))[:600]}",
                    {"type": t, "values": vs, "observed": res[i]})
    return traces, not v.rejected


def narrow(t, vs, ob):
    """the first key, or pair of keys, at fault"""
    if "rows" not in ob:
        return ob
    e = batch(t, vs, ob)
    rej = tlc.check_traces("KeysTrace", [[{"ev": "keys", "t": t, "rows": [r], "cmp": [[0]]}] for r in e["rows"]]).rejected
    if rej:
        i = rej[0][0]
        return vs[i], ob["rows"][i]
    for i in range(len(vs)):
        if any(e["cmp"][i][j] != -e["cmp"][j][i] for j in range(len(vs))):
            j = next(j for j in range(len(vs)) if e["cmp"][i][j] != -e["cmp"][j][i])
            return vs[i], vs[j], e["cmp"][i][j], e["cmp"][j][i]
    return "order of two of " + str(vs)


def f18(c):
    c.design("KeysMC", "KeysMCDeep.cfg" if c.thorough else "KeysMC.cfg")
    work = [("bool", [True, False])]
    for t in ("i8", "u8"):
        lo, hi = INTS[t]
        work.append((t, [str(x) for x in range(lo, hi + 1)]))     # every key, every pair
    for k in range(c.n(6, 150)):
        rnd = c.sub(k)
        for t in list(INTS) + ["f32", "f64", "dt"] + list(STR):
            s = special(rnd, t)
            rnd.shuffle(s)
            work.append((t, s[:40]))
    if c.thorough:
        for t in ("i16", "u16"):
            lo, hi = INTS[t]
            work += [(t, [str(x) for x in range(a, min(a + 64, hi + 1))]) for a in range(lo, hi + 1, 64)]
    traces, ok = judge(c, work)
    e = traces[-1][0]
    c.sample({"type": e.get("t"), "row": e.get("rows", [None])[0]})


CHECKS = {"F18": f18}
