"""C14 database values decode to what was encoded and compare consistently.

Oracle: Python values (vlib/dbmodel.py).  A script encodes values of all types on a fresh local database, stores them in records, reads them back at once
and again after everything else was stored, compares pairs both ways, and looks at whether equal strings have one stored copy."""
import datetime, struct
from vlib import dbmodel as M
from vlib.engine import ok, viol, skip

PROP = "C14"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random value scripts through the C interface against Python values and a Python comparison (under the address sanitizer)"
LEVEL_NOTE = "sampled values and scripts; the oracle is exact"
RULE = ("Scripts of 10 to 120 values: integers around every encoding boundary, all finite doubles by bit pattern, strings of length 0 to 3000 over all bytes 1-255 "
        "(lengths around 0, 3, 7, 31, 32 favoured) with and without language, prefix or type, blobs with zero bytes, characters, dates, times, fixed point numbers, "
        "variables and records; decoded at once and after all were stored, compared pairwise in both orders, dates and times converted to calendar form and back.  "
        "Non-trivial: at least four types, or a compared pair sharing its type; distinct by script.")
ASSUMPTIONS = ["NaN, fixed point numbers outside -800..800, dates outside years 1-9999 and strings with zero bytes are not encodable and left out",
               "the language of a string is not part of its comparison (Db/dbcompare.c)", "anonymous constants are stored as URIs (Db/dbdata.c)",
               "strings stored inline (at most 31 bytes, no language) have a copy per occurrence by design"]
CHUNK = 6
DATE0, DATE1 = datetime.date(1, 1, 1).toordinal(), datetime.date(9999, 12, 31).toordinal()


def prepare(tier):
    return {"bin": M.binary()}


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [("values", 5000 * k), ("compare", 5000 * k), ("share", 2000 * k), ("calendar", 1500 * k)]


def rint(r):
    k = r.random()
    if k < 0.3:
        return r.randint(-5, 5)
    if k < 0.8:
        b = r.choice([7, 8, 15, 16, 28, 29, 30, 31, 32, 33, 52, 53, 58, 59, 60, 61, 62, 63])
        return max(-2 ** 63, min(2 ** 63 - 1, r.choice([1, -1]) * 2 ** b + r.randint(-2, 2)))
    return r.getrandbits(64) - 2 ** 63


def rdouble(r):
    k = r.random()
    if k < 0.3:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, float(2 ** 53), 0.1])
    if k < 0.5:
        return r.randint(-20, 20) / 4
    x = struct.unpack("d", struct.pack("Q", r.getrandbits(64)))[0]
    return x if x == x and abs(x) != float("inf") else 1.25


def rbytes(r, zero=False, lens=None):
    k = r.random()
    n = r.choice(lens or [0, 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 30, 31, 32, 33, 40, 64, 100]) if k < 0.85 else r.randint(0, 50) if k < 0.97 else r.randint(200, 3000)
    a = r.choice([b"a", b"ab", bytes(range(1, 256)), bytes([1, 127, 128, 255]), b"aAzZ09 "])
    if zero:
        a += b"\0\0"
    return bytes(r.choice(a) for _ in range(n))


def rtag(r):
    return r.choice([None, b"en", b"e", b"xsd:string", b"a" * r.choice([7, 8, 31, 32, 33, 60]), rbytes(r, lens=[1, 2, 3, 8, 31, 32]) or b"t"])


def rvalue(r, recs=()):
    k = r.choice("niiddsssuuxxbbcfDTva" + ("rr" if recs else ""))
    if k == "n":
        return ["n"]
    if k == "i":
        return ["i", rint(r)]
    if k == "d":
        return ["d", rdouble(r).hex()]
    if k == "f":
        return ["f", r.choice([0, 1, -1, 8000000, -8000000, 12345, r.randint(-8000000, 8000000)])]
    if k == "c":
        return ["c", r.randint(0, 255)]
    if k == "D":
        return ["D", r.choice([DATE0, DATE1, 719163, r.randint(DATE0, DATE1)])]
    if k == "T":
        return ["T", r.choice([0, 8639999, 1, r.randint(0, 8639999)])]
    if k == "v":
        return ["v", r.choice([0, 1, 2, 100, 2 ** 31, r.randint(0, 100000)])]
    if k == "r":
        return ["r", r.choice(recs)]
    if k == "a":
        return ["a", (r.choice("aBz$_") + "k" * r.randint(0, 40)).encode().hex()]
    if k == "b":
        b = rbytes(r, True)
        return ["b", b.hex(), tag(rtag(r))]
    t = rtag(r)
    if k == "s" and r.random() < 0.5:
        t = None
    return [k, rbytes(r).hex(), tag(t)]


def tag(t):
    return None if t is None else t.hex()


def val(j):
    """The model's value of a value in a case."""
    k = j[0]
    if k == "d":
        return ("d", float.fromhex(j[1]))
    if k == "a":
        b = bytes.fromhex(j[1])
        return ("u", b, b"c" if b[:1].isupper() else None)
    if k in "suxb":
        return (k, bytes.fromhex(j[1]), None if j[2] is None else bytes.fromhex(j[2]))
    return tuple(j)


def text(j):
    if j[0] == "a":
        return "a " + M.hx(bytes.fromhex(j[1]))
    return M.script(val(j))


def near(r, j):
    """A value often close to j in its order."""
    k = j[0]
    if r.random() < 0.15:
        return list(j)
    if k == "i":
        return ["i", max(-2 ** 63, min(2 ** 63 - 1, j[1] + r.choice([-1, 1, 2 ** 32, -2 ** 32])))]
    if k == "d":
        x = float.fromhex(j[1])
        b = struct.unpack("Q", struct.pack("d", x))[0]
        y = struct.unpack("d", struct.pack("Q", (b + r.choice([1, -1, 2 ** 63, 2 ** 52])) % 2 ** 64))[0]
        return ["d", (y if y == y and abs(y) != float("inf") else 0.0).hex()]
    if k in "suxb" and r.random() < 0.85:
        b = bytearray(bytes.fromhex(j[1]))
        t = j[2]
        o = r.random()
        if o < 0.3 and b:
            i = r.randrange(len(b))
            b[i] = r.choice([max(1, b[i] - 1), min(255, b[i] + 1), 255, 1, b[i] ^ 128 or 1])
        elif o < 0.5:
            b.append(r.choice([1, 97, 128, 255]))
        elif o < 0.6 and b:
            b.pop()
        elif o < 0.85:
            t = tag(rtag(r))
        else:
            k = r.choice("sux") if 0 not in b else "b"
        return [k, bytes(b).hex(), t]
    if k in "cDTvf":
        return [k, max(0 if k != "D" else 1, min(255 if k == "c" else 8639999 if k == "T" else DATE1, j[1] + r.choice([1, -1])))]
    return rvalue(r)


def gen(kind, r, i, tier):
    if kind == "values":
        return {"k": kind, "v": [rvalue(r, range(3)) for _ in range(r.choice([3, 10, 30, 80]))], "gap": r.random() < 0.5}
    if kind == "compare":
        n = r.choice([2, 5, 9])
        vs = [rvalue(r) for _ in range(r.choice([1, 2, n]))]
        while len(vs) < n:
            vs.append(near(r, r.choice(vs)))
        recs = []
        for h in range(r.choice([0, 0, 3, 5, 8])):
            base = r.choice(recs) if recs and r.random() < 0.6 else None
            f = [list(x) for x in base] if base else [r.choice(vs) if r.random() < 0.6 or not recs else ["r", r.randrange(len(recs))] for _ in range(r.choice([1, 2, 3]))]
            if base and r.random() < 0.7:
                q = r.randrange(len(f))
                f[q] = near(r, f[q]) if f[q][0] != "r" else ["r", r.randrange(len(recs))]
            recs.append(f)
        return {"k": kind, "v": vs + [["r", h] for h in range(len(recs))], "recs": recs}
    if kind == "share":
        base = [r.choice("suxb") for _ in range(r.choice([1, 2, 4]))]
        vs = []
        for k in base:
            b = rbytes(r, k == "b", [32, 33, 40, 64, 100] if k == "s" else [1, 5, 8, 31, 32, 40])
            if k == "s" and len(b) < 32:
                b = b + b"q" * 32
            vs.append([k, b.hex(), tag(rtag(r))])
        n = r.choice([4, 8, 20])
        while len(vs) < n:
            vs.append(list(r.choice(vs)) if r.random() < 0.5 else near(r, r.choice(vs[:len(base)])))
        r.shuffle(vs)
        return {"k": kind, "v": vs, "noise": r.choice([0, 0, 50, 400])}
    return {"k": kind, "d": [r.choice([DATE0, DATE1, 59, 60, 61, 366, 730179, r.randint(DATE0, DATE1)]) for _ in range(8)],
            "t": [[r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 99, r.randint(0, 99)])]
                  for _ in range(8)]}


def small(v):
    """Stored without a copy that could be shared."""
    return v[0] not in "suxb" or (v[0] == "s" and v[2] is None and len(v[1]) < 32)


def lines_of(case):
    k = case["k"]
    ls, exp = ["db 2000000"], [("is", "ok")]

    def add(line, *e):
        ls.append(line)
        exp.append(e)
    if k == "calendar":
        for d in case["d"]:
            t = datetime.date.fromordinal(d)
            add("ymd %d %d %d" % (t.year, t.month, t.day), "is", "%d %d %d %d %sT00:00:00.00" % (d, t.year, t.month, t.day, t.isoformat()))
            add("isod " + t.isoformat(), "is", str(d))
        for h, m, s, p in case["t"]:
            n = ((h * 60 + m) * 60 + s) * 100 + p
            iso = "%02d:%02d:%02d.%02d" % (h, m, s, p)
            add("hms %d %d %d %d" % (h, m, s, p), "is", "%d %d %d %d %d 0001-01-01T%s" % (n, h, m, s, p, iso))
            add("isot " + iso, "is", str(n))
        return ls, exp
    if k == "values":
        for h in range(3):
            add("new %d 2" % h, "rec", h, [("n",)] * 2)
        for n, j in enumerate(case["v"]):
            v = val(j)
            if case["gap"]:
                add("enc " + text(j), "is", M.shown(v))
            add("new %d 1" % (n + 3), "rec", n + 3, [v])
            add("setnew %d 0 %s" % (n + 3, text(j)), "is", "0")
            add("get %d" % (n + 3), "is", "1 | " + M.shown(v))
        for n, j in enumerate(case["v"]):
            add("get %d" % (n + 3), "is", "1 | " + M.shown(val(j)))
        return ls, exp
    if k == "share":
        for n, j in enumerate(case["v"]):
            add("new %d 1" % n, "rec", n, [val(j)])
            add("setnew %d 0 %s" % (n, text(j)), "is", "0")
            if n == len(case["v"]) // 2:
                for q in range(case["noise"]):
                    add("enc u %s -" % M.hx(b"noise%d" % q), "is", "u %s -" % M.hx(b"noise%d" % q))
        for a in range(len(case["v"])):
            for b in range(a):
                va, vb = val(case["v"][a]), val(case["v"][b])
                if small(va) and small(vb):
                    continue
                add("share %d 0 %d 0" % (a, b), "is", str(int(same(va, vb))))
        return ls, exp
    for h, f in enumerate(case["recs"]):
        add("new %d %d" % (h, len(f)), "rec", h, [val(x) for x in f])
        for q, x in enumerate(f):
            add("setnew %d %d %s" % (h, q, text(x)), "is", "0")
    for a in range(len(case["v"])):
        for b in range(a + 1):
            add("cmp %s %s" % (text(case["v"][a]), text(case["v"][b])), "cmp", val(case["v"][a]), val(case["v"][b]))
    return ls, exp


def same(a, b):
    return a[:2] == b[:2] and (a[2] or None) == (b[2] or None)


def sign(x):
    return (x > 0) - (x < 0)


def run(case, env):
    ls, exp = lines_of(case)
    mem = M.Mem()
    out, res = M.run(ls)
    if res.timeout:
        return skip("time limit")
    sametype = 0
    for n, e in enumerate(exp):
        got = out[n] if n < len(out) else "nothing (%s)" % ("the program stopped: rc %s %s" % (res.rc, res.out[-700:]))
        if e[0] == "is":
            if got != e[1]:
                return viol("operation %r gives %r, expected %r" % (ls[n][:300], got[:300], e[1][:300]))
        elif e[0] == "rec":
            if not got.startswith("rec "):
                return viol("operation %r gives %r" % (ls[n], got[:300]))
            mem.addr[e[1]] = int(got[4:])
            mem.rec[e[1]] = e[2]
        else:
            c = mem.cmp(e[1], e[2])
            want = "%d %d" % (c, -c)
            g = got.split()
            if len(g) == 2 and all(x.lstrip("-").isdigit() for x in g):
                got = "%d %d" % tuple(code(int(x)) for x in g)
            sametype += e[1][0] == e[2][0] and e[1] is not e[2]
            if got != want:
                return viol("operation %r gives %r, expected %r (sign of the comparison in both orders)" % (ls[n][:300], got[:300], want))
    if res.crashed or res.rc or out[-1] != "end":
        return viol("the script does not run to its end: rc %s %s" % (res.rc, res.out[-700:]))
    types = {j[0] for j in case.get("v", [])}
    return ok(len(types) >= 4 or sametype > len(case.get("v", [])) or case["k"] in ("calendar", "share"), repr(ls), [case["k"]] + sorted("type " + t for t in types))


def code(x):
    return {0: 0, 1: 1, 2: -1}.get(x, x)


def shrinks(case):
    for key in ("v", "d", "t"):
        n = len(case.get(key, []))
        for step in (n // 2, n // 4, 1):
            if step:
                for i in range(0, n, step):
                    yield dict(case, **{key: case[key][:i] + case[key][i + step:]})
    for i, j in enumerate(case.get("v", [])):
        if j[0] in "suxb":
            for h in (j[1][:len(j[1]) // 4 * 2], j[1][:-2]):
                if h != j[1]:
                    yield dict(case, v=case["v"][:i] + [[j[0], h, j[2]]] + case["v"][i + 1:])
    if case.get("noise"):
        yield dict(case, noise=0)


def describe(case):
    return "\n".join(lines_of(case)[0])
