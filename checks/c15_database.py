"""C15 the database behaves as a set of records under every operation history.

Oracle: a dictionary of records (vlib/dbmodel.py).  A script of operations (create, fill in, delete, iterate, scan, index, dump and import) runs on a local
database through the C interface; every reading agrees with the model, no two live records overlap, running out of space changes nothing."""
from vlib import dbmodel as M, gkc, engine
from vlib.engine import ok, viol, skip
from checks import c14_values as V

PROP = "C15"
LEVEL = "exploration"
TECHNIQUE = "stateful model-based testing: random operation histories through the C interface against a dictionary of records (under the address sanitizer)"
LEVEL_NOTE = "sampled histories; the model is exact"
RULE = ("Histories of 20 to 400 operations over up to 150 live records: creating records of 0 to 300 fields, filling fields with values of all types, deleting, "
        "reading, listing, conditions of six kinds over one to three columns by query, by template and by repeated search, tree indexes built over the "
        "records and dropped, dump and import; and histories that fill a small database up, check everything, delete and fill again.  "
        "Non-trivial: at least one deletion followed by a creation, or a query with both matching and other records, or a full database; distinct by script.")
ASSUMPTIONS = ["fields are written once and indexes are built over existing records: the engine's build turns later updates off by design (QUICK_REASONER in Db/dbdata.c)",
               "a record is deleted only when it does not refer to another record, no other record refers to it and none shares one of its long strings (reference counts and back links are off in that build)"]
CHUNK = 4


def prepare(tier):
    return {"bin": M.binary()}


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [("history", 1800 * k), ("churn", 700 * k), ("queries", 1500 * k), ("index", 1200 * k), ("full", 240 * k)]


def keys(j):
    """The shareable stored strings of a value."""
    v = V.val(j)
    if v[0] not in "suxb":
        return []
    out = []
    if v[0] != "s" or v[2] is not None or len(v[1]) >= 25:
        out.append(repr((v[0], v[1], v[2] or None)))
    if v[2]:
        out.append(repr(("s", v[2], None)))  # stored as a string
    return out


def simple(r, pool):
    """Values that often coincide."""
    return r.choice(pool) if r.random() < 0.85 else V.rvalue(r)


def mkpool(r):
    ts = r.choice(["i", "is", "isdn", "isdnuxbcfDTv", "d", "s"])
    out = []
    while len(out) < r.choice([2, 4, 8]):
        v = V.rvalue(r)
        if v[0] in ts and (v[0] not in "suxb" or len(v[1]) < 300):
            out.append(v if r.random() < 0.6 or not out else V.near(r, r.choice(out)))
    return out + [["n"]]


def gen(kind, r, i, tier):
    if kind == "full":
        # "rounds" of filling up
        return {"k": kind, "size": r.choice([400000, 700000, 1500000]), "len": r.choice([1, 2, 3, 5, 8, 20, 100, 500, 3000]),
                "val": r.choice([["n"], ["i", 5], ["i", 2 ** 60 + 7], ["d", (0.1).hex()], ["s", ("short" * 3).encode().hex(), None], ["s", ("long" * 10).encode().hex(), None],
                                 ["u", b"abc".hex(), b"p".hex()]]),
                "step": r.choice([1, 2, 3, 7]), "before": [V.rvalue(r) for _ in range(r.choice([0, 5, 30]))],
                "len2": r.choice([None, 1, 2, 4, 60]), "rounds": r.choice([1, 2])}
    ops = []
    pool = mkpool(r)
    live, freed, nxt = {}, [], 0
    cnt, refs = {}, {}
    width = r.choice([1, 2, 3, 4])
    nops = r.choice([20, 60, 150, 400 if tier != "quick" else 250])
    if kind == "churn":
        nops = r.choice([100, 300, 600 if tier == "quick" else 1200])
    w = {"churn": [5, r.choice([3, 4.5, 5]), 1, 0.5, 0.3, 0, 0, 0, 0, r.choice([0, 0.05])], "history": [5, 6, 4, 3, 1, 1, 1, 1, 0, 0.3], "queries": [6, 0.5, 1, 1, 0.5, 6, 3, 3, 0, 0.1], "index": [7, 0.7, 1, 1, 0.5, 4, 2, 3, 1, 0.1]}[kind]
    indexed = []
    odd = [r.choice([0, 1, 2, 3, 4, 5, 10, 20, 27, 28, 29, 30, 31, 45, 61, 100, 125, 189, 300]) for _ in range(r.choice([2, 4, 8]))]
    for _ in range(nops):
        op = r.choices(["new", "del", "setnew", "get", "list", "qry", "mqry", "find", "idx", "dump"], w)[0]
        if indexed and op in ("new", "del", "setnew", "dump"):
            # later changes are not indexed in this build
            if r.random() < 0.8:
                op = "qry"
            else:
                for t, cols in indexed:
                    ops.append(["drop", t, cols])
                indexed = []
        if op == "new" or (not live and op != "list"):
            if len(live) >= 150:
                continue
            h = freed.pop() if freed and r.random() < 0.3 else nxt
            nxt = max(nxt, h + 1)
            n = r.choice(odd) if kind == "churn" else max(0, r.choice([width, width, width, width + 1, width - 1, r.choice([0, 1, 10, 22, 28, 29, 30, 45, 60, 61, 62, 63, 64, 65, 100, 125, 300])]))
            live[h] = n
            raw = r.random() < 0.3
            ops.append(["raw" if raw else "new", h, n])
            for q in range(min(n, 5)):
                if r.random() < 0.85:
                    rs = [x for x in live if x != h] if r.random() < 0.15 else []
                    v = ["r", r.choice(rs)] if rs else simple(r, pool)
                    put(ops, h, q, v, cnt, refs)
        elif op == "setnew":
            h = r.choice(list(live))
            if live[h] > 5:
                q = r.randrange(5, live[h])
                if not any(o[0] == "set" and o[1] == h and o[2] == q for o in ops[-40:]):
                    put(ops, h, q, simple(r, pool), cnt, refs)
        elif op == "del":
            h = r.choice(list(live))
            mine = refs.get(h, [])
            ks = [k for v in mine for k in keys(v)]
            if len(set(ks)) < len(ks) or any(cnt[k] > 1 for k in ks) or any(["r", h] in refs.get(o, []) for o in live) \
                    or any(v[0] == "r" for v in mine):
                continue
            for k in ks:
                cnt[k] -= 1
            refs.pop(h, None)
            del live[h]
            freed.append(h)
            ops.append(["del", h])
        elif op == "get":
            ops.append(["get", r.choice(list(live))])
        elif op == "list":
            ops.append(["list"])
        elif op == "qry":
            ops.append(["qry", -1, [[r.randrange(width), r.choice([1, 1, 2, 4, 8, 16, 32]), simple(r, pool)] for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]])
        elif op == "mqry":
            ops.append(["mqry", [["v", q] if r.random() < 0.5 else simple(r, [v for v in pool if v[0] != "v"]) for q in range(r.randint(1, width))]])
        elif op == "find":
            ops.append(["find", r.randrange(width), r.choice([1, 1, 2, 4, 8, 16, 32]), simple(r, pool)])
        elif op == "idx":
            t, cols = "t", [r.randrange(width)]
            if [t, cols] not in indexed:
                indexed.append([t, cols])
                ops.append(["idx", t, cols])
        elif op == "dump":
            ops.append(["dump"])
    return {"k": kind, "ops": ops}


def put(ops, h, q, v, cnt, refs):
    ops.append(["set", h, q, v])
    refs.setdefault(h, []).append(v)
    for k in keys(v):
        cnt[k] = cnt.get(k, 0) + 1


def param(v):
    return v[0] not in "ab"


class Sim:
    def __init__(self):
        self.ls, self.exp = ["db 4000000"], [("is", "ok")]
        self.mem = M.Mem()
        self.reuse = self.selective = self.deleted = 0

    def add(self, line, *e):
        self.ls.append(line)
        self.exp.append(e)


def hist(case):
    """The script, expected outcomes, and what made the case interesting.  Operations on records that a shrink step removed are left out."""
    s = Sim()
    m = s.mem
    seen_del = False
    for o in case["ops"]:
        k = o[0]
        if k in ("new", "raw"):
            if o[1] in m.rec:
                continue
            m.rec[o[1]] = [("n",)] * o[2]
            s.add("%s %d %d" % (k, o[1], o[2]), "rec", o[1], o[2])
            s.reuse += seen_del
        elif k == "set":
            if o[1] not in m.rec or len(m.rec[o[1]]) <= o[2] or m.rec[o[1]][o[2]] != ("n",) or (o[3][0] == "r" and o[3][1] not in m.rec):
                continue
            m.rec[o[1]][o[2]] = V.val(o[3])
            s.add("setnew %d %d %s" % (o[1], o[2], V.text(o[3])), "is", "0")
        elif k == "del":
            if o[1] not in m.rec or any(("r", o[1]) in f for f in m.rec.values()) or any(v[0] == "r" for v in m.rec[o[1]]):
                continue
            seen_del = True
            del m.rec[o[1]]
            s.add("del %d" % o[1], "is", "0")
            s.exp[-1] = ("del", o[1])
        elif k == "get":
            if o[1] in m.rec:
                s.add("get %d" % o[1], "is", fields(m.rec[o[1]]))
        elif k == "list":
            s.add("list", "is", "list" + "".join(" %d" % h for h in sorted(m.rec)))
        elif k in ("qry", "mqry", "find"):
            if k == "qry":
                conds = [c for c in o[2] if param(c[2])]
                line = "qry %d%s" % (o[1], "".join(" %d %d %s" % (c[0], c[1], V.text(c[2])) for c in conds))
            elif k == "mqry":
                if not all(map(param, o[1])):
                    continue
                conds = [[q, 1, v] for q, v in enumerate(o[1]) if v[0] != "v"]
                line = "mqry" + "".join(" " + V.text(v) for v in o[1])
            else:
                conds = [o[1:]]
                if not param(o[3]):
                    continue
                line = "find %d %d %s" % (o[1], o[2], V.text(o[3]))
            s.add(line, "sel", k, [[c[0], c[1], V.val(c[2])] for c in conds], {h: list(f) for h, f in m.rec.items()})
        elif k == "idx":
            s.add("idx %s %s" % (o[1], " ".join(map(str, o[2]))), "is", "0")
        elif k == "drop":
            s.add("drop %s %s" % (o[1], " ".join(map(str, o[2]))), "is", "0")
        elif k == "dump":
            s.add("dump %s 4000000" % dumpfile(), "is", "0 0")
            s.exp[-1] = ("dump",)
    for h in sorted(m.rec):
        s.add("get %d" % h, "is", fields(m.rec[h]))
    s.add("list", "is", "list" + "".join(" %d" % h for h in sorted(m.rec)))
    return s


def dumpfile():
    import os
    return os.path.join(engine.scratch(), "db.dmp")


def fields(f):
    return "%d" % len(f) + "".join(" | " + M.shown(v) for v in f)


def run_hist(case):
    s = hist(case)
    out, res = M.run(s.ls)
    if res.timeout:
        return skip("time limit")
    m = M.Mem()
    place = {}
    labels = [case["k"]]
    for n, e in enumerate(s.exp):
        got = out[n] if n < len(out) else "nothing (the program stopped: rc %s %s)" % (res.rc, res.out[-700:] if res.rc else "")
        op = s.ls[n][:200]
        if e[0] == "is" and got != e[1]:
            return viol("operation %d, %r, gives %r, expected %r" % (n, op, got[:400], e[1][:400]))
        if e[0] == "rec":
            if not got.startswith("rec "):
                return viol("operation %d, %r, gives %r" % (n, op, got[:300]))
            a = int(got[4:])
            b = a + 8 * (3 + e[2])
            for h, (x, y) in place.items():
                if a < y and x < b:
                    return viol("operation %d, %r: the record lies at %d-%d, the live record %d at %d-%d" % (n, op, a, b, h, x, y))
            place[e[1]] = (a, b)
            m.addr[e[1]] = a
        elif e[0] == "del":
            if got != "0":
                return viol("operation %d, %r, gives %r" % (n, op, got[:300]))
            place.pop(e[1])
        elif e[0] == "dump":
            if got != "0 0":
                return viol("operation %d, dump and import, gives %r" % (n, got[:300]))
            labels.append("dump")
        elif e[0] == "sel":
            m.rec = e[3]
            want = [h for h in sorted(m.rec) if m.match(h, e[2])]
            g = got.split()
            if not g or g[0] != e[1]:
                return viol("operation %d, %r, gives %r" % (n, op, got[:300]))
            if e[1] == "qry" and g.pop(1) != str(len(g) - 1):
                return viol("operation %d, %r, gives a count of results that differs from their number: %s" % (n, op, got[:300]))
            if g[1:] != [str(h) for h in want]:
                return viol("operation %d, %r, gives records %s, expected %s" % (n, op, " ".join(g[1:])[:300], want[:60]))
            s.selective += 0 < len(want) < len(m.rec)
    if res.rc or len(out) <= len(s.exp) or out[len(s.exp)] != "end":
        return viol("the script does not run to its end: rc %s %s" % (res.rc, res.out[-700:]))
    return ok(s.reuse > 0 or s.selective > 0, repr(s.ls), labels + (["reuse"] if s.reuse else []) + (["selective query"] if s.selective else []))


def run_full(case):
    first = ["db %d" % case["size"]]
    exp = ["ok"]
    nb = len(case["before"])
    checks = []
    for h, v in enumerate(case["before"]):
        first += ["new %d 2" % h, "setnew %d 1 %s" % (h, V.text(v))]
        checks.append(("get %d" % h, fields([("n",), V.val(v)])))
    val = V.val(case["val"]) if case["len"] else ("n",)
    vt = M.script(val)
    # how many fit is found by running the first part
    fill = "fill %d %d 190000 %s" % (nb, case["len"], vt)
    out, res = M.run(first + [fill])
    if res.timeout:
        return skip("time limit")
    if res.rc or not out or out[-1] != "end":
        return viol("filling up does not run to its end: rc %s %s" % (res.rc, res.out[-700:]))
    last = out[len(first)].split()
    n = int(last[-1])
    if n < 2:
        return skip("too small")
    if n >= 190000:
        return skip("not filled up")
    whole = [val] + [("n",)] * (case["len"] - 1)
    complete = n if len(last) == 1 else n - 1
    ls, ex = first + [fill], [None] * (len(first) + 1)

    def add(line, e):
        ls.append(line)
        ex.append(e)

    def verify(gone=()):
        for a, b in checks:
            add(a, b)
        for h in range(nb, nb + complete, max(1, complete // 200)):
            if h not in gone:
                add("get %d" % h, fields(whole))
    verify()
    if case["val"] == ["n"]:
        add("new 199999 %d" % (case["len"] + 1 if case["len"] > 40 else 4000), "null")
    verify()
    uses = not any(keys(case["val"]))
    gone = set()
    if uses:
        for h in range(nb, nb + complete, case["step"]):
            gone.add(h)
            add("del %d" % h, "0")
        verify(gone)
        at = len(ls)
        l2 = case["len2"] if case["len2"] and case["len2"] <= case["len"] else case["len"]
        add("fill 200000 %d 200000 %s" % (l2, vt), "fill")
        verify(gone)
        add("list", "list")
    out, res = M.run(ls)
    if res.timeout:
        return skip("time limit")
    refill = 0
    for q, e in enumerate(ex):
        got = out[q] if q < len(out) else "nothing (the program stopped: rc %s %s)" % (res.rc, res.out[-700:] if res.rc else "")
        if e is None:
            continue
        if e == "fill":
            refill = int(got.split()[-1]) if got and got.split()[-1].isdigit() else -1
            if refill < 0:
                return viol("%r gives %r" % (ls[q], got[:300]))
            if l2 == case["len"] and refill < len(gone):
                return viol("after %d records of length %d filled the database and %d were deleted, only %d of the same length can be created: freed space is lost"
                            % (n, case["len"], len(gone), refill))
            continue
        if e == "list":
            want = sorted(set(range(nb)) | (set(range(nb, nb + n)) - gone) | set(range(200000, 200000 + refill)))
            if len(last) > 1 or len(out[at].split()) > 1:
                continue
            e = "list" + "".join(" %d" % h for h in want)
        if got != e:
            return viol("in a database of %d bytes filled with %d records of length %d, %r gives %r, expected %r" % (case["size"], n, case["len"], ls[q], got[:300], e[:300]))
    if res.rc or out[-1] != "end":
        return viol("the script does not run to its end: rc %s %s" % (res.rc, res.out[-700:]))
    return ok(True, repr((ls[:len(first) + 1], case["step"], case["len2"])), ["full"] + (["refilled"] if uses else []))


def run(case, env):
    return run_full(case) if case["k"] == "full" else run_hist(case)


def shrinks(case):
    if case["k"] == "full":
        n = len(case["before"])
        if n:
            yield dict(case, before=case["before"][:n // 2])
        return
    o = case["ops"]
    n = len(o)
    step = max(1, n // 2)
    while step >= 1:
        for i in range(0, n, step):
            yield dict(case, ops=o[:i] + o[i + step:])
        if step == 1:
            break
        step //= 2
    for i, x in enumerate(o):
        if x[0] == "qry" and len(x[2]) > 1:
            for q in range(len(x[2])):
                yield dict(case, ops=o[:i] + [["qry", x[1], x[2][:q] + x[2][q + 1:]]] + o[i + 1:])


def describe(case):
    return "\n".join(hist(case).ls) if case["k"] != "full" else repr(case)
