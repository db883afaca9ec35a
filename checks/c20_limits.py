"""C20 limits and options are obeyed."""
import json, os, random, re, time
from vlib import build, engine, fol, gkc, proofread
from vlib.engine import ok, viol, skip
from checks import c10_kb, c12_repeat

PROP = "C20"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated command lines with one planted mistake, equivalent command lines, clause limits against printed proofs, ordered run lists, time and memory limits"
LEVEL_NOTE = "sampled; durations are judged with a margin of 20 s so that a loaded machine gives no alarm"
RULE = ("options: a command line which proves a small problem, and the same line with one mistake (unknown or misspelt option, missing or bad number, missing file, malformed strategy, missing argument, forbidden combination): an error, no result and a non-zero exit.  "
        "same: equivalent command lines (order of options and files, -text for a file, split files, strategy as text or file, the command given or not) print the same.  "
        "clauses: problems of C02, C03, C06, C07, C09, C18 and chains with size, length and depth limits: a derived clause of the printed proof never exceeds the limit, a proof is found only if the problem is unsatisfiable, and limits larger than anything occurring change no byte.  "
        "runs: a list whose first run proves alone prints what this run prints alone; a setting before the list holds in all runs and a setting of a run does not hold in the next ones.  "
        "time: endless problems with generated -seconds, total_seconds, max_seconds, max_dseconds and workers end in time with exactly one result of the right kind; a later run of a list gets its turn after the time of the first one is over.  "
        "memory: small -mbsize values end with a result or an error and never with a proof of a satisfiable problem.  "
        "Non-trivial: options - the line without the mistake proves; clauses - a proof with derived clauses or a proof lost by the limit; others - the compared runs end with a result.  Distinct by command line and problem text.")
ASSUMPTIONS = ["clauses cut or merged in the next step and those of strategies which keep unfinished hyperresolvents are intermediate and not limited",
               "runs which use more than a small share of their time limit are not compared byte by byte"]
CHUNK = 6
PROCS = 8


def prepare(tier):
    return {"kb": {k: c10_kb.inner(k).prepare(tier) for k in c10_kb.INNER}, "gkc": build.build("small", "builtin")}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(a, int(n * k)) for a, n in (("options", 1500), ("same", 500), ("clauses", 2500), ("runs", 500), ("time", 24), ("memory", 250))]


# ---------------------------------------------------------------- generation

OPTS = ["-mbnr", "-mbsize", "-parallel", "-seconds", "-print"]
FLAGS = ["-tptp", "-json", "-derived", "-convert", "-clausify"]
WORD = "abcdefghijklmnopqrstuvwxyz"


def badstrategy(r):
    good = json.dumps(c12_repeat.strategy(r))
    k = r.randrange(7)
    if k == 0:
        return r.choice(["[]", "{", "", "[", "}", "]", "{]", "unit", "strategy", "{\"strategy\"", "{\"strategy\":", "{\"strategy\":[\"unit\"}", "{:1}"])
    if k == 1:                                  # truncated
        return good[:r.randrange(1, len(good))]
    if k == 2:
        return good.replace('"', "'")
    if k == 3:                                  # missing comma
        return '{"max_seconds":%d "max_size":%d}' % (r.randrange(1, 5), r.randrange(1, 50))
    if k == 4:
        return '{"max_size":%d,}' % r.randrange(50)
    if k == 5:
        return good.replace(":", " ", 1)
    return "".join(r.choice(WORD) for _ in range(r.randrange(1, 6)))


def mistake(r):
    """(place, args): to be added to a good command line; place 'option', 'replace' (the whole line)."""
    k = r.choices(["unknown", "missing", "number", "range", "file", "stratfile", "strat", "dir", "combine", "many", "command"],
                  [3, 2, 3, 2, 2, 1, 3, 1, 1, 1, 2])[0]
    if k == "unknown":
        o = r.choice(OPTS + FLAGS + ["-text", "-jstext", "-strategy", "-strategytext", "-prove", "-usekb", "-help"])
        m = r.randrange(5)
        if m == 0:
            w = o + r.choice(["s", "x", "1", "_", "=3", "text2", " "])
        elif m == 1:
            w = o[:-1]
        elif m == 2:
            w = "-" + o
        elif m == 3:
            w = "-" + "".join(r.choice(WORD) for _ in range(r.randrange(1, 9)))
        else:
            w = o.upper()
        known = OPTS + FLAGS + ["-text", "-jstext", "-strategy", "-strategytext", "-prove", "-usekb", "-readkb", "-writekb", "-loadkb",
                                "-deletekb", "-readwritekb", "-help", "--help", "-version", "--version"]
        if w in known or w == "-":
            w = "-unknownword"
        return k, "option", [w] + ([str(r.randrange(1, 9))] if r.random() < 0.3 else [])
    if k == "missing":
        return k, "last", [r.choice(OPTS + ["-text", "-jstext", "-strategy", "-strategytext"])]
    if k == "number":
        return k, "option", [r.choice(OPTS), r.choice(["abc", "x1", "-", "", "5x", "1 2", "99999999999999999999", "1.5", "-text", "--5", "0x"]) if r.random() < 0.7
                             else "".join(r.choice(WORD + "0123456789") for _ in range(3)) + r.choice(WORD)]
    if k == "range":
        o = r.choice(OPTS)
        n = -r.randrange(1, 1000)
        if o == "-mbsize" and r.random() < 0.6:
            n = r.choice([r.randrange(0, 10), 100000, r.randrange(100000, 10 ** 9)])
        if o == "-mbnr" and r.random() < 0.5:
            n = 0
        if o == "-parallel" and r.random() < 0.5:
            n = r.randrange(10000, 10 ** 9)
        return k, "option", [o, str(n)]
    if k == "file":
        return k, "option", [r.choice(["missing.txt", "no/such/file.p", "missing.js", "missing.jss", "missing", " "])]
    if k == "dir":
        return k, "option", ["%DIR%"]
    if k == "stratfile":
        return k, "option", ["-strategy", r.choice(["missing.json", "no/such.txt", "%DIR%", "%EMPTY%", "%BAD%"])]
    if k == "strat":
        return k, "option", ["-strategytext", badstrategy(r)]
    if k == "combine":
        return k, "option", ["-json", "-tptp"]
    if k == "many":
        return k, "option", r.choice([["%FILE%"] * 10, ["-text", "p(a)."] * 10, ["-jstext", "[]"] * 10])
    return k, "replace", r.choice([["-prove"], ["-usekb"], ["-usekb", "%FILE%", "-mbnr", "%NR%"], ["-readkb"], ["-writekb"], ["-loadkb"], ["-readwritekb"],
                                   ["-readwritekb", "%FILE%"], ["-writekb", "out.dump", "-mbnr", "%NR%"], ["-loadkb", "missing.dump", "-mbnr", "%NR%"],
                                   ["-readkb", "missing.txt", "-mbnr", "%NR%", "-mbsize", "1000"], ["-readkb", "%FILE%", "-mbsize", "50"],
                                   ["-usekb", "%FILE%", "-clausify", "-mbnr", "%NR%"], ["-seconds", "2"], ["-clausify"], ["-convert"]])


def goodargs(r):
    """Options which do not keep the small problem from being proved."""
    a = [["-print", "10"]]
    for o in (["-seconds", str(r.choice([5, 10, 30]))], ["-parallel", str(r.choice([0, 0, 2]))], ["-mbsize", str(r.choice([50, 100]))], ["-json"], ["-tptp"]):
        if r.random() < 0.4 and not (o[0] == "-tptp" and ["-json"] in a):
            a.append(o)
    if r.random() < 0.3:
        a.append(["-strategytext", '{"strategy":["unit"]}'])
    r.shuffle(a)
    return a


def chain(r):
    """Clauses whose proof needs deep terms, long clauses or many symbols."""
    n = r.randrange(2, 8)
    k = r.randrange(4)
    a, x, y = ["f", "a"], ["v", "X"], ["v", "Y"]

    def f(t, m):
        for _ in range(m):
            t = ["f", "s", t]
        return t
    neg = lambda l: ["~", l]
    if k == 0:
        return [[["p", "p", a]], [neg(["p", "p", x]), ["p", "p", ["f", "s", x]]], [neg(["p", "p", f(a, n)])]]
    if k == 1:                                   # long clauses
        return [[["p", "p", ["f", "c%d" % i]] for i in range(n)]] + [[neg(["p", "p", ["f", "c%d" % i]]), ["p", "q", ["f", "d%d" % i]], ["p", "r", ["f", "d%d" % i]]] for i in range(n)] + \
               [[neg(["p", "q", x])], [neg(["p", "r", x])]]
    if k == 2:                                   # wide terms
        return [[["p", "p", a, a]], [neg(["p", "p", x, y]), ["p", "p", ["f", "g", x, y], ["f", "g", y, x]]], [neg(["p", "p", x, y]), neg(["p", "t", x])],
                [["p", "t", f_wide(a, r.randrange(1, 4))]]]
    return [[["=", ["f", "h", x], ["f", "s", ["f", "s", x]]]], [["p", "p", f_h(a, min(n, 4))]], [neg(["p", "p", f(a, 2 * min(n, 4))])]]


def f_wide(t, n):
    for _ in range(n):
        t = ["f", "g", t, t]
    return t


def f_h(t, n):
    for _ in range(n):
        t = ["f", "h", t]
    return t


def inner(r, i, kinds, weights):
    k = r.choices(kinds, weights)[0]
    m = c10_kb.inner(k)
    for _ in range(30):
        pl = m.plan("quick")
        c = m.gen(r.choices([p[0] for p in pl], [p[1] for p in pl])[0], r, i, "quick")
        if c is not None:
            return {"inner": k, "case": c}
    return None


def gen(kind, r, i, tier):
    q = {"kind": kind, "json": r.random() < 0.4, "seed": r.randrange(1 << 30)}
    if kind == "options":
        k, place, a = mistake(r)
        q.update(what=k, place=place, args=a, good=goodargs(r), pos=r.random(), filepos=r.random())
        return q
    if kind == "time":
        # what bounds the run, in seconds
        how = r.choice(["seconds", "seconds", "total", "max", "dmax", "list", "parallel", "listpar"])
        q.update(how=how, s=r.choice([1, 1, 2, 3]), hard=r.randrange(len(HARD)), workers=r.choice([2, 3, 4]),
                 strat=r.choice(["negative_pref", "unit", "query_focus", "hardness_pref", "positive_pref"]))
        return q
    if kind == "clauses" and r.random() < 0.4:
        q["clauses"] = chain(r)
        q["inner"] = "chain"
    else:
        c = inner(r, i, list(c10_kb.INNER), [3, 2, 1, 1, 1, 1, 1])
        if c is None:
            return None
        q.update(c)
    if kind == "clauses":
        s = c12_repeat.strategy(r)
        for k in ("max_weight", "max_size", "max_length", "max_depth"):
            s.pop(k, None)
        q["strat"] = s
        q["limits"] = {k: r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) for k in r.sample(["max_size", "max_length", "max_depth"], r.choice([1, 1, 1, 2, 3]))}
        if r.random() < 0.15:
            q["limits"] = {k: r.choice([10 ** 6, 10 ** 8, 2 ** 31 - 1]) for k in r.sample(["max_size", "max_length", "max_depth", "max_weight"], 2)}
        q["nest"] = r.random() < 0.3
    elif kind == "runs":
        q["strat"] = [c12_repeat.strategy(r) for _ in range(r.randrange(2, 4))]
        q["how"] = r.choice(["first", "first", "before", "leak"])
        q["lim"] = [r.choice(["max_size", "max_length", "max_depth", "max_weight"]), r.choice([1, 2, 3])]
    elif kind == "memory":
        q["mb"] = r.choice([10, 10, 11, 12, 15, 20, 30])
        q["strat"] = c12_repeat.strategy(r) if r.random() < 0.7 else None
    else:
        q["strat"] = c12_repeat.strategy(r)
    return q


# endless searches: each text has no proof to be found soon
HARD = [c12_repeat.HARD,
        "-m(X,X). m(X,Y) | -n(X,Y). -n(X,Y) | -n(Y,Z) | n(f(X,Y),g(Z)). n(a,b). n(b,c). n(c,a). n(X,g(X)) | k(X). -k(f(X,Y)) | k(X) | k(Y).\n",
        "f(X,f(Y,Z)) = f(f(X,Y),Z). f(X,Y) = f(Y,X). f(a,g(a)) != f(b,h(c)). g(f(X,Y)) = f(g(Y),g(X)) | p(X). -p(f(X,a)) | p(h(X)).\n"]
SMALL = "p(a).\n-p(X) | q(X).\n-q(a).\n"


# ---------------------------------------------------------------- running

def bad_result(out):
    return re.search(r"proof found|answer found|proof not found|SZS status|^answer:", out, re.M)


def size(t):
    return 1 + sum(size(a) for a in t[2:]) if t[0] == "f" and len(t) > 2 else 1 + sum(size(a) for a in t[1]) if t[0] == "l" else 1


def tdepth(t):
    if t[0] == "f" and len(t) > 2:
        return 1 + max(tdepth(a) for a in t[2:])
    return 0


def lit(l):
    while l[0] == "~":
        l = l[1]
    return (l[1], l[2:]) if l[0] == "p" else (l[0], l[1:])


def measures(c):
    """(length, least size, least depth) of a clause without its answers."""
    ls = [lit(l) for l in c]
    ls = [x for x in ls if x[0] != "$ans"]
    sz = sum(1 + sum(size(a) for a in x[1]) for x in ls)
    dp = max([max([tdepth(a) for a in x[1]] or [0]) for x in ls] or [0])
    return len(ls), sz, dp


def text_of(case, env):
    if case["inner"] == "chain":
        t = "\n".join(fol.cstr(c) if hasattr(fol, "cstr") else clause(c) for c in case["clauses"]) + "\n"
        return gkc.write("problem.txt", t)
    return c12_repeat.problem(case, env)


def clause(c):
    return " | ".join(("-" + fol.fstr(l[1])) if l[0] == "~" else fol.fstr(l) for l in c) + "."


def go(env, p, strat, seconds=10, par=0, mb=60, js=False, print_=10, timeout=60):
    return gkc.run(env["gkc"], c12_repeat.args(p, {"json": js}, strat, seconds=seconds, par=par, mb=mb), timeout=timeout)


def desc(text, *rs):
    return "".join("\n%s\n%s" % (" ".join(map(repr, r.cmd[1:])), r.out[:1500]) for r in rs) + "\nproblem:\n" + text[:3000]


def run_options(case, env, lab):
    d = os.path.join(engine.scratch(), "c20")
    os.makedirs(os.path.join(d, "dir"), exist_ok=True)
    for n, t in (("small.txt", SMALL), ("empty.json", ""), ("bad.json", "{\"strategy\":[\"unit\"")):
        with open(os.path.join(d, n), "w") as fh:
            fh.write(t)
    sub = {"%DIR%": "dir", "%EMPTY%": "empty.json", "%BAD%": "bad.json", "%FILE%": "small.txt", "%NR%": str(1 + (os.getpid() * 7 + 300000) % 2000000)}
    lab.append("mistake:" + case["what"])
    good = [list(o) for o in case["good"]]
    fp = int(case["filepos"] * (len(good) + 1))
    line = good[:fp] + [["small.txt"]] + good[fp:]
    base = gkc.run(env["gkc"], [x for o in line for x in o], cwd=d, timeout=40)
    if base.rc != 0 or not base.proof or base.error:
        return viol("a good command line does not prove" + desc(SMALL, base), lab)
    bad = [sub.get(x, x) for x in case["args"]]
    if case["place"] == "replace":
        a = bad
    elif case["place"] == "last":
        a = [x for o in line for x in o] + bad
    else:
        k = int(case["pos"] * (len(line) + 1))
        a = [x for o in line[:k] for x in o] + bad + [x for o in line[k:] for x in o]
    if bad[0] == "-strategytext":               # the last one given counts
        k = [i for i, o in enumerate(line) if o[0] != "-strategytext"]
        a = [x for i in k for x in line[i]] + bad
    if bad[0] == "-strategy" and "-strategytext" in a:
        a = [x for o in line if o[0] != "-strategytext" for x in o] + bad
    x = gkc.run(env["gkc"], a, cwd=d, timeout=60)
    if x.crashed or x.timeout:
        return viol("a mistaken command line crashes or hangs (%s)" % x.rc + desc(SMALL, x), lab)
    if bad_result(x.out):
        return viol("a mistaken command line gives a result" + desc(SMALL, x), lab)
    if not re.search("error", x.out, re.I):
        return viol("a mistaken command line gives no error" + desc(SMALL, x), lab)
    if x.rc == 0 and case["what"] != "combine":
        return viol("a mistaken command line exits with 0" + desc(SMALL, x), lab)
    return ok(True, json.dumps(a), lab)


def run_time(case, env, lab):
    p = gkc.write("hard.txt", HARD[case["hard"]])
    s, how = case["s"], case["how"]
    lab.append("bound:" + how)
    one = {"strategy": [case["strat"]], "query_preference": 0}
    proving = {"strategy": ["negative_pref"], "query_preference": 0}
    par, secs, st, want = 0, 60, dict(one), "noproof"
    if how == "seconds":
        secs, want = s, "limit"
    elif how == "total":
        st, want = {"total_seconds": s, "runs": [one, one]}, None
    elif how == "max":
        st["max_seconds"] = s
    elif how == "dmax":
        st["max_dseconds"] = s * 5
    elif how == "list":
        st = {"runs": [dict(one, max_seconds=s), dict(one, max_dseconds=5), dict(one, max_size=1)]}
    elif how == "parallel":
        par, secs, want, st = case["workers"], s, "limit", {"runs": [one] * case["workers"]}
    else:
        par, st = case["workers"], {"runs": [dict(one, max_seconds=s), dict(one, max_dseconds=5)] * case["workers"]}
    t0 = time.time()
    x = go(env, p, st, seconds=secs, par=par, mb=500, js=case["json"], timeout=secs + 60)
    dt = time.time() - t0
    bound = {"dmax": s * 0.5, "list": s + 0.5, "listpar": case["workers"] * (s + 0.5)}.get(how, s)
    if x.timeout or dt > bound + 20:
        return viol("ends after %.1f s, limit %s s" % (dt, bound) + desc(HARD[case["hard"]], x), lab)
    if x.crashed or x.proof:
        return viol("crash or proof" + desc(HARD[case["hard"]], x), lab)
    if how in ("seconds", "parallel") and x.time_limit and dt < s - 0.5:
        return viol("time limit reported after %.1f s, limit %s s" % (dt, s) + desc(HARD[case["hard"]], x), lab)
    n = c12_repeat.results(x.out)
    if n != 1 and not (x.error):
        return viol("%d results" % n + desc(HARD[case["hard"]], x), lab)
    if want == "noproof" and x.time_limit:
        return viol("time limit instead of no proof" + desc(HARD[case["hard"]], x), lab)
    lab.append("ended:%s" % ("limit" if x.time_limit else "noproof"))
    if how == "list":                             # the next run gets its turn
        q = gkc.write("hard2.txt", HARD[case["hard"]] + "zz(a1). -zz(b1). a1 = b1.\n")
        y = go(env, q, {"runs": [dict(one, equality=0, max_seconds=s), dict(proving)]}, seconds=60, mb=500, js=case["json"], timeout=120)
        if not y.proof:
            return viol("the run after one which ran out of its time finds no proof" + desc(HARD[case["hard"]], y), lab)
    return ok(dt > 0.2, json.dumps(case), lab)


def run(case, env):
    lab = ["kind:" + case["kind"]]
    if case["kind"] == "options":
        return run_options(case, env, lab)
    if case["kind"] == "time":
        return run_time(case, env, lab)
    p = text_of(case, env)
    if p is None:
        return skip("no problem file", lab)
    text = open(p, errors="replace").read()
    lab.append("inner:" + case["inner"])
    key = json.dumps([text, case.get("strat"), case.get("limits"), case.get("mb"), case["json"]])
    js = case["json"]
    c0 = c12_repeat.cpu()
    if case["kind"] == "clauses":
        st, lim = case["strat"], case["limits"]
        free = go(env, p, st)
        if c12_repeat.cpu() - c0 > 1:
            return skip("long", lab)
        big = all(v > 10 ** 5 for v in lim.values())
        s2 = dict(lim, runs=[st]) if case["nest"] else dict(st, **lim)
        x = go(env, p, s2)
        if x.crashed or free.crashed:
            return viol("crash" + desc(text, free, x), lab)
        if x.timeout or x.time_limit or c12_repeat.cpu() - c0 > 3:
            return skip("long", lab)
        if x.error != free.error:
            return viol("limits change an error" + desc(text, free, x), lab)
        if big:
            if c12_repeat.body(x.out) != c12_repeat.body(free.out):
                return viol("unreachable limits change the output" + desc(text, free, x), lab)
            return ok(x.proof, key, lab + ["unreachable"])
        if not x.proof:
            if free.proof:
                lab.append("lost")
            return ok(free.proof, key, lab)
        if not free.proof:
            lab.append("gained")
        try:
            prs = proofread.text_proofs(x.out)
        except Exception as ex:
            return skip("proof not read", lab)
        n = 0
        for ans, steps in prs:
            used = {a: s["rule"] for s in steps for a in s["srcs"]}
            for s in steps:
                if s["rule"] not in ("mp", "=") or not s["clause"]:
                    continue
                if "hyper" in st.get("strategy", []):
                    continue
                n += 1
                ms = dict(zip(("max_length", "max_size", "max_depth"), measures(s["clause"])))
                for k, v in lim.items():
                    if ms[k] > v and used.get(s["id"]) not in ("merge", "simp"):
                        return viol("step %s has %s %d, limit %d" % (s["id"], k, ms[k], v) + desc(text, x), lab)
        return ok(n > 0, key, lab + ["proof"])
    if case["kind"] == "memory":
        ref = go(env, p, case["strat"], js=js)
        if c12_repeat.cpu() - c0 > 1:
            return skip("long", lab)
        x = go(env, p, case["strat"], mb=case["mb"], js=js)
        if x.crashed or x.timeout:
            return viol("crash or hang with little memory" + desc(text, x, ref), lab)
        if x.proof and not ref.proof:
            lab.append("gained")
        if not x.error and ref.error:
            return viol("an error disappears with little memory" + desc(text, x, ref), lab)
        if not x.error and not x.proof and not x.noproof and ref.verdict() in ("proof", "noproof"):
            return viol("neither result nor error" + desc(text, x, ref), lab)
        return ok(x.verdict() != "none", key, lab + ["mem:" + x.verdict()])
    if case["kind"] == "same":
        return run_same(case, env, lab, p, text, key)
    # runs
    st, how = case["strat"], case["how"]
    lab.append("how:" + how)
    x = go(env, p, st[0], js=js)
    if c12_repeat.cpu() - c0 > 1 or x.error:
        return skip("long or error", lab)
    if how == "first":
        if not x.proof:
            return skip("first run without a proof", lab)
        y = go(env, p, {"runs": st}, js=js)
    elif how == "before":                        # a setting before the list holds in its runs
        k, v = case["lim"]
        x = go(env, p, dict(st[0], **{k: v}), js=js)
        y = go(env, p, {k: v, "runs": [st[0]]}, js=js)
    else:                                        # a setting of an earlier run is not kept
        k, v = case["lim"]
        y = go(env, p, {"runs": [dict(st[1], max_weight=1, **({k: v} if k != "max_weight" else {})), st[0]]}, js=js)
    if c12_repeat.cpu() - c0 > 4:
        return skip("long", lab)
    if how == "leak":
        if x.proof and not y.proof:
            return viol("a run after a limited one finds nothing" + desc(text, x, y), lab)
        return ok(x.proof, key, lab)
    if c12_repeat.body(x.out) != c12_repeat.body(y.out):
        return viol("the list differs from its run" + desc(text, x, y), lab)
    return ok(x.proof, key, lab)


def run_same(case, env, lab, p, text, key):
    r = random.Random(case["seed"])
    d = os.path.dirname(p)
    js = p.endswith((".js", ".json", ".jss"))
    sf = gkc.write("strat.json", json.dumps(case["strat"]))
    opts = [["-mbsize", "60"], ["-print", "10"], ["-parallel", "0"], ["-seconds", "10"], ["-strategytext", json.dumps(case["strat"])]]
    if case["json"]:
        opts.append(["-json"])
    c0 = c12_repeat.cpu()
    base = gkc.run(env["gkc"], [p] + [x for o in opts for x in o], cwd=d, timeout=60)
    if c12_repeat.cpu() - c0 > 1:
        return skip("long", lab)
    o2 = [list(o) for o in opts]
    how = []
    if r.random() < 0.4:
        o2[4] = ["-strategy", sf]
        how.append("stratfile")
    if r.random() < 0.4:
        o2.insert(0, ["-prove"])
        how.append("prove")
    if r.random() < 0.3:
        o2.insert(0, ["-seconds", "7"])          # a later value replaces it
        o2.insert(0, ["-print", "12"])
        how.append("twice")
    fixed = [o for o in o2 if o[0] in ("-seconds", "-print")]
    rest = [o for o in o2 if o[0] not in ("-seconds", "-print")]
    inp = [[p]]
    if r.random() < 0.4 and len(text) < 60000 and text.isascii() and "\0" not in text and "include" not in text:
        inp = [["-jstext" if js else "-text", text]]
        how.append("text")
    line = rest + inp
    r.shuffle(line)
    ks = sorted(r.randrange(len(line) + 1) for _ in fixed)
    for n, (k, o) in enumerate(zip(ks, fixed)):
        line.insert(k + n, o)
    x = gkc.run(env["gkc"], [w for o in line for w in o], cwd=d, timeout=60)
    if c12_repeat.cpu() - c0 > 4:
        return skip("long", lab)
    lab += ["how:" + h for h in how]
    if x.crashed or x.rc != base.rc:
        return viol("other exit of an equivalent command line" + desc(text, base, x), lab)

    def body(o):
        o = re.sub(r"^for .*\n", "", o, flags=re.M)
        o = re.sub(r'"file": "[^"]*",? ?', "", o)
        return re.sub(r"in [^ ]*problem[^ ]*", "in FILE", o).replace(p, "FILE").strip()
    if x.error and base.error and "text" in how:
        return ok(False, key, lab)
    if body(x.out) != body(base.out):
        return viol("other output of an equivalent command line" + desc(text, base, x), lab)
    return ok(base.proof or base.noproof, key, lab)


def shrinks(case):
    if case["kind"] == "options":
        for i in range(len(case["good"])):
            if case["good"][i] != ["-print", "10"]:
                yield dict(case, good=case["good"][:i] + case["good"][i + 1:])
        return
    if "case" in case:
        for c in c10_kb.inner(case["inner"]).shrinks(case["case"]):
            yield dict(case, case=c)
    if isinstance(case.get("strat"), dict):
        for k in list(case["strat"]):
            yield dict(case, strat={a: b for a, b in case["strat"].items() if a != k})
    if "limits" in case and len(case["limits"]) > 1:
        for k in case["limits"]:
            yield dict(case, limits={a: b for a, b in case["limits"].items() if a != k})


def describe(case):
    return json.dumps({k: v for k, v in case.items() if k != "case"})[:3000]
