"""C08 answers are correct and complete for rule bases."""
import itertools, json
from vlib import build, gkc, lang, proofread, builtin, sat
from vlib.engine import ok, viol, skip

PROP = "C08"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: reported answers against a bottom-up evaluation of generated rule bases"
LEVEL_NOTE = "sampled; the oracle is exact"
RULE = ("Rule bases (facts, also with variables; rules with one to three conditions, recursive or not, with nested terms, integers, strings, arithmetic and comparison "
        "of integers, and conditions on list elements; for one kind also rules with alternatives, for one merged names) and questions of one to three conditions or alternatives, with repeated and "
        "existential variables, constants and nested terms, are written in a random language and run with a random answer limit and strategy.  The reference evaluates the rules bottom up to a fixed point.  "
        "Every reported answer must follow, none may be reported twice, at most the limit, and all of them or as many as the limit (with a strategy that finishes on the base).  "
        "Non-trivial: the question has an answer which needs a rule or at least two conditions.  Distinct by problem text and strategy.")
ASSUMPTIONS = ["runs that do not finish in 1 to 3 s, and again in 15 s when fewer answers than asked for exist, are not judged for completeness"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin")}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("datalog", 2500 * k), ("recursive", 1500 * k), ("terms", 1800 * k), ("arith", 1200 * k), ("open", 900 * k), ("alt", 1500 * k), ("merge", 900 * k)]


# terms: lang terms; ground terms compared by their JSON text

V = lambda n: ["v", n]
K = lambda t: json.dumps(t)


def subst(t, b):
    if t[0] == "v":
        return b.get(t[1], t)
    if t[0] in ("f", "p"):
        return t[:2] + [subst(x, b) for x in t[2:]]
    return t


def match(p, t, b):
    """Extend the binding b so that p becomes the ground term t, or None."""
    if p[0] == "v":
        if p[1] in b:
            return b if b[p[1]] == t else None
        return dict(b, **{p[1]: t})
    if p[0] in ("f", "p"):
        if t[0] != p[0] or t[1] != p[1] or len(t) != len(p):
            return None
        for x, y in zip(p[2:], t[2:]):
            b = match(x, y, b)
            if b is None:
                return None
        return b
    return b if p == t else None


def vars_of(t, out=None):
    out = [] if out is None else out
    if t[0] == "v":
        if t[1] not in out:
            out.append(t[1])
    elif t[0] in ("f", "p"):
        for x in t[2:]:
            vars_of(x, out)
    return out


def val(t, b):
    """Value of an arithmetic term under b, or None."""
    t = subst(t, b)
    if t[0] == "i":
        return t[1]
    if t[0] == "f" and t[1] in ("$sum", "$difference", "$product"):
        x, y = val(t[2], b), val(t[3], b)
        if x is None or y is None:
            return None
        return x + y if t[1] == "$sum" else x - y if t[1] == "$difference" else x * y
    return None


BUILTIN = {"$less": lambda x, y: x < y, "$lesseq": lambda x, y: x <= y, "$greater": lambda x, y: x > y, "$greatereq": lambda x, y: x >= y}


def calc(t, b):
    if t[0] == "f" and t[1][0] == "$" and len(t) == 4 and t[1] in ("$sum", "$difference", "$product"):
        n = val(t, b)
        if n is None or abs(n) > 10 ** 6:
            raise TooBig
        return ["i", n]
    if t[0] in ("f", "p"):
        return t[:2] + [calc(x, b) for x in t[2:]]
    return subst(t, b)


steps = [0]


def solve(body, db, b):
    """All bindings of the body over the facts db {pred/arity: {key: atom}}; comparisons come after their variables are bound."""
    if not body:
        yield b
        return
    h, rest = body[0], body[1:]
    if h[1] in BUILTIN:
        x, y = val(h[2], b), val(h[3], b)
        if x is not None and y is not None and BUILTIN[h[1]](x, y):
            yield from solve(rest, db, b)
        return
    for a in list(db.get((h[1], len(h)), {}).values()):
        steps[0] += 1
        if steps[0] > 150000:
            raise TooBig
        c = match(h, a, b)
        if c is not None:
            yield from solve(rest, db, c)


class TooBig(Exception):
    pass


def closure(facts, rules, limit=250):
    db = {}
    steps[0] = 0

    def put(a):
        d = db.setdefault((a[1], len(a)), {})
        k = K(a)
        if k in d:
            return False
        d[k] = a
        if sum(len(x) for x in db.values()) > limit:
            raise TooBig
        return True
    for a in facts:
        put(a)
    ch = True
    while ch:
        ch = False
        for h, body in rules:
            for b in list(solve(body, db, {})):
                a = calc(h, b)
                if len(K(a)) > 300:
                    raise TooBig
                ch |= put(a)
    return db


def answers(case):
    """Keys of the ground answer tuples (argument lists)."""
    db = closure(case["facts"], case["rules"])
    out = {}
    for body in case["question"]:
        for b in solve(body, db, {}):
            t = [subst(V(v), b) for v in case["vars"]]
            out[K(t)] = t
    return out


# ---------------------------------------------------------------- generation

def gen(kind, r, i, tier):
    while True:
        c = gen1(kind, r)
        if c:
            return c


def gen1(kind, r):
    consts = [["f", x] for x in "abcdefg"[:r.randint(2, 6)]]
    if r.random() < 0.3:
        consts += [["i", r.randint(-2, 5)]]
    if r.random() < 0.2:
        consts += [["s", r.choice(["a", "x y", "1", "A"])]]
    if r.random() < 0.2:
        consts += [["f", r.choice(["a b", "Abc", "X", "12", "a'b"])]]
    ints = [["i", n] for n in r.sample(range(-4, 15), 4)]
    np = r.randint(2, 5)
    preds = [("pqrst"[k] if r.random() < 0.9 else "p", r.choice([1, 1, 2, 2, 2, 3])) for k in range(np)]
    preds = list(dict.fromkeys(preds))
    typed = {}
    for n, a in preds:   # which positions hold integers (arith)
        typed[(n, a)] = [kind == "arith" and r.random() < 0.5 for _ in range(a)]
    fs = r.choice([[("f", 1)], [("f", 1), ("g", 2)], [("g", 2)], [("s", 1), ("pair", 2)]])

    def gterm(d):
        if kind == "terms" and d and r.random() < 0.4:
            n, a = r.choice(fs)
            return ["f", n] + [gterm(d - 1) for _ in range(a)]
        return r.choice(consts)

    def fact():
        n, a = r.choice(preds[:max(2, len(preds) * 2 // 3)])
        return ["p", n] + [r.choice(ints) if typed[(n, a)][k] else gterm(2) for k in range(a)]
    facts = [fact() for _ in range(r.randint(2, 10))]
    facts = [json.loads(x) for x in dict.fromkeys(K(f) for f in facts)]

    def body(avail, n, pool, ipool):
        out = []
        for _ in range(n):
            p, a = r.choice(avail)
            args = []
            for k in range(a):
                if typed[(p, a)][k]:
                    args.append(V(r.choice(ipool)) if r.random() < 0.9 else r.choice(ints))
                elif kind == "terms" and r.random() < 0.3:
                    fn, fa = r.choice(fs)
                    args.append(["f", fn] + [V(r.choice(pool)) if r.random() < 0.8 else r.choice(consts) for _ in range(fa)])
                else:
                    args.append(V(r.choice(pool)) if r.random() < 0.85 else gterm(1))
            out.append(["p", p] + args)
        iv = [v for a in out for k, x in enumerate(a[2:]) if typed[(a[1], len(a) - 2)][k] for v in vars_of(x)]
        if iv and r.random() < 0.6:
            x = V(r.choice(iv))
            y = r.choice([r.choice(ints), V(r.choice(iv)), ["f", r.choice(["$sum", "$difference", "$product"]), V(r.choice(iv)), r.choice(ints)]])
            out.append(["p", r.choice(list(BUILTIN))] + ([x, y] if r.random() < 0.5 else [y, x]))
        return out, iv
    rules = []
    for _ in range(r.randint(0 if kind != "recursive" else 1, 4)):
        hi = r.randrange(len(preds))
        h, a = preds[hi]
        if kind in ("recursive", "merge", "open"):
            avail = preds
        else:
            hi = max(1, hi)
            h, a = preds[hi] if len(preds) > 1 else preds[0]
            avail = preds[:hi] or preds
        b, iv = body(avail, r.choice([1, 1, 2, 2, 3]), ["X", "Y", "Z", "W"][:r.randint(2, 4)], ["M", "N"])
        vs = [v for x in b if x[1] not in BUILTIN for v in vars_of(x) if v not in iv]
        args = []
        for k in range(a):
            if typed[(h, a)][k]:
                if iv and r.random() < 0.85:
                    x = V(r.choice(iv))
                    args.append(x if r.random() < 0.6 else ["f", r.choice(["$sum", "$difference", "$product"]), x, r.choice(ints)])
                else:
                    args.append(r.choice(ints))
            elif vs and r.random() < 0.9:
                x = V(r.choice(vs))
                if kind == "terms" and r.random() < 0.25:
                    fn, fa = r.choice(fs)
                    x = ["f", fn] + [x] + [V(r.choice(vs)) for _ in range(fa - 1)]
                args.append(x)
            else:
                args.append(r.choice(consts))
        head = ["p", h] + args
        if kind == "terms" and any(x[1] == h for x in b):
            continue
        rules.append([head, b])
    nalt = 1 if r.random() < 0.85 else 2
    q0, iv = body(preds, r.choice([1, 1, 1, 2, 2, 3]), ["X", "Y", "Z"][:r.randint(1, 3)], ["M", "N"])
    alts = [q0]
    vs = vars_of(["p", "q"] + [x for x in q0])
    if nalt == 2:
        q1, _ = body(preds, r.choice([1, 2]), [v for v in vs if v not in iv] or ["X"], [v for v in vs if v in iv] or ["M"])
        alts.append(q1)
        vs = [v for v in vs if v in vars_of(["p", "q"] + q1)]
    syntax = r.choice(["simple", "simple", "tptp", "json"])
    jq = syntax == "json" and len(alts) == 1 and r.random() < 0.7
    if not vs:
        return None
    if not jq:
        vs = r.sample(vs, r.randint(1, len(vs)))
    case = {"kind": kind, "facts": facts, "rules": rules, "question": alts, "vars": vs, "syntax": syntax, "jq": jq}
    if kind == "open":
        # some facts hold for everything
        opn = []
        for _ in range(r.randint(1, 2)):
            n, a = r.choice(preds)
            opn.append(["p", n] + [V(r.choice("XYZ")) if r.random() < 0.7 else r.choice(consts) for _ in range(a)])
        case["open"] = opn
    if kind == "merge":
        cs = [c for c in consts if c[0] == "f"]
        case["eqs"] = [[r.choice(cs), r.choice(cs + [["f", "m", r.choice(cs)]])] for _ in range(r.randint(1, 2))]
    if kind == "alt":
        dj = []
        for _ in range(r.randint(1, 3)):
            b, _ = body(preds, r.choice([0, 0, 1, 1, 2]), ["X", "Y", "Z"], ["M", "N"])
            bv = vars_of(["p", "q"] + b)
            hs = []
            for _ in range(2 if r.random() < 0.8 else 3):
                n, a = r.choice(preds)
                hs.append(["p", n] + [V(r.choice(bv)) if bv and r.random() < 0.8 else r.choice(consts) for _ in range(a)])
            dj.append([hs, b])
        case["alts"] = dj
        if r.random() < 0.4:
            b, _ = body(preds, r.choice([1, 1, 2]), ["X", "Y"], ["M"])
            case["alts"].append([[], b])
    try:
        n = total(case)
    except TooBig:
        return None
    if n is None or n == 0 and r.random() < 0.7:
        return None
    term = kind not in ("recursive", "merge", "open")
    strat = r.choice([["unit"], ["hyper"], ["negative_pref"], ["positive_pref"], ["hornpref"], [], ["query_focus"]])
    if kind == "alt":
        strat = r.choice([["negative_pref"], ["positive_pref"], ["hyper"], []])
    if kind == "arith" and strat in (["query_focus"], ["positive_pref"]):
        strat = ["unit"]
    if kind == "merge":
        strat = r.choice([["negative_pref"], ["positive_pref"], ["hornpref"], []])
    s = {"strategy": strat}
    if not term and not n:
        return None
    bounded = not term and strat not in (["unit"], ["hyper"])
    if bounded:
        s["max_answers"] = r.randint(1, max(1, n))
    else:
        s["max_answers"] = r.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, n + 5, 50])
    if kind == "alt":
        s["max_answers"] = r.choice([1, 1, 1, 2, 3])
    if r.random() < 0.3 and strat != ["query_focus"]:
        s["query_preference"] = r.choice([0, 1, 2, 3])
    if r.random() < 0.1:
        s["equality"] = 0 if kind != "merge" else 1
    if r.random() < 0.1 and kind not in ("merge",):
        s["rewrite"] = 0
    order = list(range(len(case["facts"]) + len(rules) + len(case.get("open", [])) + len(case.get("alts", [])) + len(case.get("eqs", [])) + len(alts)))
    r.shuffle(order)
    case["order"] = order
    case["strategy"] = s
    case["bin"] = "plain" if r.random() < 0.02 else "gkc"
    case["arrow"] = r.random() < 0.5
    return case


# ---------------------------------------------------------------- references

def consts_of(case):
    out = {}

    def go(t):
        if t[0] in ("i", "s") or t[0] == "f" and len(t) == 2:
            out[K(t)] = t
        elif t[0] in ("f", "p"):
            for x in t[2:]:
                go(x)
    for x in case["facts"] + case.get("open", []) + [a for h, b in case["rules"] for a in [h] + b] + [a for b in case["question"] for a in b] + \
            [a for hs, b in case.get("alts", []) for a in hs + b]:
        go(x)
    for a, b in case.get("eqs", []):
        go(a)
        go(b)
    return list(out.values())


def total(case):
    """Number of answers to expect (None: undetermined)."""
    k = case["kind"]
    if k == "alt":
        return 1 if provable(case, None) else 0
    if k == "merge":
        return len(merged(case)[0])
    if k == "open":
        a = opened(case)
        return None if a is None else len(a)
    return len(answers(case))


def opened(case):
    """Answers as patterns: the open facts are instantiated over the constants and a fresh one standing for anything."""
    cs = consts_of(case) + [["f", "#any1"], ["f", "#any2"], ["f", "#any3"]]
    facts = list(case["facts"])
    for o in case["open"]:
        vs = vars_of(o)
        for c in itertools.product(cs, repeat=len(vs)):
            facts.append(subst(o, dict(zip(vs, c))))
    # heads with variables not in the body do not occur, so the fresh names spread only from the open facts
    db = closure(facts, case["rules"], 1500)
    out = {}
    for body in case["question"]:
        for b in solve(body, db, {}):
            t = [subst(V(v), b) for v in case["vars"]]
            out[K(t)] = t
    return out


def merged(case):
    """Answers with every constant replaced by a name of its class; and the class function."""
    from checks import c09_congruence as cc
    c = cc.CC()

    def ct(t):
        return t
    for a, b in case["eqs"]:
        c.union(c.add(a), c.add(b))
    cs = consts_of(case) + [x for e in case["eqs"] for x in e]
    rep = {}
    for x in sorted(cs, key=K):
        n = c.find(c.add(x))
        rep.setdefault(n, x)

    def norm(t):
        if t[0] == "p":
            return t[:2] + [norm(x) for x in t[2:]]
        if t[0] == "v":
            return t
        return rep.get(c.find(c.add(t)), t)
    m = dict(case, facts=[norm(f) for f in case["facts"]], rules=[[norm(h), [norm(x) for x in b]] for h, b in case["rules"]],
             question=[[norm(x) for x in b] for b in case["question"]], kind="datalog")
    if c.bad:
        raise TooBig
    return answers(m), norm


def provable(case, ans):
    """Does the disjunction of the answer tuples (None: some answer) follow from a base with alternatives?"""
    cs = consts_of(case) or [["f", "a"]]
    num = {}

    def lit(a):
        return num.setdefault(K(a), len(num) + 1)
    clauses = []

    def inst(heads, body):
        vs = vars_of(["p", "q"] + heads + body)
        if len(cs) ** len(vs) > 3000:
            raise TooBig
        for c in itertools.product(cs, repeat=len(vs)):
            b = dict(zip(vs, c))
            cl = [-lit(subst(a, b)) for a in body if a[1] not in BUILTIN] + [lit(subst(a, b)) for a in heads]
            clauses.append(cl)
    for f in case["facts"]:
        inst([f], [])
    for h, b in case["rules"]:
        inst([h], b)
    for hs, b in case["alts"]:
        inst(hs, b)
    for q in case["question"]:
        if ans is None:
            inst([], q)
        else:
            for t in ans:
                b0 = dict(zip(case["vars"], t))
                inst([], [subst(a, b0) for a in q])
    return sat.solve(clauses, len(num)) is None


# ---------------------------------------------------------------- running

def imp(head, body, arrow):
    if not body:
        return head if isinstance(head, list) and head and head[0] == "p" else head
    if arrow and head is not None:
        b = body[0] if len(body) == 1 else ["&"] + body
        return ["=>", b, head]
    lits = [["~", x] for x in body] + ([head] if head is not None else [])
    return lits[0] if len(lits) == 1 else ["|"] + lits


def forms(case):
    out = [f for f in case["facts"] + case.get("open", [])] + [imp(h, b, case["arrow"]) for h, b in case["rules"]]
    for hs, b in case.get("alts", []):
        h = None if not hs else hs[0] if len(hs) == 1 else ["|"] + hs
        if h is not None and h[0] == "|" and b and not case["arrow"]:
            out.append(["|"] + [["~", x] for x in b] + hs)
        else:
            out.append(imp(h, b, case["arrow"]))
    out += [["=", a, b] for a, b in case.get("eqs", [])]
    for q in case["question"]:
        if case["jq"]:
            ex = [v for v in vars_of(["p", "q"] + q) if v not in case["vars"]]
            out.append({"q": q, "ex": ex})
        else:
            out.append(["|"] + [["~", x] for x in q] + [["p", "$ans"] + [V(v) for v in case["vars"]]])
    return out


def problem(case):
    fs = forms(case)
    order = [k for k in case["order"] if k < len(fs)]
    order += [k for k in range(len(fs)) if k not in order]
    js, stm = [], []
    for k in order:
        f = fs[k]
        if isinstance(f, dict):
            q = f["q"][0] if len(f["q"]) == 1 else ["&"] + f["q"]
            q = lang.jform(q)
            if f["ex"]:
                q = ["exists", ["?:" + v for v in f["ex"]], q]
            js.append({"@question": q})
        else:
            s = {"name": "s%d" % k, "role": "axiom", "f": f, "cnf": lang.is_clause(f) and k % 2 == 0, "say": False}
            if case["syntax"] == "json":
                js += json.loads(lang.problem([s], "json", False))
            else:
                stm.append(s)
    if case["syntax"] == "json":
        return json.dumps(js, indent=0)
    t = lang.problem(stm, case["syntax"], False)
    for n in ["$ans", "$sum", "$difference", "$product"] + list(BUILTIN):
        t = t.replace("'%s'(" % n, n + "(")
    return t


def once(case, env, secs):
    p = gkc.write("p" + gkc.EXT[case["syntax"]], problem(case))
    return gkc.run(env[case["bin"]], [p, "-mbsize", 50, "-print", 10, "-json", "-parallel", 0, "-seconds", secs,
                                      "-strategytext", json.dumps(case["strategy"])], timeout=90)


def run(case, env):
    if case["jq"]:
        # all free variables, in the order of their first occurrence
        case = dict(case, vars=[v for v in vars_of(["p", "q"] + case["question"][0]) if v in case["vars"]])
    k = case["kind"]
    norm = None
    try:
        if k == "merge":
            exp, norm = merged(case)
        elif k == "open":
            exp = opened(case)
        elif k == "alt":
            exp = None
            want = provable(case, None)
        else:
            exp = answers(case)
    except TooBig:
        return skip("too big")
    lim = case["strategy"]["max_answers"]
    r = once(case, env, 1 if k == "alt" else 3)
    late = r.time_limit or r.verdict() == "hang"
    if late and (k == "alt" and want and lim == 1 or k != "alt" and len(exp) >= lim):
        r = once(case, env, 15)
        late = r.time_limit or r.verdict() == "hang"
    lab = ["kind:" + k, "strategy:" + "+".join(case["strategy"]["strategy"]), "syntax:" + case["syntax"]]
    desc = "\n%s\n%s\n%s" % (describe(case), " ".join(map(str, r.cmd[1:])), r.out[:3000])
    v = r.verdict()
    if v in ("crash", "error", "none"):
        return viol(v + desc, lab)
    if late:
        return skip("time", lab)
    got = []
    for x in proofread.json_values(r.out):
        for a in x.get("answers", []) if isinstance(x, dict) else []:
            if "answer" not in a:
                if k == "alt" and not provable(dict(case, question=[]), None) or k != "alt":
                    return viol("a contradiction without an answer is reported" + desc, lab)
                if k == "alt":
                    return ok(False, K([problem(case), case["strategy"]]), lab + ["contradictory"])
                continue
            got.append([l for l in proofread.json_clause(a["answer"])])
    if len(got) > lim:
        return viol("%d answers, limit %d" % (len(got), lim) + desc, lab)
    tuples = []
    for c in got:
        ts = []
        for l in c:
            if l[0] != "p" or l[1] != "$ans" or len(l) != 2 + len(case["vars"]):
                return viol("not an answer: %s" % K(l) + desc, lab)
            ts.append(l[2:])
        tuples.append(ts)
    if k == "alt":
        if want != bool(tuples):
            return viol("an answer exists: %s, reported: %d" % (want, len(tuples)) + desc, lab)
        seen = set()
        for ts in tuples:
            if any(vars_of(["p", "q"] + t) for t in ts):
                return viol("an answer with a variable" + desc, lab)
            if not provable(case, ts):
                return viol("answer does not follow: %s" % K(ts) + desc, lab)
            key = frozenset(K(t) for t in ts)
            if any(s <= key for s in seen):
                return viol("answer repeated: %s" % K(ts) + desc, lab)
            seen.add(key)
        return ok(want and any(len(t) > 1 for t in tuples), K([problem(case), case["strategy"]]), lab + ["answer size %d" % min(4, max([len(t) for t in tuples], default=0))])
    if any(len(t) != 1 for t in tuples):
        return viol("an indefinite answer from definite rules" + desc, lab)
    tuples = [t[0] for t in tuples]
    if k == "open":
        pats = tuples
        lab.append("answers:%d" % min(len(pats), 10))
        for a, b in itertools.permutations(range(len(pats)), 2):
            if a < b and match(["p", "x"] + pats[a], ["p", "x"] + pats[b], {}) is not None:
                return viol("answer %s is an instance of the earlier %s" % (pats[b], pats[a]) + desc, lab)
        cover = set()
        fresh = [["f", "#any1"], ["f", "#any2"], ["f", "#any3"]]
        for t in pats:
            vs = vars_of(["p", "x"] + t)
            if len(vs) > 3:
                return skip("wide", lab)
            if K(subst(["p", "x"] + t, dict(zip(vs, fresh)))[2:]) not in exp:
                return viol("answer does not follow: %s" % K(t) + desc, lab)
        for key, e in exp.items():
            if any(match(["p", "x"] + t, ["p", "x"] + e, {}) is not None for t in pats):
                cover.add(key)
        if len(pats) < lim and len(cover) < len(exp):
            return viol("answers not reported: %s" % [x for x in exp if x not in cover][:5] + desc, lab)
        nt = any(vars_of(["p", "x"] + t) for t in pats)
        return ok(nt and len(pats) > 0, K([problem(case), case["strategy"]]), lab)
    if any(vars_of(["p", "x"] + t) for t in tuples):
        return viol("an answer with a variable" + desc, lab)
    raw = [K(t) for t in tuples]
    if len(set(raw)) < len(raw):
        return viol("an answer is reported twice" + desc, lab)
    keys = raw
    if norm:
        keys = [K([norm(x) for x in t]) for t in tuples]
    bad = [x for x in keys if x not in exp]
    if bad:
        return viol("answer does not follow: %s" % bad[0] + desc, lab)
    n = len(set(keys))
    if norm:
        if len(raw) < lim and n < len(exp):
            return viol("%d of %d answers up to equality, limit %d" % (n, len(exp), lim) + desc, lab)
    elif n != min(lim, len(exp)):
        return viol("%d answers reported, %d exist, limit %d; missing %s" % (n, len(exp), lim, [x for x in exp if x not in keys][:5]) + desc, lab)
    nt = n >= 1 and (len(case["question"][0]) > 1 or len(exp) > 0 and len(answers_without_rules(case)) < len(exp))
    return ok(nt, K([problem(case), case["strategy"]]), lab + ["answers:%d" % min(n, 10)])


def answers_without_rules(case):
    try:
        return answers(dict(case, rules=[]))
    except TooBig:
        return {}


def shrinks(case):
    for key in ("facts", "rules", "open", "alts", "eqs"):
        for i in range(len(case.get(key, []))):
            yield dict(case, **{key: case[key][:i] + case[key][i + 1:]})
    if len(case["question"]) > 1:
        for i in range(len(case["question"])):
            yield dict(case, question=case["question"][:i] + case["question"][i + 1:])
    for i, q in enumerate(case["question"]):
        for j in range(len(q)):
            d = q[:j] + q[j + 1:]
            if d and (set(case["vars"]) <= set(vars_of(["p", "q"] + [x for x in d if x[1] not in BUILTIN]))) and set(vars_of(["p", "q"] + d)) <= set(vars_of(["p", "q"] + [x for x in d if x[1] not in BUILTIN])):
                yield dict(case, question=case["question"][:i] + [d] + case["question"][i + 1:])
    if case["order"] != sorted(case["order"]):
        yield dict(case, order=sorted(case["order"]))
    for k in case["strategy"]:
        if k not in ("strategy", "max_answers"):
            yield dict(case, strategy={a: x for a, x in case["strategy"].items() if a != k})
    if case["syntax"] != "simple" and not case["jq"]:
        yield dict(case, syntax="simple")
    if case["jq"]:
        yield dict(case, jq=False, syntax="simple")


def describe(case):
    return problem(case) + "\n" + json.dumps(case["strategy"])
