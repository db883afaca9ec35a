"""C09 ground equality is decided by congruence closure."""
import json
from vlib import build, gkc, lang
from vlib.engine import ok, viol, skip

PROP = "C09"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: ground equations, disequations and literals against a reference congruence closure"
LEVEL_NOTE = "sampled; the oracle is exact in both directions"
RULE = ("Sets of ground equations, disequations and literals (random terms, terms grown along chains of congruences, cycles f^m(a)=a, permutations of long chains, "
        "nested arguments, equal names for symbols of different kinds, integers and strings as distinct values) are decided by a union-find congruence closure and run "
        "in a random language, as clauses or with one literal as a conjecture, under a random equality-preserving strategy.  A proof must be found exactly when the closure is contradictory.  "
        "Non-trivial: at least two equations, and either a contradiction that needs at least two equations or a consistent set where some disequation or literal mentions a merged class.  Distinct by text and strategy.")
ASSUMPTIONS = ["a contradictory set whose run ends at its time limit (3 s) is run again with 20 s before a missing proof counts"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin")}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("random", 2500 * k), ("grown", 3500 * k), ("cycle", 1000 * k), ("chain", 600 * k), ("values", 1500 * k), ("wide", 800 * k)]


# ---------------------------------------------------------------- congruence closure

class CC:
    def __init__(self):
        self.p, self.node, self.sig, self.uses = [], {}, {}, []
        self.val, self.bad = [], False

    def find(self, x):
        while self.p[x] != x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def add(self, t):
        k = json.dumps(t)
        if k in self.node:
            return self.node[k]
        args = [self.add(a) for a in t[2:]] if t[0] in ("f", "p") else []
        n = len(self.p)
        self.node[k] = n
        self.p.append(n)
        self.uses.append([])
        self.val.append(k if t[0] in ("i", "s") else None)
        if args:
            s = (t[0], t[1], tuple(self.find(a) for a in args))
            for a in set(self.find(a) for a in args):
                self.uses[a].append((t[0], t[1], tuple(args), n))
            if s in self.sig:
                self.union(self.sig[s], n)
            else:
                self.sig[s] = n
        return n

    def union(self, a, b):
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            a, b = self.find(a), self.find(b)
            if a == b:
                continue
            if self.val[a] and self.val[b]:
                self.bad = True
            self.p[a] = b
            self.val[b] = self.val[b] or self.val[a]
            for u in self.uses[a]:
                s = (u[0], u[1], tuple(self.find(x) for x in u[2]))
                if s in self.sig:
                    todo.append((self.sig[s], u[3]))
                else:
                    self.sig[s] = u[3]
            self.uses[b] += self.uses[a]
            self.uses[a] = []


def contradictory(lits):
    c = CC()
    neg, pos = [], []
    for l in lits:
        s = True
        while l[0] == "~":
            s, l = not s, l[1]
        if l[0] in ("=", "!="):
            if (l[0] == "=") == s:
                c.union(c.add(l[1]), c.add(l[2]))
            else:
                neg.append((c.add(l[1]), c.add(l[2])))
        else:
            n = c.add(l)
            (pos if s else neg).append((n,))
    if c.bad or any(len(x) == 2 and c.find(x[0]) == c.find(x[1]) for x in neg):
        return True
    t = {c.find(x[0]) for x in pos}
    return any(len(x) == 1 and c.find(x[0]) in t for x in neg)


# ---------------------------------------------------------------- generation

def f(n, *a):
    return ["f", n] + list(a)


def term(r, sig, d):
    if d == 0 or r.random() < 0.25:
        return r.choice(sig["c"])
    n, a = r.choice(sig["f"])
    return f(n, *[term(r, sig, d - 1) for _ in range(a)])


def subs(t, path=()):
    yield path, t
    if t[0] == "f":
        for i in range(2, len(t)):
            yield from subs(t[i], path + (i,))


def put(t, path, s):
    if not path:
        return s
    return t[:path[0]] + [put(t[path[0]], path[1:], s)] + t[path[0] + 1:]


def nodes(t):
    return 1 + sum(nodes(a) for a in t[2:]) if t[0] == "f" else 1


def eq(r, a, b, neg=False):
    if r.random() < 0.5:
        a, b = b, a
    if neg:
        return ["!=", a, b] if r.random() < 0.5 else ["~", ["=", a, b]]
    return ["=", a, b]


def grow(r, t, eqs, steps):
    """t rewritten by random equations in random directions."""
    for _ in range(steps):
        opts = []
        for a, b in eqs:
            for p, s in subs(t):
                if s == a:
                    opts.append((p, b))
                if s == b:
                    opts.append((p, a))
        if not opts:
            break
        p, s = r.choice(opts)
        u = put(t, p, s)
        if nodes(u) > 40:
            continue
        t = u
    return t


def signature(r, kind):
    cs = [f(x) for x in "abcde"[:r.randint(2, 5)]]
    if kind == "values" or r.random() < 0.1:
        cs += [["i", n] for n in r.sample(range(-3, 12), r.randint(1, 3))] + [["s", s] for s in r.sample(["a", "b", "x y", "1", ""], r.randint(0, 2))]
    fs = r.choice([[("f", 1)], [("f", 1), ("g", 2)], [("f", 2)], [("f", 1), ("g", 1)], [("f", 3), ("g", 1)], [("f", 1), ("f", 2), ("h", 1)], [("g", 4), ("f", 1)], [("a", 1), ("f", 2)]])
    ps = r.choice([[("p", 1)], [("p", 2)], [("p", 1), ("q", 2)], [("f", 1), ("p", 3)]])
    return {"c": cs, "f": fs, "p": ps}


def gen(kind, r, i, tier):
    sig = signature(r, kind)
    lits = []
    eqs = []
    if kind == "cycle":
        n, a = sig["f"][0]
        c = sig["c"][0]

        def it(k, x=c):
            for _ in range(k):
                x = f(n, x) if a == 1 else f(n, *([x] + [c] * (a - 1)) if r.random() < 2 else x)
            return x
        ks = r.sample(range(1, 9), r.randint(2, 3))
        for k in ks:
            j = r.choice([0, 0, 0, 1, 2])
            eqs.append((it(k + j), it(j)))
        lits = [eq(r, x, y) for x, y in eqs]
        k, j = r.sample(range(0, 12), 2)
        lits.append(eq(r, it(k), it(j), True))
        if r.random() < 0.4:
            lits += [["p", "p", it(r.randint(0, 6))], ["~", ["p", "p", it(r.randint(0, 6))]]]
    elif kind == "chain":
        n = r.randint(5, 40)
        cs = [f("c%d" % k) for k in range(n)]
        wrap = r.choice([lambda x: x, lambda x: f("f", x), lambda x: f("g", x, cs[0])])
        es = [(cs[k], cs[k + 1]) for k in range(n - 1)]
        cut = r.random() < 0.4
        if cut:
            es.pop(r.randrange(len(es)))
        es += [tuple(r.sample(cs[:n // 3 + 1], 2)) for _ in range(r.randint(0, 3))]
        r.shuffle(es)
        lits = [eq(r, *((wrap(x), wrap(y)) if r.random() < 0.2 else (x, y))) for x, y in es]
        lits.append(eq(r, wrap(cs[0]), wrap(cs[-1]), True))
    else:
        d = {"wide": 3}.get(kind, r.choice([1, 2, 2, 3]))
        for _ in range(r.randint(1, 7) if kind != "wide" else r.randint(6, 14)):
            a = term(r, sig, d)
            b = term(r, sig, r.randint(0, d))
            if kind == "grown" and eqs and r.random() < 0.5:
                x, y = r.choice(eqs)
                a = grow(r, r.choice([x, y, a]), eqs, r.randint(0, 3))
            if nodes(a) > 30 or nodes(b) > 30:
                continue
            eqs.append((a, b))
        lits = [eq(r, a, b) for a, b in eqs]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p, a = r.choice(sig["p"])
            args = [term(r, sig, r.randint(0, 2)) for _ in range(a)]
            args2 = [grow(r, x, eqs, r.randint(0, 6)) for x in args] if r.random() < 0.75 else [term(r, sig, r.randint(0, 2)) for _ in range(a)]
            if r.random() < 0.3 and a > 1:
                args2[r.randrange(a)] = term(r, sig, 1)
            if r.random() < 0.5:
                x = f("h0", *args) if r.random() < 0.3 else args[0]
                y = f("h0", *args2) if x[1] == "h0" else args2[0]
                lits.append(eq(r, x, y, True))
            else:
                lits += [["p", p] + args, ["~", ["p", p] + args2]]
    r.shuffle(lits)
    lits = [l for l in lits if l]
    if r.random() < 0.3:
        while len(lits) > 3 and contradictory(lits):
            k = r.randrange(len(lits))
            lits = lits[:k] + lits[k + 1:]
    sy = r.choice(["simple", "tptp", "tptp", "json"])
    goal = r.random() < 0.3
    s = {"strategy": r.choice([["negative_pref"], ["positive_pref"], ["hornpref"], [], ["unit"], ["max_weight"], ["reverse_clauselist"]]), "query_preference": r.choice([0, 0, 0, 1, 2, 3])}
    if r.random() < 0.2:
        s["rewrite"] = 0
    if r.random() < 0.2:
        s[r.choice(["given_queue_ratio", "weight_select_ratio"])] = r.choice([1, 2, 5, 10])
    if r.random() < 0.15:
        s[r.choice(["depth_penalty", "length_penalty"])] = r.choice([1, 5, 20])
    return {"lits": lits, "goal": goal, "syntax": sy, "strategy": s, "kind": kind, "bin": "plain" if r.random() < 0.02 else "gkc"}


def stmts(case):
    out = []
    n = len(case["lits"])
    for i, l in enumerate(case["lits"]):
        last = case["goal"] and i == n - 1
        if last:
            l = l[1] if l[0] == "~" else ["=" if l[0] == "!=" else "!=", l[1], l[2]] if l[0] in ("=", "!=") else ["~", l]
        out.append({"name": "s%d" % i, "role": "conjecture" if last else "axiom", "f": l, "cnf": False, "say": False})
    return out


def once(case, env, secs):
    p = gkc.write("p" + gkc.EXT[case["syntax"]], lang.problem(stmts(case), case["syntax"], False))
    return gkc.run(env[case["bin"]], [p, "-mbsize", 50, "-print", 10, "-parallel", 0, "-seconds", secs,
                                      "-strategytext", json.dumps(case["strategy"])], timeout=90)


def run(case, env):
    bad = contradictory(case["lits"])
    r = once(case, env, 3)
    v = r.verdict()
    if bad and v != "proof" and (r.time_limit or v == "hang"):
        r = once(case, env, 20)
        v = r.verdict()
    lab = ["kind:" + case["kind"], "contradictory" if bad else "consistent", "strategy:" + "+".join(case["strategy"]["strategy"])]
    desc = "\n%s\n%s\n%s" % (describe(case), " ".join(map(str, r.cmd[1:])), r.out[:2000])
    if v in ("crash", "error", "none"):
        return viol(v + desc, lab)
    if not bad:
        if v == "proof":
            return viol("a consistent set is refuted" + desc, lab)
        if v == "hang" or r.time_limit:
            return skip("time", lab)
    elif v != "proof":
        if (v == "hang" or r.time_limit) and not case["strategy"].get("rewrite", 1):
            return skip("time without rewriting", lab)
        return viol("a contradictory set is not refuted" + desc, lab)
    es = [l for l in case["lits"] if positive(l)]
    nt = len(es) >= 2 and len(case["lits"]) > len(es)
    if bad and nt:
        nt = not any(contradictory([l for l in case["lits"] if l not in es] + [e]) for e in es)
    return ok(nt, json.dumps([case["lits"], case["strategy"], case["syntax"]]), lab)


def positive(l):
    s = True
    while l[0] == "~":
        s, l = not s, l[1]
    return l[0] == "=" and s or l[0] == "!=" and not s


def shrinks(case):
    L = case["lits"]
    b = contradictory(L)
    for i in range(len(L)):
        d = L[:i] + L[i + 1:]
        if d and contradictory(d) == b:
            yield dict(case, lits=d)
    for k in list(case["strategy"]):
        if k != "strategy":
            yield dict(case, strategy={a: x for a, x in case["strategy"].items() if a != k})
    if case["strategy"]["strategy"]:
        yield dict(case, strategy=dict(case["strategy"], strategy=[]))
    if case["goal"]:
        yield dict(case, goal=False)
    if case["syntax"] != "simple":
        yield dict(case, syntax="simple")


def describe(case):
    return lang.problem(stmts(case), case["syntax"], False) + json.dumps(case["strategy"])
