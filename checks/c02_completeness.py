"""C02 completeness: an unsatisfiable problem of a decidable fragment is proved.

Oracle: the problem is known to be unsatisfiable, either decided by a reference procedure
(DPLL with congruence closure on the ground clauses or on all ground instances over the
constants) or built so: generalising literals of an unsatisfiable set by variables in place of
terms, and Horn problems made by running the derivation first, keep it unsatisfiable."""
import json
from vlib import build, fol, gkc, sat
from vlib.engine import ok, viol, skip

PROP = "C02"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: unsatisfiable problems (decided by a reference procedure or unsatisfiable by construction) under complete strategies"
LEVEL_NOTE = "sampled: each generated unsatisfiable problem was proved; unsatisfiability is exact, the fragments and strategies are named in DESIGN.md"
RULE = ("Unsatisfiable problems: propositional, ground with function symbols and equality, function-free with and without equality "
        "(decided over all ground instances), variable generalisations of ground ones, Horn derivations with function symbols, chains and "
        "formula versions with a conjecture.  Each is run under one complete single strategy or the automatic strategy.  Non-trivial: the "
        "minimised set has at least three clauses, or the formulas do; distinct by problem text and strategy.")
ASSUMPTIONS = ["a run that ends at its time limit is repeated with a 20 s limit before it counts as a missing proof",
               "positive equations between a bare variable and anything are left out (the search treats X=t as not provable by paramodulation from variables; documented limit)"]
CHUNK = 8



def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 0.8 if tier == "quick" else 12
    return [("prop", 1800 * k), ("ground", 1800 * k), ("groundeq", 3600 * k), ("epr", 2500 * k), ("epreq", 2500 * k),
            ("lift", 1800 * k), ("lifteq", 3000 * k), ("horn", 3000 * k), ("fof", 3000 * k), ("auto", 500 * k), ("parallel", 160 * k),
            ("hard-prop", 1500 * k), ("hard-ground", 1500 * k), ("hard-lift", 1500 * k), ("hard-epr", 1500 * k), ("chain1", 1000 * k), ("chain2", 1000 * k),
            ("factor", 1500 * k), ("many", 600 * k)]


def bare(l):
    pos = True
    while l[0] == "~":
        pos, l = not pos, l[1]
    if l[0] == "!=":
        pos = not pos
    return pos and l[0] in ("=", "!=") and (l[1][0] == "v" or l[2][0] == "v")


def lift(r, cl):
    out = []
    for c in cl:
        m = {}

        def lt(t, pr):
            if r.random() < pr:
                k = json.dumps(t)
                if k not in m and len(m) < 6:
                    m[k] = "XYZUVW"[len(m)]
                if k in m:
                    return ["v", m[k]]
            if t[0] == "f" and len(t) > 2:
                return ["f", t[1]] + [lt(a, pr) for a in t[2:]]
            return t

        def ll(l):
            if l[0] == "~":
                return ["~", ll(l[1])]
            n = 2 if l[0] == "p" else 1
            return l[:n] + [lt(a, 0.4) for a in l[n:]]
        d = [ll(l) for l in c]
        out.append(c if any(bare(l) for l in d) else d)
    return out


def positive(l):
    pos = True
    while l[0] == "~":
        pos, l = not pos, l[1]
    return pos if l[0] != "!=" else not pos


def hornify(r, c):
    ps = [l for l in c if positive(l)]
    keep = r.choice(ps) if ps else None
    return [l for l in c if not positive(l) or l is keep]


def core_of(cl, dec):
    i, order = 0, list(cl)
    while i < len(order):
        d = order[:i] + order[i + 1:]
        if dec(d) is False:
            order = d
        else:
            i += 1
    return order


def hard(r, kind):
    """As unsat, but few short clauses, and an unsatisfiable core of at least five."""
    eq = 0.45 if kind.endswith("eq") else 0
    base = kind.replace("eq", "")
    for _ in range(8):
        if base == "prop":
            n = r.randint(3, 6)
            sig = fol.Sig(["a"], [], [(p, 0) for p in "pqrstuvwx"[:n]])
            cl = [c for c in (fol.gen_clause(r, sig, 0, r.choice([2, 3, 3]), 0) for _ in range(n * 9)) if len(c) > 1 or r.random() < 0.08]
        elif base in ("ground", "lift"):
            sig = fol.Sig(["a", "b"], r.choice([[("f", 1)], [("f", 1)], []]), r.choice([[("p", 1)], [("p", 1), ("q", 1)], [("p", 2)]]))
            cl = [c for c in (fol.gen_clause(r, sig, 0, r.choice([2, 3, 3]), r.choice([0, 1, 1]), eq) for _ in range(60)) if len(c) > 1 or r.random() < 0.15]
        else:
            sig = fol.Sig(["a", "b", "c"][:r.randint(2, 3)], [], r.choice([[("p", 1), ("q", 2)], [("p", 1), ("q", 1)], [("p", 1), ("q", 1), ("r", 1)], [("p", 1), ("q", 3)]]))
            cl = [c for c in (fol.gen_clause(r, sig, 2, 3, 0, eq, 0.35) for _ in range(30)) if len(c) > 1 or r.random() < 0.15]
            if eq:
                cl = [c for c in ([l for l in c if not bare(l)] for c in cl) if c]
        if eq:
            cl = [hornify(r, c) for c in cl]
        dec = (lambda x: sat.epr_sat(x, sig.consts)) if base == "epr" else sat.ground_sat
        if not cl or dec(cl) is not False:
            continue
        core = core_of(cl, dec)
        if len(core) < 5 or not dec(core) is False:
            continue
        if r.random() < 0.3:
            noise = [c for c in cl if c not in core]
            core = core + r.sample(noise, min(len(noise), r.randint(1, 5)))
        r.shuffle(core)
        return lift(r, core) if base == "lift" else core
    return None


def factor(r):
    """Wholly positive and wholly negative clauses of one or two predicates over a few constants: refutations
    need factoring, of any pair of literals."""
    sig = fol.Sig(["a", "b", "c"][:r.randint(1, 3)], [], r.choice([[("p", 2)], [("p", 1)], [("p", 1), ("q", 2)], [("p", 3)]]))
    for _ in range(12):
        cl = []
        for n in range(r.randint(2, 7)):
            neg = n % 2 == 1 if r.random() < 0.8 else None
            c = []
            for _ in range(r.choice([2, 2, 3, 3, 4])):
                p, ar = r.choice(sig.preds)
                a = ["p", p] + [["v", r.choice("XYZU")] if r.random() < 0.75 else ["f", r.choice(sig.consts)] for _ in range(ar)]
                if (r.random() < 0.5) if neg is None else neg:
                    a = ["~", a]
                if a not in c:
                    c.append(a)
            cl.append(c)
        dec = lambda x: sat.epr_sat(x, sig.consts)
        if dec(cl) is False:
            return core_of(cl, dec) if r.random() < 0.5 else cl
    return None


def many(r):
    """Reachability in a graph of dozens of facts of the same weight, or a long row of rules: the proof needs
    clauses from deep inside the queues."""
    n = r.randint(10, 45)
    c = lambda i: ["f", "c%d" % i]
    cl = []
    k = r.random()
    if k < 0.6:
        path = list(range(n))
        r.shuffle(path)
        d = r.randint(2, min(n - 1, 12))
        es = {(path[i], path[i + 1]) for i in range(d)}
        for _ in range(r.randint(0, 3 * n)):
            a, b = r.sample(range(n), 2)
            if a not in path[:d + 1] or b not in path[:d + 1]:
                es.add((a, b))
        es = list(es)
        r.shuffle(es)
        cl = [[["p", "e", c(a), c(b)]] for a, b in es]
        X, Y, Z = ["v", "X"], ["v", "Y"], ["v", "Z"]
        cl.append([["~", ["p", "e", X, Y]], ["p", "t", X, Y]])
        cl.append(r.choice([[["~", ["p", "e", X, Y]], ["~", ["p", "t", Y, Z]], ["p", "t", X, Z]],
                            [["~", ["p", "t", X, Y]], ["~", ["p", "e", Y, Z]], ["p", "t", X, Z]]]))
        cl.append([["~", ["p", "t", c(path[0]), c(path[d])]]])
    else:
        # a row of rules q_i(x) -> q_{i+1}(x), in any order, among unused ones
        m = r.randint(5, 30)
        cl = [[["~", ["p", "q", c(i), ["v", "X"]]], ["p", "q", c(i + 1), ["v", "X"]]] for i in range(m)]
        cl += [[["~", ["p", "q", c(100 + r.randrange(40)), ["v", "X"]]], ["p", "q", c(200 + r.randrange(40)), ["v", "X"]]] for _ in range(r.randint(0, 40))]
        cl += [[["p", "q", c(300 + i), c(0)]] for i in range(r.randint(0, 20))]
        cl += [[["p", "q", c(0), c(0)]], [["~", ["p", "q", c(m), r.choice([c(0), ["v", "Y"]])]]]]
    if r.random() < 0.7:
        r.shuffle(cl)
    return cl


def unsat(r, kind):
    """(clauses, horn?)"""
    eq = 0.45 if kind.endswith("eq") else 0
    base = kind.replace("eq", "")
    if base == "prop":
        n = r.randint(3, 9)
        sig = fol.Sig(["a"], [], [(p, 0) for p in "pqrstuvwx"[:n]])
        cl = [fol.gen_clause(r, sig, 0, 3 if r.random() < .8 else 4, 0) for _ in range(r.randint(n * 2, n * 6))]
    elif base in ("ground", "lift"):
        sig = fol.Sig(["a", "b", "c"], r.choice([[("f", 1)], [("f", 1), ("g", 2)], [("g", 2)], []]),
                      r.choice([[("p", 1), ("q", 2)], [("p", 1)], [("p", 1), ("q", 1), ("r", 3)], [("p", 2)]]))
        cl = [fol.gen_clause(r, sig, 0, r.choice([1, 2, 3, 3]), r.choice([1, 2, 2, 3]), eq) for _ in range(r.randint(8, 34))]
    else:
        sig = fol.Sig(["a", "b", "c"][:r.randint(1, 3)], [], r.choice([[("p", 1), ("q", 2), ("r", 1)], [("p", 2), ("q", 2)], [("p", 1), ("q", 3)]]))
        cl = [fol.gen_clause(r, sig, 3, 3, 0, eq, 0.7) for _ in range(r.randint(4, 14))]
        if eq:
            cl = [[l for l in c if not bare(l)] for c in cl]
            cl = [c for c in cl if c]
    if eq:
        # Horn only: the calculus has no equality factoring (see DESIGN.md)
        cl = [hornify(r, c) for c in cl]
        if base != "epr":
            cl += [[["~", fol.gen_atom(r, sig, [], 2, 0.6)]] for _ in range(r.randint(0, 4))]
            cl += [[fol.gen_atom(r, sig, [], 1, 0.8)] for _ in range(r.randint(0, 4))]
    dec = (lambda x: sat.epr_sat(x, sig.consts)) if base == "epr" else sat.ground_sat
    if not cl or dec(cl) is not False:
        return None
    if r.random() < 0.75:
        order = list(cl)
        r.shuffle(order)
        order = core_of(order, dec)
        if r.random() < 0.5:
            cl = order
        else:  # minimal core and some noise
            noise = [c for c in cl if c not in order]
            cl = order + r.sample(noise, min(len(noise), r.randint(1, 5)))
            r.shuffle(cl)
    if base == "lift":
        cl = lift(r, cl)
    return cl


def positions(t, path=()):
    yield path, t
    if t[0] == "f":
        for i in range(2, len(t)):
            yield from positions(t[i], path + (i,))


def replace(t, path, s):
    if not path:
        return s
    u = list(t)
    u[path[0]] = replace(t[path[0]], path[1:], s)
    return u


def match(p, t, s):
    if p[0] == "v":
        if p[1] in s:
            return s if s[p[1]] == t else None
        s = dict(s)
        s[p[1]] = t
        return s
    if t[0] != p[0] or t[1] != p[1] or len(t) != len(p):
        return None
    for a, b in zip(p[2:], t[2:]):
        s = match(a, b, s)
        if s is None:
            return None
    return s


def eqchain(r, steps):
    """Equations with variables, some of them conditional, and a goal reached by rewriting a
    ground term a few times in either direction."""
    sig = fol.Sig(["a", "b", "c"], r.choice([[("f", 1)], [("f", 1), ("g", 2)], [("g", 2)], [("f", 1), ("h", 1), ("g", 2)]]),
                  [("p", 1), ("q", 2)])
    eqs, cl = [], []
    for _ in range(r.randint(2, 5)):
        for _ in range(20):
            vs = ["X", "Y", "Z"][:r.randint(0, 3)]
            a, b = fol.gen_term(r, sig, vs, 2, 0.6), fol.gen_term(r, sig, vs, r.choice([0, 1, 2]), 0.6)
            if a[0] != "v" and b[0] != "v" and a != b and set(fol.term_vars(b, [])) <= set(fol.term_vars(a, [])):
                break
        else:
            continue
        cond = None
        if r.random() < 0.3:
            v = fol.term_vars(a, [])
            cond = ["p", "p", ["v", r.choice(v)]] if v else ["p", "p", ["f", "a"]]
        eqs.append((a, b, cond))
        c = [["=", a, b] if r.random() < 0.5 else ["=", b, a]]
        if cond:
            c.append(["~", cond])
            r.shuffle(c)
        cl.append(c)
    t = fol.gen_term(r, sig, [], 3)
    start = t
    needed = []
    done = 0
    for _ in range(steps * 4):
        if done >= steps:
            break
        opts = []
        for (a, b, cond) in eqs:
            for (x, y) in ((a, b), (b, a)):
                for path, s in positions(t):
                    m = match(x, s, {})
                    if m is not None:
                        opts.append((path, x, y, m, cond))
        if not opts:
            break
        path, x, y, m, cond = r.choice(opts)
        for v in fol.term_vars(y, []) + (fol.term_vars(cond[2], []) if cond else []):
            if v not in m:
                m[v] = fol.gen_term(r, sig, [], 1)
        u = replace(t, path, fol.subst_term(y, m))
        if fol.size(u) > 60:
            continue
        if cond:
            f = fol.subst_lit(cond, m)
            if f not in needed:
                needed.append(f)
        t = u
        done += 1
    if t == start or not done:
        return None
    cl += [[f] for f in needed]
    k = r.random()
    if k < 0.6:
        cl.append([["!=", start, t] if r.random() < 0.5 else ["!=", t, start]])
    else:
        q = r.choice([["q", start, r.choice([start, ["f", "a"]])], ["p", start]]) if r.random() < 0.5 else ["q", ["f", "b"], start]
        if q[0] == "p":
            q = ["r", start]
        neg = ["p"] + [t if x == start and i else x for i, x in enumerate(q)]
        cl.append([["p"] + q])
        cl.append([["~", neg]])
    r.shuffle(cl)
    return cl


def horn(r):
    """A Horn problem with function symbols and variables, built along a derivation: every rule
    used has its instance's body among the derived facts."""
    sig = fol.Sig(["a", "b", "c", "d"][:r.randint(2, 4)], [("f", 1), ("g", 2)][:r.randint(0, 2)],
                  [("p", 1), ("q", 2), ("r", 2), ("s", 1), ("t", 3)][:r.randint(2, 5)])

    def atom():
        p, a = r.choice(sig.preds)
        return ["p", p] + [fol.gen_term(r, sig, [], r.choice([0, 0, 1, 2])) for _ in range(a)]
    facts = [atom() for _ in range(r.randint(1, 4))]
    cl = [[f] for f in facts]
    for _ in range(r.randint(2, 7)):
        body = [r.choice(facts[-4:])] + [r.choice(facts) for _ in range(r.choice([0, 0, 1, 2]))]
        head = atom()
        # reuse of body terms in the head, so that bindings matter
        bt = [a for b in body for a in b[2:]]
        head = head[:2] + [r.choice(bt) if bt and r.random() < 0.6 else a for a in head[2:]]
        rule = [head] + [["~", b] for b in body]
        r.shuffle(rule)
        if r.random() < 0.8:
            rule = lift(r, [rule])[0]
        cl.append(rule)
        facts.append(head)
    goal = [["~", facts[-1]]]
    if r.random() < 0.5:
        goal = lift(r, [goal])[0]
    for _ in range(r.choice([0, 0, 2, 4])):
        a = fol.gen_clause(r, sig, 2, 2, 1)
        if not (len(a) == 1 and a[0][0] == "~"):
            cl.append(a)
    r.shuffle(cl)
    return cl, goal[0]


def to_formula(r, cl):
    """Clauses as formulas in another but equivalent shape."""
    out = []
    for c in cl:
        c = list(c)
        vs = []
        for l in c:
            for v in fol.free_vars(l):
                if v not in vs:
                    vs.append(v)
        k = r.random()
        if len(c) > 1 and k < 0.3:
            i = r.randrange(1, len(c))
            a, b = c[:i], c[i:]
            na = ["&"] + [fol.neg(l) for l in a] if len(a) > 1 else fol.neg(a[0])
            bb = ["|"] + b if len(b) > 1 else b[0]
            f = ["=>", na, bb]
        elif len(c) > 1 and k < 0.45:
            f = ["~", ["&"] + [fol.neg(l) for l in c]]
        elif len(c) > 1 and k < 0.55:
            f = ["<=", ["|"] + c[1:] if len(c) > 2 else c[1], fol.neg(c[0])]
        elif len(c) > 1 and k < 0.65:
            f = ["~&", fol.neg(c[0]), ["&"] + [fol.neg(l) for l in c[1:]] if len(c) > 2 else fol.neg(c[1])]
        else:
            f = ["|"] + c if len(c) > 1 else c[0]
        if vs:
            f = ["!", vs, f] if r.random() < 0.8 else ["~", ["?", vs, fol.neg(f)]]
        out.append(f)
    while len(out) > 2 and r.random() < 0.4:
        a, b = out.pop(), out.pop()
        out.append(["&", a, b] if r.random() < 0.7 else ["~", ["|", fol.neg(a), fol.neg(b)]])
    return out


def gen(kind, r, i, tier):
    goal = None
    sub = kind
    if kind in ("fof", "auto", "parallel"):
        sub = r.choice(["prop", "ground", "groundeq", "epr", "epreq", "lift", "lifteq", "horn", "hard-prop", "hard-ground", "hard-lift", "hard-epr", "chain2"])
    for _ in range(60):
        if sub == "horn":
            cl, goal = horn(r)
        elif sub.startswith("hard-"):
            cl = hard(r, sub[5:])
        elif sub.startswith("chain"):
            cl = eqchain(r, int(sub[5:]))
        elif sub == "factor":
            cl = factor(r)
        elif sub == "many":
            cl = many(r)
        else:
            cl = unsat(r, sub)
        if cl:
            break
    else:
        return None
    eq = sub.endswith("eq")
    syntax = r.choice(["cnf", "cnf", "tptp", "simple", "json"])
    if kind == "fof":
        items = to_formula(r, cl)
        syntax = r.choice(["tptp", "simple", "json"])
        conj = None
        if goal is not None:
            g = goal
            vs = fol.free_vars(g)
            conj = fol.neg(["!", vs, g] if vs else g)
        elif r.random() < 0.5 and len(items) > 2:
            conj = fol.neg(items.pop(r.randrange(len(items))))
    else:
        items = [["|"] + c if len(c) > 1 else c[0] for c in cl]
        conj = None
        if goal is not None:
            items.append(goal)
        elif r.random() < 0.3 and syntax != "cnf":
            g = items.pop()
            vs = fol.free_vars(g)
            conj = fol.neg(["!", vs, g] if vs else g)
    case = {"items": items, "goal": conj, "syntax": syntax, "sub": sub,
            "out": r.choice(["", "", "", "", "-json", "-tptp"]), "bin": r.choice(["gkc"] * 20 + ["plain", "bison"])}
    if kind == "auto" or kind == "parallel":
        case["strategy"] = None
        if kind == "parallel":
            case["parallel"] = r.choice([2, 4, 8])
    else:
        s = {"strategy": strategy_names(r, sub)}
        s["query_preference"] = r.choice([0, 0, 0, 1])
        if r.random() < 0.15:
            s["rewrite"] = 0
        if r.random() < 0.1:
            s["reverse_clauselist"] = 1
        if r.random() < 0.15:
            s[r.choice(["given_queue_ratio", "weight_select_ratio"])] = r.choice([1, 2, 5, 10])
        if r.random() < 0.1:
            s[r.choice(["depth_penalty", "length_penalty", "var_weight", "repeat_var_weight"])] = r.choice([1, 5, 20])
        case["strategy"] = s
    return case


def strategy_names(r, sub):
    c = [["negative_pref"], ["positive_pref"], ["hornpref"], []]
    if not sub.endswith("eq") and not sub.startswith("chain") and sub != "factor":
        # with equality these lack an inference (no equality factoring): a = b | b = a with a != b
        c += [["hyper"], ["hardness_pref"], ["knuthbendix_pref"]]
    if sub == "horn":
        c += [["unit"]]
    return r.choice(c)


def to_text(case):
    from checks import c01_soundness
    return c01_soundness.to_text(case)


def run_once(case, env, secs):
    text = to_text(case)
    p = gkc.write("p" + gkc.EXT[case["syntax"]], text)
    args = [p, "-mbsize", 50, "-print", 10, "-parallel", case.get("parallel", 0), "-seconds", secs + 2]
    if case["strategy"] is not None:
        args += ["-strategytext", json.dumps(dict(case["strategy"], max_dseconds=8) if case["sub"] == "factor" else dict(case["strategy"], max_seconds=secs))]
    if case["out"]:
        args.append(case["out"])
    return text, gkc.run(env[case["bin"]], args, timeout=90)


def run(case, env):
    text, r = run_once(case, env, 3)
    v = r.verdict()
    if case["sub"] == "factor" and r.time_limit and v != "proof":
        return skip("time limit")      # dense non-Horn clauses: some are just too hard
    if v in ("hang",) or (v != "proof" and r.time_limit) or (v == "noproof" and case["strategy"] is None):
        text, r = run_once(case, env, 20)
        v = r.verdict()
    sname = "auto" if case["strategy"] is None else "+".join(case["strategy"]["strategy"]) or "none"
    lab = ["verdict:" + v, "strategy:" + sname, "sub:" + case["sub"], "syntax:" + case["syntax"]]
    if v == "proof":
        return ok(len(case["items"]) + (case["goal"] is not None) >= 3, text + json.dumps(case["strategy"]) + case["out"], lab)
    msg = {"crash": "crash", "error": "input refused", "none": "no result line", "hang": "no end within 90 s"}.get(v, "no proof of an unsatisfiable problem")
    return viol("%s: %s\n%s\n%s" % (msg, " ".join(map(str, r.cmd[1:])), text[:3000], r.out[-600:]), lab)


def still_unsat(case):
    """Shrinking keeps only what the reference procedure still calls unsatisfiable: clause cases of the decided fragments."""
    if case["goal"] is not None or case["sub"] not in ("prop", "ground", "groundeq", "epr", "epreq"):
        return False
    cl = [it[1:] if it[0] == "|" else [it] for it in case["items"]]
    if any(x[0] not in ("p", "=", "!=", "~") for c in cl for x in c):
        return False
    if case["sub"].startswith("epr"):
        return sat.epr_sat(cl, ["a", "b", "c"]) is False
    return sat.ground_sat(cl) is False


def shrinks(case):
    for it in fol.shrink_list(case["items"]):
        c = dict(case, items=it)
        if still_unsat(c):
            yield c
    st = case["strategy"]
    if st:
        for k in list(st):
            if k != "strategy":
                yield dict(case, strategy={a: b for a, b in st.items() if a != k})
    if case["out"]:
        yield dict(case, out="")
    if case["bin"] != "plain":
        yield dict(case, bin="plain")


def describe(case):
    return to_text(case) + json.dumps(case["strategy"])
