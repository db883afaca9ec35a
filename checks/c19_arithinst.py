"""C19 arithmetic instantiation is sound, bounded and off when disabled."""
import json, re
from vlib import build, gkc, proofread, z3o
from vlib import builtin as B
from vlib.engine import ok, viol, skip
from checks import c10_kb, c12_repeat

PROP = "C19"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: integer problems with a known model, problems needing one documented instance, and the modes against each other"
LEVEL_NOTE = "sampled; the models are checked by z3 over all integers, the proofs' instances by z3 against every interpretation over the integers it can refute them with"
RULE = ("sat: clauses over the integers which hold in a generated interpretation of their predicates (thresholds, residue classes, finite sets; z3 confirms each clause for all integers), many of them one step from being contradictory: never proved in any mode.  "
        "inst: a comparison of a variable with a number, or an inequation of a variable, a sum or a difference with a number, next to literals cut by unit clauses: proved in modes 1 and 2.  "
        "off: with mode 0 the other limits change no byte, no step of the proof is an instantiation and no clause is scanned; without arithmetic all modes print the same.  "
        "more: what mode 0 proves is proved in the other modes.  bound: problems which invite endless instantiation end, the counters and the consecutive instantiation steps of the proof obey the limits, and each instantiated clause follows from its parents.  "
        "Non-trivial: sat - a clause was instantiated in mode 2 or an arithmetic atom is not ground; inst, more - proved; off, bound - ended.  Distinct by problem text.")
ASSUMPTIONS = ["only the classes of instances named under inst are expected to be found; other problems need only stay sound",
               "the integer model is unbounded: a result beyond 64 bits is not computed and stays a term"]
CHUNK = 6
PROCS = 8


def prepare(tier):
    return {"kb": {k: c10_kb.inner(k).prepare(tier) for k in c10_kb.INNER}, "gkc": build.build("small", "builtin")}


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [(a, int(n * k)) for a, n in (("sat", 2200), ("inst", 900), ("off", 500), ("more", 500), ("bound", 500))]


# ---------------------------------------------------------------- terms: ["i",n] ["v",name] ["f",name,args] (vlib/builtin.py)

CMP = {"$less": "<", "$greater": ">", "$lesseq": "<=", "$greatereq": ">="}
V = ["v", "X"]


def num(r, pool):
    k = r.random()
    return ["i", r.choice(pool) + r.choice([0, 0, 0, 1, -1]) if k < 0.8 else r.randint(-9, 9) if k < 0.95 else r.randint(-10 ** 6, 10 ** 6)]


def term(r, pool, vs, d=1):
    v = ["v", r.choice(vs)]
    k = r.random()
    if d == 0 or k < 0.45:
        return v
    t = term(r, pool, vs, d - 1)
    k = r.randrange(8)
    c = num(r, pool)
    if k < 2:
        return ["f", "$sum", t, c] if r.random() < 0.5 else ["f", "$sum", c, t]
    if k < 4:
        return ["f", "$difference", t, c] if r.random() < 0.6 else ["f", "$difference", c, t]
    if k == 4:
        return ["f", "$product", t, ["i", r.choice([2, 3, -1, -2, 5])]]
    if k == 5:
        return ["f", "$uminus", t]
    if k == 6:
        return ["f", r.choice(["$remainder_e", "$quotient_e"]), t, ["i", r.choice([2, 3, 4, 7])]]
    return ["f", "$sum", t, ["v", r.choice(vs)]]


def pred(r, pool):
    """Interpretation of a unary predicate."""
    k = r.randrange(6)
    if k == 0:
        return ["th", r.choice(list(CMP)), r.choice(pool)]
    if k == 1:
        m = r.choice([2, 3, 4])
        return ["mod", m, sorted(set(r.randrange(m) for _ in range(r.randrange(1, m))))]
    if k == 2:
        return ["set", sorted(set(r.choice(pool) + r.randint(-1, 1) for _ in range(r.randrange(0, 3)))), r.random() < 0.5]
    if k == 3:
        a = r.choice(pool)
        return ["int", a, a + r.randrange(0, 6), r.random() < 0.5]
    return ["th", r.choice(list(CMP)), r.choice(pool)] if k < 5 else ["all", r.random() < 0.5]


def holds(p, n):
    if p[0] == "th":
        return {"<": n < p[2], ">": n > p[2], "<=": n <= p[2], ">=": n >= p[2]}[CMP[p[1]]]
    if p[0] == "mod":
        return n % p[1] in p[2]
    if p[0] == "set":
        return (n in p[1]) == p[2]
    if p[0] == "int":
        return (p[1] <= n <= p[2]) == p[3]
    return p[1]


def smt_pred(p, t):
    i = smt(["i", p[2]]) if p[0] == "th" else None
    if p[0] == "th":
        return "(%s %s %s)" % (CMP[p[1]], t, i)
    if p[0] == "mod":
        return "(or false %s)" % " ".join("(= (mod %s %d) %d)" % (t, p[1], x) for x in p[2])
    if p[0] == "set":
        s = "(or false %s)" % " ".join("(= %s %s)" % (t, smt(["i", x])) for x in p[1])
        return s if p[2] else "(not %s)" % s
    if p[0] == "int":
        s = "(<= %s %s %s)" % (smt(["i", p[1]]), t, smt(["i", p[2]]))
        return s if p[3] else "(not %s)" % s
    return "true" if p[1] else "false"


def value(t, e):
    if t[0] == "i":
        return t[1]
    if t[0] == "v":
        return e[t[1]]
    a = [value(x, e) for x in t[2:]]
    f = t[1]
    if f == "$sum":
        return a[0] + a[1]
    if f == "$difference":
        return a[0] - a[1]
    if f == "$product":
        return a[0] * a[1]
    if f == "$uminus":
        return -a[0]
    if f == "$remainder_e":
        return a[0] % a[1]
    return a[0] // a[1]                          # positive divisors only


def smt(t):
    if t[0] == "i":
        return str(t[1]) if t[1] >= 0 else "(- %d)" % -t[1]
    if t[0] == "v":
        return "v" + t[1]
    return "(%s %s)" % ({"$sum": "+", "$difference": "-", "$product": "*", "$uminus": "-", "$remainder_e": "mod", "$quotient_e": "div"}[t[1]],
                        " ".join(smt(x) for x in t[2:]))


def tvars(t, out):
    if t[0] == "v":
        out.add(t[1])
    elif t[0] == "f":
        for x in t[2:]:
            tvars(x, out)
    return out


def lit_true(l, model, e):
    neg, a = l
    if a[0] in CMP:
        x, y = value(a[1], e), value(a[2], e)
        v = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[CMP[a[0]]]
    elif a[0] == "=":
        v = value(a[1], e) == value(a[2], e)
    elif a[0] == "$is_int":
        v = True
    else:
        v = holds(model[a[0]], value(a[1], e))
    return v != neg


def smt_lit(l, model):
    neg, a = l
    if a[0] in CMP or a[0] == "=":
        s = "(%s %s %s)" % (CMP.get(a[0], "="), smt(a[1]), smt(a[2]))
    elif a[0] == "$is_int":
        s = "true"
    else:
        s = smt_pred(model[a[0]], smt(a[1]))
    return "(not %s)" % s if neg else s


def clause_vars(c):
    out = set()
    for _, a in c:
        for t in a[1:]:
            tvars(t, out)
    return sorted(out)


def plausible(c, model, r, pool):
    vs = clause_vars(c)
    near = sorted(set([y + k for y in pool for k in range(-6, 7)] + [3 * y + k for y in pool for k in range(-6, 7)] + [-y for y in pool] + list(range(-12, 13)) + [y // 2 for y in pool] + [10 ** 7, -10 ** 7]))
    if len(vs) <= 1:
        return all(any(lit_true(l, model, {vs[0]: n} if vs else {}) for l in c) for n in near)
    pts = [{v: r.choice(near) for v in vs} for _ in range(80)]
    return all(any(lit_true(l, model, e) for l in c) for e in pts)


def valid(c, model):
    """The clause holds for all integers in the model (z3)."""
    vs = clause_vars(c)
    s = "(reset)(set-option :timeout 2000)" + "".join("(declare-const v%s Int)" % v for v in vs)
    s += "".join("(assert (not %s))" % smt_lit(l, model) for l in c) + "(check-sat)"
    return z3o.ask(s) == "unsat"


def gen_clause(r, pool, model, nv):
    vs = ["X", "Y"][:nv]
    c = []
    for _ in range(r.choice([1, 2, 2, 2, 3, 3])):
        k = r.random()
        if k < 0.5:
            a = [r.choice(sorted(model)), term(r, pool, vs)]
        elif k < 0.85:
            a = [r.choice(list(CMP)), term(r, pool, vs), num(r, pool) if r.random() < 0.8 else term(r, pool, vs)]
            if r.random() < 0.3:
                a = [a[0], a[2], a[1]]
        elif k < 0.97:
            a = ["=", term(r, pool, vs), num(r, pool)]
        else:
            a = ["$is_int", term(r, pool, vs)]
        c.append([r.random() < 0.5, a])
    return c


def ground(r, pool, model):
    n = r.choice(pool) + r.randint(-3, 3)
    p = r.choice(sorted(model))
    return [[not holds(model[p], n), [p, ["i", n]]]]


STRATS = [{"strategy": ["unit"], "query_preference": 0}, {"strategy": ["negative_pref"]}, {"strategy": ["negative_pref"], "query_preference": 0}, {"strategy": []},
          {"strategy": ["hardness_pref"]}, {"strategy": ["positive_pref"]}, {"strategy": ["double"], "query_preference": 0}, {"strategy": ["hyper"]}]


def limits(r):
    o = {}
    for k, v in (("arith_inst_max_vars", [1, 2]), ("arith_inst_candidate_limit", [1, 2, 4, 8, 30]), ("arith_inst_probe_limit", [1, 4, 16, 64, 1000]),
                 ("arith_inst_keep_limit", [1, 2, 8, 60]), ("arith_inst_depth_limit", [1, 2, 3, 8]), ("arith_inst_global_limit", [1, 3, 50, 5000])):
        if r.random() < 0.35:
            o[k] = r.choice(v)
    return o


def gen(kind, r, i, tier):
    q = {"kind": kind, "syntax": r.choice(["simple", "simple", "tptp", "json"]), "strat": r.choice(STRATS)}
    if kind in ("off", "more") and r.random() < 0.5:
        k = r.choice(["c02", "c03", "c06", "c06", "c07", "c08", "c18"])
        m = c10_kb.inner(k)
        for _ in range(30):
            pl = m.plan("quick")
            c = m.gen(r.choices([p[0] for p in pl], [p[1] for p in pl])[0], r, i, "quick")
            if c is not None:
                return dict(q, inner=k, case=c, json=False, limits=limits(r), mode=r.choice([1, 2]))
        return None
    base = r.choice([0, 0, 5, 7, 10, 100, -20, 1000])
    pool = sorted(set(base + r.randint(-4, 4) for _ in range(r.randrange(1, 4))))
    if kind == "inst":
        n, k = ["i", r.choice([r.choice(pool), r.randint(-10 ** 9, 10 ** 9)])], ["i", r.choice([1, 2, 3, 7, -2, r.randint(-1000, 1000)]) or 1]
        if r.random() < 0.5:
            a = [r.choice(list(CMP)), V, n]
            neg = r.random() < 0.5
        else:
            a = ["=", r.choice([V, ["f", "$sum", V, k], ["f", "$sum", k, V], ["f", "$difference", V, k], ["f", "$difference", k, V]]), n]
            neg = True
        if r.random() < 0.4:
            a = [a[0], a[2], a[1]]
        w = r.randrange(4)
        cl = [[[neg, a]]]
        if w == 1:
            cl = [[[neg, a], [False, ["q", V]]], [[True, ["q", ["v", "Y"]]]]]
        elif w == 2:
            cl = [[[True, ["p", V]], [neg, a]], [[False, ["p", ["v", "Y"]]]]]
        elif w == 3:
            cl = [[[True, ["p", V]], [neg, a], [False, ["q", ["c", "b"]]]], [[False, ["p", ["v", "Y"]]]], [[True, ["q", ["c", "b"]]]]]
        return dict(q, clauses=cl, mode=r.choice([1, 2, None]), strat={"strategy": ["unit"], "query_preference": 0})
    model = {p: pred(r, pool) for p in ["p", "q", "r"][:r.randrange(1, 4)]}
    cl = []
    want = r.randrange(2, 7)
    for _ in range(400):
        c = gen_clause(r, pool, model, r.choice([1, 1, 1, 2])) if r.random() < 0.9 else ground(r, pool, model)
        tr = any(all(lit_true([l[0], l[1]], model, dict(zip("XY", (n, n + 1)))) for n in list(range(-20, 20)) + [y + k for y in pool for k in (-3, -1, 0, 1, 3)]) for l in c)
        if tr and r.random() < 0.85:
            continue
        if plausible(c, model, r, pool):
            cl.append(c)
            if len(cl) >= want:
                break
    if not cl:
        return None
    q.update(clauses=cl, model=model, limits=limits(r), mode=r.choice([1, 2]))
    if kind != "sat" and r.random() < 0.7:       # made contradictory at one place
        q["clauses"] = cl + [[[not l[0], l[1]] for l in ground(r, pool, model)]]
        q.pop("model")
    return q


# ---------------------------------------------------------------- running

def call(env, p, st, par=0, print_=10, seconds=4):
    return gkc.run(env["gkc"], [p, "-mbsize", 60, "-print", print_, "-parallel", par, "-seconds", seconds, "-strategytext", json.dumps(st)], timeout=40)


def file_of(case, env):
    if "inner" in case:
        return c12_repeat.problem(case, env)
    return gkc.write("problem" + B.EXT[case["syntax"]], B.problem([[tuple(l) for l in c] for c in case["clauses"]], case["syntax"]))


def desc(text, *rs):
    return "".join("\n%s\n%s" % (" ".join(map(repr, r.cmd[1:])), r.out[:2000]) for r in rs) + "\nproblem:\n" + text[:3000]


def slow(r):
    return r.timeout or r.time_limit


def smt_term(t, vm, fm):
    if t[0] == "v":
        return vm.setdefault(t[1], "w%d" % len(vm))
    if t[0] == "i":
        return smt(t)
    if t[0] == "f" and len(t) > 2:
        n = t[1]
        a = [smt_term(x, vm, fm) for x in t[2:]]
        std = {"$sum": "+", "$difference": "-", "$product": "*"}.get(n)
        if std and len(a) == 2:
            return "(%s %s)" % (std, " ".join(a))
        if n == "$uminus" and len(a) == 1:
            return "(- %s)" % a[0]
        if n in ("$remainder_e", "$quotient_e") and t[3][0] == "i" and t[3][1] > 0:
            return "(%s %s)" % ("mod" if n == "$remainder_e" else "div", " ".join(a))
        if n.startswith("$"):
            raise ValueError(n)
        fm[("f", n, len(a))] = "f%d" % len(fm) if ("f", n, len(a)) not in fm else fm[("f", n, len(a))]
        return "(%s %s)" % (fm[("f", n, len(a))], " ".join(a))
    if t[0] == "f" and not t[1].startswith("$"):
        if ("f", t[1], 0) not in fm:
            fm[("f", t[1], 0)] = "f%d" % len(fm)
        return fm[("f", t[1], 0)]
    raise ValueError(t)


def smt_clause(c, fm, quant):
    vm, ls = {}, []
    for l in c:
        neg = False
        while l[0] == "~":
            neg, l = not neg, l[1]
        if l[0] == "p":
            a = [smt_term(x, vm, fm) for x in l[2:]]
            if l[1] in CMP:
                s = "(%s %s)" % (CMP[l[1]], " ".join(a))
            elif l[1] == "$is_int":
                s = "true"
            elif l[1].startswith("$"):
                raise ValueError(l[1])
            else:
                k = ("p", l[1], len(a))
                if k not in fm:
                    fm[k] = "f%d" % len(fm)
                s = "(%s %s)" % (fm[k], " ".join(a)) if a else fm[k]
        else:
            s = "(= %s %s)" % (smt_term(l[1], vm, fm), smt_term(l[2], vm, fm))
            neg = neg != (l[0] == "!=")
        ls.append("(not %s)" % s if neg else s)
    s = "(or false %s)" % " ".join(ls)
    if quant:
        return "(forall (%s) %s)" % (" ".join("(%s Int)" % v for v in vm.values()), s) if vm else s
    return "(not (forall (%s) %s))" % (" ".join("(%s Int)" % v for v in vm.values()), s) if vm else "(not %s)" % s


def follows(parents, c):
    """False if an interpretation over the integers makes the parents true and the clause false."""
    fm = {}
    try:
        fs = [smt_clause(p, fm, True) for p in parents] + [smt_clause(c, fm, False)]
    except ValueError:
        return None
    decl = "".join("(declare-fun %s (%s) %s)" % (v, " ".join(["Int"] * k[2]), "Int" if k[0] == "f" else "Bool") for k, v in fm.items())
    x = z3o.ask("(reset)(set-option :timeout 500)" + decl + "".join("(assert %s)" % f for f in fs) + "(check-sat)")
    return {"unsat": True, "sat": False}.get(x)


def check_proof(x, st, mode, lab):
    """Message of a fault in the instantiation steps of the printed proofs, or None."""
    try:
        prs = proofread.text_proofs(x.out)
    except Exception:
        return None
    depth = st.get("arith_inst_depth_limit", 2 if mode == 2 else 1)
    mv = st.get("arith_inst_max_vars", 2 if mode == 2 else 1)
    for ans, steps in prs:
        d = {s["id"]: s for s in steps}

        def anc(s):
            return 1 + anc(d[s["srcs"][0]]) if s["rule"] == "arithinst" and s["srcs"] and s["srcs"][0] in d else 0
        for s in steps:
            if s["rule"] != "arithinst":
                continue
            lab.append("step")
            if anc(s) > depth:
                return "step %s: %d instantiations in a row, limit %d" % (s["id"], anc(s), depth)
            par = [d[p]["clause"] for p in s["srcs"] if p in d]
            if par and s["clause"] and len(par) == 1:
                n0, n1 = cvars(par[0]), cvars(s["clause"])
                same_len = len(par[0]) - len(s["clause"])
                if same_len == 0 and n0 - n1 > mv:
                    return "step %s: %d variables instantiated, limit %d" % (s["id"], n0 - n1, mv)
            f = follows(par, s["clause"])
            lab.append("follows:%s" % f)
            if f is False:
                return "step %s does not follow from its parents" % s["id"]
    return None


def cvars(c):
    s = set()

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "v":
                s.add(x[1])
            else:
                for y in x:
                    w(y)
    w(c)
    return len(s)


def counters(out):
    d = {}
    for n in ("scanned", "frontiers", "candidates", "probes", "kept"):
        m = re.findall(r"^arithinst:.*\b%s=(\d+)" % n, out, re.M)
        if m:
            d[n] = [int(x) for x in m]
    return d


def run(case, env):
    lab = ["kind:" + case["kind"]]
    kind = case["kind"]
    if kind == "sat" and not all(valid(c, case["model"]) for c in case["clauses"]):
        return skip("model not confirmed", lab)
    p = file_of(case, env)
    if p is None:
        return skip("no problem file", lab)
    text = open(p, errors="replace").read()
    key = json.dumps([text, case["strat"], case.get("mode"), case.get("limits")])
    st = dict(case["strat"])
    c0 = c12_repeat.cpu()
    if kind == "inst":
        if case["mode"] is not None:
            st["arith_instantiation"] = case["mode"]
        x = call(env, p, st, seconds=10)
        if not x.proof:
            return viol("the needed instance is not found" + desc(text, x), lab)
        m = check_proof(x, st, case["mode"] or 1, lab)
        if m:
            return viol(m + desc(text, x), lab)
        return ok(True, key, lab)
    if kind == "sat":
        seen = False
        for mode in (1, 2):
            s = dict(st, arith_instantiation=mode, max_dseconds=3)
            if mode == 2:
                s.update(case["limits"])
            x = call(env, p, s, seconds=3)
            if x.proof:
                return viol("a satisfiable problem is proved in mode %d" % mode + "\nmodel: %s" % json.dumps(case["model"]) + desc(text, x), lab)
            if x.crashed:
                return viol("crash" + desc(text, x), lab)
            if x.error and "cannot allocate" not in x.out:
                return viol("error" + desc(text, x), lab)
        return ok(any(clause_vars(c) for c in case["clauses"]), key, lab)
    if kind == "off":
        a = call(env, p, dict(st, arith_instantiation=0))
        if slow(a) or c12_repeat.cpu() - c0 > 1:
            return skip("long", lab)
        b = call(env, p, dict(st, arith_instantiation=0, **case["limits"]), print_=10)
        if slow(b):
            return skip("long", lab)
        if a.out != b.out:
            return viol("limits of the disabled instantiation change the output" + desc(text, a, b), lab)
        if "arithinst" in a.out:
            return viol("instantiation although disabled" + desc(text, a), lab)
        arith = re.search(r"\$(?!not|pr\b|list|first|rest|nil|true|false)[a-z]|[-+*/<>]", re.sub(r"-[a-z]|\$pr|<=>|=>|<=|->|<->", "", text))
        if not arith:
            lab.append("no arithmetic")
            y = call(env, p, dict(st, arith_instantiation=case["mode"], **case["limits"]))
            if not slow(y) and y.out != a.out:
                return viol("instantiation changes a problem without arithmetic" + desc(text, a, y), lab)
        return ok(a.proof or a.noproof, key, lab)
    if kind == "more":
        a = call(env, p, dict(st, arith_instantiation=0))
        if slow(a) or not a.proof or c12_repeat.cpu() - c0 > 0.5:
            return skip("not proved without", lab)
        b = call(env, p, dict(st, arith_instantiation=case["mode"]), seconds=20)
        if c12_repeat.cpu() - c0 > 3 and not b.proof:
            return skip("long", lab)
        if not b.proof:
            return viol("a proof is lost by instantiation" + desc(text, a, b), lab)
        m = check_proof(b, st, case["mode"], lab)
        if m:
            return viol(m + desc(text, b), lab)
        return ok(True, key, lab)
    s = dict(st, arith_instantiation=case["mode"], max_dseconds=3, **case["limits"])
    x = call(env, p, s, print_=10, seconds=10)
    if x.crashed or x.timeout:
        return viol("crash or no end" + desc(text, x), lab)
    m = check_proof(x, s, case["mode"], lab)
    if m:
        return viol(m + desc(text, x), lab)
    y = call(env, p, s, print_=20, seconds=10)
    c = counters(y.out)
    if c:
        lab.append("counted")
        if any(n > s.get("arith_inst_global_limit", 1000) for n in c.get("probes", [])):
            return viol("more probes than the limit: %s" % c + desc(text, y), lab)
        for k, n in zip(c.get("kept", []), c.get("scanned", [])):
            if k > n * s.get("arith_inst_keep_limit", 4 if case["mode"] == 2 else 2):
                return viol("more instances than the limit: %s" % c + desc(text, y), lab)
        for k, n in zip(c.get("probes", []), c.get("scanned", [])):
            if k > n * s.get("arith_inst_probe_limit", 32 if case["mode"] == 2 else 16):
                return viol("more probes of a clause than the limit: %s" % c + desc(text, y), lab)
    return ok(True, key, lab)


def shrinks(case):
    if "clauses" in case:
        cl = case["clauses"]
        for i in range(len(cl)):
            if len(cl) > 1:
                yield dict(case, clauses=cl[:i] + cl[i + 1:])
        if case["kind"] != "sat":
            for i, c in enumerate(cl):
                for j in range(len(c)):
                    if len(c) > 1:
                        yield dict(case, clauses=cl[:i] + [c[:j] + c[j + 1:]] + cl[i + 1:])
    if "case" in case:
        for c in c10_kb.inner(case["inner"]).shrinks(case["case"]):
            yield dict(case, case=c)
    if case.get("limits"):
        for k in case["limits"]:
            yield dict(case, limits={a: b for a, b in case["limits"].items() if a != k})


def describe(case):
    if "clauses" in case:
        return B.problem([[tuple(l) for l in c] for c in case["clauses"]], "simple") + json.dumps({k: v for k, v in case.items() if k != "clauses"})
    return json.dumps({k: v for k, v in case.items() if k != "case"})[:3000]
