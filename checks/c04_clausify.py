"""C04 clausification preserves meaning.

Oracle, per statement: (1) a random finite model of the statement must extend, by choosing the
introduced symbols only, to a model of its clauses (decided by z3 over the fixed finite domain);
(2) the clauses must entail the statement (z3, with finite countermodel search)."""
import json
from vlib import build, fol, gkc, proofread, z3o
from vlib.engine import ok, viol, skip
from checks import c01_soundness

PROP = "C04"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random formulas, printed clauses compared with the formula on random finite models (extension by introduced symbols) and by entailment"
LEVEL_NOTE = "sampled formulas; model extension is decided exactly over the finite domain, entailment exactly where z3 decides it"
RULE = ("Random closed and open formulas with all connectives, nested and re-bound quantifiers, equality, and function symbols; deep propositional "
        "equivalences that force introduced definitions; written in the three languages, converted by -convert -clausify (text, JSON, TPTP). "
        "Each statement is checked on several random models of it and for entailment from its clauses.  Non-trivial: the statement has at "
        "least two connectives or quantifiers and at least one clause; distinct by text.")
ASSUMPTIONS = ["entailments z3 cannot decide (0.4 s, domains 2 and 3) are counted as not judged in labels"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("formula", 1500 * k), ("deep", 600 * k), ("prop", 600 * k), ("open", 300 * k), ("goal", 600 * k), ("prefix", 500 * k)]


def rand_formula(r, kind):
    if kind == "prop":
        sig = fol.Sig(["a"], [], [(p, 0) for p in "pqrs"[:r.randint(2, 4)]])
        f = fol.gen_formula(r, sig, [], r.randint(3, 6), 0, 0, ["X"])
        # no quantifiers here
        return sig, strip_quant(f)
    sig = fol.gen_sig(r, maxc=2, maxf=2, maxp=3, maxar=2)
    eq = r.choice([0, 0, 0.2, 0.4])
    depth = r.randint(4, 6) if kind == "deep" else r.randint(1, 4)
    td = r.choice([0, 0, 1])
    if r.random() < 0.3:
        # lists and strings (no equality: they have a value of their own)
        sig.funs.append(("$list", 2))
        sig.consts += ["$nil", "$nil", r.choice(['""', '"a"'])]
        eq, td = 0, r.choice([1, 2, 3])
    nv = r.choice([["X", "Y", "Z"], ["X", "Y"], ["X"], ["X", "Y", "Z", "U"]])
    f = fol.gen_formula(r, sig, ["X", "Y"] if kind == "open" else [], depth, td, eq, nv)
    return sig, f


def strip_quant(f):
    if f[0] in ("!", "?"):
        return strip_quant(f[2])
    if f[0] in ("p", "=", "!="):
        return f
    return [f[0]] + [strip_quant(g) for g in f[1:]]


def model_json(m):
    return {"n": m.n, "funs": {k: sorted([list(a), v] for a, v in t.items()) for k, t in m.funs.items()},
            "preds": {k: sorted(list(a) for a in t) for k, t in m.preds.items()}}


def json_model(d):
    return fol.Model(d["n"], {k: {tuple(a): v for a, v in t} for k, t in d["funs"].items()},
                     {k: {tuple(a) for a in t} for k, t in d["preds"].items()})


def gen_prefix(r):
    """A quantifier prefix with its own model: the relation of the matrix is the graph of random Skolem functions, so a
    Skolem function with too few arguments (or a wrongly exchanged quantifier) has no interpretation in it."""
    k = r.randint(3, 5)
    n = r.choice([2, 2, 3]) if k < 5 else 2
    vs = ["X", "Y", "Z", "U", "W"][:k]
    r.shuffle(vs)
    qs = [r.choice("!?") for _ in vs]
    if r.random() < 0.5:
        qs = ["!" if j % 2 == r.randint(0, 1) else "?" for j in range(k)]
    qs[-1] = "?" if r.random() < 0.8 else "!"
    tuples = [()]
    funs = {}
    for j, q in enumerate(qs):
        new = []
        for t in tuples:
            if q == "!":
                new += [t + (d,) for d in range(n)]
            else:
                u = tuple(x for x, qq in zip(t, qs) if qq == "!")
                new.append(t + (funs.setdefault((j, u), r.randrange(n)),))
        tuples = new
    perm = list(range(k))
    r.shuffle(perm)
    rel = {tuple(t[x] for x in perm) for t in tuples}
    if r.random() < 0.3:
        rel.add(tuple(r.randrange(n) for _ in range(k)))
    atom = ["p", "s"] + [["v", vs[x]] for x in perm]
    # sometimes other conjuncts, disjuncts and negations between the quantifiers
    preds = {"s/%d" % k: rel}
    f = atom
    neg = False
    for j in range(k - 1, -1, -1):
        q, v = qs[j], vs[j]
        if r.random() < 0.2:      # from here outwards write the formula as a negation
            f = ["~", f] if f[0] != "~" else f[1]
            neg = not neg
        f = [q if not neg else {"!": "?", "?": "!"}[q], [v], f]
        if r.random() < 0.25:
            nm = "r%d" % j
            preds["%s/0" % nm] = {()} if r.random() < 0.8 else set()
            a = ["p", nm]
            if () in preds[nm + "/0"]:
                f = r.choice([["&", f, a], ["=>", a, f]]) if not neg else r.choice([["|", f, ["~", a]], ["=>", a, f]])
            else:
                f = ["|", a, f] if not neg else ["&", ["~", a], f]
    if neg:
        f = ["~", f]
    m = fol.Model(n, {"a/0": {(): 0}}, preds)
    return fol.Sig(["a"], [], [(x.split("/")[0], int(x.split("/")[1])) for x in sorted(preds)]), f, m


def gen(kind, r, i, tier):
    if kind == "prefix":
        sig, f, m = gen_prefix(r)
        assert m.holds(f), (f, model_json(m))
        models = [model_json(m)] + [model_json(fol.random_model(r, sig, 2)) for _ in range(2)]
        return {"items": [f], "goal": None, "syntax": r.choice(["tptp", "simple", "json"]), "models": models,
                "fmt": r.choice(["-json"] * 3 + ["", "-tptp"]), "bin": r.choice(["gkc"] * 12 + ["plain", "bison"])}
    sig, f = rand_formula(r, kind)
    if fol.size(f) > 260:
        return None
    items = [f]
    if r.random() < 0.25:
        g = fol.gen_formula(r, sig, [], r.randint(1, 3), 1, 0.1 if "$nil" not in sig.consts else 0)
        items.append(g)
    goal = None
    if kind == "goal":
        goal = items.pop()
        if fol.free_vars(goal):
            goal = gkc.close(goal)
        if not items and r.random() < 0.6:
            items.append(fol.gen_formula(r, sig, [], 1, 1, 0))
    syntax = r.choice(["tptp", "simple", "json"])
    models = [model_json(fol.random_model(r, sig, r.choice([1, 2, 2, 2, 3]))) for _ in range(4)]
    return {"items": items, "goal": goal, "syntax": syntax, "models": models, "fmt": r.choice(["-json"] * 3 + ["", "-tptp"]),
            "bin": r.choice(["gkc"] * 12 + ["plain", "bison"])}


def convert(case, env):
    text = c01_soundness.to_text(case)
    p = gkc.write("p" + gkc.EXT[case["syntax"]], text)
    args = [p, "-mbsize", 50, "-clausify"]
    if case["fmt"]:
        args.append(case["fmt"])
    return text, gkc.run(env[case["bin"]], args, timeout=60)


def read_clauses(fmt, out):
    """[(name or None, clause)]"""
    res = []
    if fmt == "-json":
        if not out.strip():
            return []
        for x in json.loads(out):
            if isinstance(x, dict):
                res.append((x.get("@name"), plain(proofread.json_clause(x["@logic"]))))
            else:
                res.append((None, plain(proofread.json_clause(x))))
        return res
    for line in out.splitlines():
        line = line.strip()
        if not line:
            continue
        if fmt == "-tptp":
            if not (line.startswith("cnf(") and line.endswith(").")):
                raise proofread.Bad("not a cnf line: %r" % line)
            name, role, rest = line[4:-2].split(",", 2)
            res.append((name.strip("'"), plain(proofread.tptp_clause(rest))))
        else:
            if not line.endswith("."):
                raise proofread.Bad("no final dot: %r" % line)
            res.append((None, plain(proofread.text_clause(line[:-1]))))
    return res


def plain(x):
    """Strings as plain constants."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "s":
            return ["f", '"%s"' % x[1]]
        return [plain(y) for y in x]
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    return x


def introduced(name):
    return name.startswith("$sk") or name.startswith("$df")


def extends(m, clauses):
    """Can the introduced symbols be interpreted over m so that the clauses hold?"""
    if sum(z3o.expanded(z3o.clause_formula(c), m.n) for c in clauses) > 30000:
        return None
    e = z3o.Enc()
    dom = ["d%d" % i for i in range(m.n)]
    body = ["(assert %s)" % e.form(z3o.clause_formula(c), {}, dom) for c in clauses]
    head = ["(reset)", "(set-option :timeout 3000)", "(declare-datatypes ((U 0)) ((%s)))" % " ".join("(%s)" % d for d in dom)]
    for kind, nm, ar in e.decls:
        head.append("(declare-fun %s (%s) %s)" % (nm, " ".join(["U"] * ar), "Bool" if kind == "p" else "U"))
    facts = []
    import itertools
    for (kind, name, ar), nm in e.names.items():
        if introduced(name) or kind == "n":
            continue
        key = "%s/%d" % (name, ar)
        if kind == "p" and key not in m.preds or kind == "f" and key not in m.funs:
            return "unknown symbol %s" % key
        for args in itertools.product(range(m.n), repeat=ar):
            app = nm if ar == 0 else "(%s %s)" % (nm, " ".join(dom[a] for a in args))
            if kind == "p":
                facts.append("(assert %s)" % (app if args in m.preds[key] else "(not %s)" % app))
            else:
                facts.append("(assert (= %s %s))" % (app, dom[m.funs[key][args]]))
    r = z3o.ask("\n".join(head + body + facts + ["(check-sat)"]))
    return {"sat": True, "unsat": False}.get(r)


def run(case, env):
    text, r = convert(case, env)
    lab = ["syntax:" + case["syntax"], "fmt:" + (case["fmt"] or "text")]
    if r.crashed or r.timeout:
        return viol("crash: rc %s\n%s\n%s" % (r.rc, text, r.out[-500:]), lab)
    if r.error:
        return viol("error for a well formed problem: %s\n%s" % (text, r.out[:500]), lab)
    try:
        cl = read_clauses(case["fmt"], r.out)
    except (proofread.Bad, ValueError, KeyError) as e:
        return viol("clauses cannot be read: %s\n%s\n%s" % (e, text, r.out[:1500]), lab)
    stmts = [("ax%d" % i, z3o.closed(f)) for i, f in enumerate(case["items"])]
    if case["goal"] is not None:
        stmts.append(("goal", ["~", z3o.closed(case["goal"])]))
    named = all(n is not None for n, _ in cl) and case["syntax"] != "simple"
    if named:
        names = {n for n, _ in stmts}
        for n, c in cl:
            if n not in names:
                return viol("clause of an unknown statement: %s\n%s\n%s" % (n, text, r.out[:1500]), lab)
        groups = [(n, f, [c for m, c in cl if m == n]) for n, f in stmts]
    else:
        groups = [("all", ["&"] + [f for _, f in stmts] if len(stmts) > 1 else stmts[0][1], [c for _, c in cl])]
    nt = False
    for n, f, cs in groups:
        used = set()
        for c in cs:
            used |= proofread.symbols(c)
        lab += ["introduces:" + x for x in ("$sk", "$df") if any(s.startswith(x) for s in used)]
        nmod = 0
        for d in case["models"]:
            m = json_model(d)
            if not m.holds(f):
                continue
            nmod += 1
            if not cs:
                continue
            x = extends(m, cs)
            if isinstance(x, str):
                return viol("clause uses an unknown symbol: %s\n%s\n%s" % (x, text, r.out[:1500]), lab)
            if x is None:
                lab.append("undecided-extension")
            elif not x:
                return viol("a model of the statement does not extend to its clauses: statement %s, model %s\n%s\n%s"
                            % (n, json.dumps(d), text, r.out[:2500]), lab)
            else:
                lab.append("model-extended")
        # the other models must not satisfy the clauses: covered by entailment, and directly:
        for d in case["models"]:
            m = json_model(d)
            if m.holds(f):
                continue
            x = extends(m, cs) if cs else True
            if x is True:
                return viol("the clauses have a model that is not a model of the statement: statement %s, model %s\n%s\n%s"
                            % (n, json.dumps(d), text, r.out[:2500]), lab)
            lab.append("countermodel-refuted")
        if fol.size(f) < 160:
            e = z3o.entails([z3o.clause_formula(c) for c in cs], f, 200)
            lab.append("entailed" if e else "undecided-entailment" if e is None else "not-entailed")
            if e is False:
                return viol("the clauses do not entail the statement: %s\n%s\n%s" % (n, text, r.out[:2500]), lab)
        nt = nt or (nmod > 0 and cs and fol.size(f) > 12)
    return ok(bool(nt), text + case["fmt"], lab)


def shrinks(case):
    for it in fol.shrink_list(case["items"]):
        if it or case["goal"] is not None:
            yield dict(case, items=it)
    if case["goal"] is not None and case["items"]:
        yield dict(case, goal=None)
    for i, f in enumerate(case["items"]):
        for g in fol.shrink_formula(f):
            if case["syntax"] == "tptp":
                g = gkc.close(g)
            yield dict(case, items=case["items"][:i] + [g] + case["items"][i + 1:])
    if case["goal"] is not None:
        for g in fol.shrink_formula(case["goal"]):
            yield dict(case, goal=gkc.close(g))
    for ms in fol.shrink_list(case["models"]):
        if ms:
            yield dict(case, models=ms)


def describe(case):
    return c01_soundness.to_text(case)
