"""C01 soundness: a problem that has a model is never reported as proved.

Oracle: the model comes first.  A finite interpretation is drawn at random, then clauses and
formulas are drawn and kept (or negated) so that all of them are true in it; a conjecture, if
any, is false in it.  Any "proof found" for such a problem is unsound, whatever the strategy."""
import json
from vlib import build, fol, gkc, engine
from vlib.engine import ok, viol, skip

PROP = "C01"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: problems generated from a random finite model, run under random strategies"
LEVEL_NOTE = "sampled: no unsound result in the generated problems; the oracle (the generating model) is exact"
RULE = ("A random finite model is drawn first; clauses (minimised to few literals while still true in it) and "
        "formulas true in the model and a conjecture false in it are generated, written in one of the three input "
        "languages and run under a random strategy object, the automatic strategy, parallel workers and all output "
        "formats.  Non-trivial: at least four statements, some predicate (or equality) occurring both positively and "
        "negatively, and a run that ended with an explicit no-proof result; distinct by problem text and arguments.")
ASSUMPTIONS = ["timeouts and input errors are counted as not judged, never as a verdict"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("clauses", 5500 * k), ("eq", 5500 * k), ("fof", 4000 * k), ("ground", 1500 * k), ("big", 300 * k),
            ("auto", 40 * k), ("parallel", 40 * k)]


def strong_clause(rng, m, sig, nvars, maxlits, tdepth, eq):
    for _ in range(30):
        c = fol.gen_clause(rng, sig, nvars, maxlits, tdepth, eq, rng.choice([0.3, 0.6, 0.8]))
        if m.clause_holds(c):
            break
    else:
        # a false clause: add what makes it true is hard; use a ground fact instead
        a = fol.gen_atom(rng, sig, [], tdepth, eq)
        return [a] if m.holds(a) else [["~", a]]
    i = 0
    while i < len(c) and len(c) > 1:
        d = c[:i] + c[i + 1:]
        if m.clause_holds(d):
            c = d
        else:
            i += 1
    return c


def tautology(c):
    if any(l[0] == "=" and l[1] == l[2] for l in c):
        return True
    return any(["~", l] in c for l in c)


def overload(rng, sig):
    """One name for symbols of different kinds or arities, which stay different symbols."""
    taken = {p for p, a in sig.preds if a == 0}      # a proposition and a constant of one name: known finding
    pool = [n for n in sig.consts + [f for f, _ in sig.funs] + [p for p, _ in sig.preds] if n not in taken]
    pool = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
    sig.funs = sorted({(rng.choice(pool) if rng.random() < 0.6 else f, a) for f, a in sig.funs})
    sig.preds = sorted({(rng.choice(pool) if rng.random() < 0.6 and a else p, a) for p, a in sig.preds})
    sig.consts = sorted({rng.choice(pool) if rng.random() < 0.3 else c for c in sig.consts})


def gen(kind, rng, i, tier):
    eq = {"eq": 0.55, "clauses": rng.choice([0, 0, 0.1]), "fof": rng.choice([0, 0.2, 0.4])}.get(kind, rng.choice([0, 0.25]))
    if kind == "ground":
        sig = fol.Sig(["a", "b", "c"][:rng.randint(1, 3)], [("f", 1)] if rng.random() < 0.5 else [],
                      [(p, rng.randint(0, 2)) for p in "pqr"])
    else:
        sig = fol.gen_sig(rng, maxc=4, maxf=3, maxp=4, maxar=3 if rng.random() < 0.3 else 2)
    if rng.random() < 0.25:
        overload(rng, sig)
    n = rng.choice([1, 2, 2, 2, 3, 3]) if kind != "ground" else rng.choice([2, 3])
    m = fol.random_model(rng, sig, n)
    items = []
    if kind in ("fof",) or (kind in ("auto", "parallel", "big") and rng.random() < 0.5):
        for _ in range(rng.randint(2, 9) if kind != "big" else rng.randint(10, 25)):
            if rng.random() < 0.5:
                f = fol.gen_formula(rng, sig, [], rng.randint(1, 4), rng.choice([0, 1, 2]), eq)
                if not m.holds(f):
                    f = fol.neg(f)
            else:
                c = strong_clause(rng, m, sig, rng.choice([1, 2, 3]), 4, rng.choice([0, 1, 2]), eq)
                f = ["|"] + c if len(c) > 1 else c[0]
            items.append(f)
        goal = None
        if rng.random() < 0.6:
            goal = fol.gen_formula(rng, sig, [], rng.randint(0, 3), 1, eq)
            if m.holds(goal):
                goal = fol.neg(goal)
            if fol.free_vars(goal):
                goal = gkc.close(goal)
                if m.holds(goal):
                    goal = None
        syntax = rng.choice(["tptp", "tptp", "simple", "json"])
    else:
        nc = {"big": rng.randint(30, 90), "ground": rng.randint(6, 30)}.get(kind, rng.randint(4, 25))
        nv = 0 if kind == "ground" else rng.choice([1, 2, 3, 3, 4])
        td = rng.choice([0, 1, 1, 2])
        ml = rng.choice([2, 3, 4, 5])
        for _ in range(nc):
            c = strong_clause(rng, m, sig, nv, ml, td, eq)
            if not tautology(c):
                items.append(["|"] + c if len(c) > 1 else c[0])
        goal = None
        if rng.random() < 0.3:
            c = strong_clause(rng, m, sig, 0, 1, td, eq)
            goal = fol.neg(c[0])
        syntax = rng.choice(["tptp", "cnf", "simple", "json"])
        if goal is not None and syntax == "cnf":
            syntax = "tptp"
    if not items:
        return None
    case = {"items": items, "goal": goal, "syntax": syntax, "sig": [sig.consts, sig.funs, sig.preds],
            "out": rng.choice(["", "", "", "-json", "-tptp"]), "bin": rng.choice(["gkc"] * 20 + ["plain", "bison"]),
            "text": False}
    if kind == "auto":
        case["strategy"] = None
    elif kind == "parallel":
        case["strategy"] = None if rng.random() < 0.4 else gkc.gen_strategy(rng, multi=1.0)
        case["parallel"] = rng.choice([1, 2, 4, 8])
    else:
        case["strategy"] = gkc.gen_strategy(rng)
    return case


def to_text(case):
    if case["syntax"] == "cnf":
        return "".join("cnf(c%d,%s,%s).\n" % (i, "axiom", fol.clause_str(it[1:] if it[0] == "|" else [it], "~"))
                       for i, it in enumerate(case["items"]))
    return gkc.problem_text(case["syntax"], case["items"], case["goal"])


def run_case(case, env, seconds=None):
    text = to_text(case)
    p = gkc.write("p" + gkc.EXT[case["syntax"]], text)
    args = [p, "-mbsize", 50, "-print", 10, "-parallel", case.get("parallel", 0),
            "-seconds", seconds or (1 if case["strategy"] is None or case.get("parallel") else 2)]
    if case["strategy"] is not None:
        st = dict(case["strategy"])
        def lim(s):
            if "max_dseconds" not in s and "max_seconds" not in s:
                s = dict(s, max_dseconds=1)
            return s
        if "runs" in st:
            st["runs"] = [lim(s) for s in st["runs"]]
        else:
            st = lim(st)
        args += ["-strategytext", json.dumps(st)]
    if case["out"]:
        args.append(case["out"])
    return text, gkc.run(env[case.get("bin", "gkc")], args, timeout=60)


def polarity_ok(case):
    pos, negs = set(), set()

    def walk(f, s):
        k = f[0]
        if k == "p":
            (pos if s > 0 else negs).add(f[1])
            if s == 0:
                pos.add(f[1])
        elif k in ("=", "!="):
            s2 = s if k == "=" else -s
            (pos if s2 > 0 else negs).add("=")
            if s == 0:
                pos.add("=")
        elif k in ("!", "?"):
            walk(f[2], s)
        elif k == "~":
            walk(f[1], -s)
        elif k in ("&", "|"):
            for g in f[1:]:
                walk(g, s)
        else:
            for g in f[1:]:
                walk(g, 0)
    for f in case["items"]:
        walk(f, 1)
    if case["goal"]:
        walk(case["goal"], -1)
    return bool(pos & negs)


def run(case, env):
    text, r = run_case(case, env)
    v = r.verdict()
    lab = ["verdict:" + v, "syntax:" + case["syntax"], "out:" + (case["out"] or "text")]
    if case["strategy"] is not None:
        for s in (case["strategy"].get("runs") or [case["strategy"]]):
            for nme in s["strategy"]:
                lab.append("strategy:" + nme)
            for k in s:
                if k not in ("strategy",):
                    lab.append("key:" + k)
    if v == "proof":
        return viol("proof found for a problem that has a model: %s\n%s" % (" ".join(map(str, r.cmd[1:])), r.out[:1500]), lab)
    if v == "crash":
        return viol("crash (signal %d): %s\n%s" % (-r.rc, " ".join(map(str, r.cmd[1:])), r.out[-500:]), lab)
    if v in ("hang", "error", "none"):
        return skip(v + (":" + r.out[:40] if v == "error" else ""), lab)
    nt = len(case["items"]) >= 4 and polarity_ok(case) and not r.time_limit
    return ok(nt, text + json.dumps(case["strategy"]) + case["out"], lab, sample=None)


def shrinks(case):
    # dropping statements keeps every model; formulas themselves are left alone
    for it in fol.shrink_list(case["items"]):
        yield dict(case, items=it)
    if case["goal"] is not None:
        yield dict(case, goal=None)
    st = case["strategy"]
    if st and "runs" in st:
        for s in st["runs"]:
            yield dict(case, strategy=s)
    elif st:
        for k in list(st):
            if k != "strategy":
                yield dict(case, strategy={a: b for a, b in st.items() if a != k})
        for nme in st["strategy"]:
            yield dict(case, strategy=dict(st, strategy=[x for x in st["strategy"] if x != nme]))
    if case["out"]:
        yield dict(case, out="")
    if case["bin"] != "plain":
        yield dict(case, bin="plain")


def describe(case):
    return to_text(case) + json.dumps(case["strategy"])
