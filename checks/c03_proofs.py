"""C03 every printed proof is a checkable derivation.

Oracle: an independent proof checker.  The proof is read back from the text, JSON or TPTP
output; for each derived step z3 decides whether the cited earlier steps entail it; input
steps are compared with the named statement (entailment, or for clauses with introduced
symbols, being one of the clauses the statement is converted to)."""
import json
from vlib import build, fol, gkc, proofread, z3o
from vlib.engine import ok, viol, skip
from checks import c01_soundness, c02_completeness as c02

PROP = "C03"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated provable problems, printed proofs re-checked step by step by an independent checker (z3 entailment per step)"
LEVEL_NOTE = "sampled proofs; each judged step is decided exactly (entailed or countermodel), undecided steps are counted"
RULE = ("Provable problems (as in C02, plus formulas with existential quantifiers and answers) under random strategies; each proof printed as "
        "text, JSON or TPTP is read back and every step checked.  Non-trivial: the proof has at least two derived steps that were "
        "judged; distinct by problem, strategy and format.")
ASSUMPTIONS = ["z3 decides the entailments; steps it cannot decide in 0.3 s or over domains of size 2 and 3 are not judged and counted in labels"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 0.75 if tier == "quick" else 12
    return [(a, int(b)) for a, b in [("hard-prop", 400 * k), ("hard-ground", 500 * k), ("hard-lift", 500 * k), ("hard-epr", 400 * k), ("groundeq", 500 * k), ("epr", 300 * k),
            ("epreq", 400 * k), ("lifteq", 500 * k), ("horn", 500 * k), ("chain2", 500 * k), ("chain3", 400 * k), ("chain4", 300 * k),
            ("fof", 400 * k), ("ex", 700 * k), ("answer", 300 * k), ("auto", 60 * k)]]



def exists_problem(r):
    """Axioms with nested quantifiers; the goal is one of the axioms weakened, or a formula z3 can prove from them."""
    sig = fol.gen_sig(r, maxc=2, maxf=1, maxp=3, maxar=2)
    eq = r.choice([0, 0, 0.25])
    ax = []
    for _ in range(r.randint(2, 5)):
        f = fol.gen_formula(r, sig, [], r.randint(1, 4), r.choice([0, 1]), eq)
        ax.append(z3o.closed(f))
    k = r.random()
    if k < 0.4:
        goal = ["|", r.choice(ax), fol.gen_formula(r, sig, [], 2, 1, eq)]
        goal = z3o.closed(goal)
    elif k < 0.7:
        goal = None
        f = r.choice(ax)
        ax.append(["~", f])
    else:
        goal = ["&"] + r.sample(ax, min(len(ax), 2))
        if len(goal) == 2:
            goal = goal[1]
    return ax, goal


def gen(kind, r, i, tier):
    if kind == "ex":
        ax, goal = exists_problem(r)
        case = {"items": ax, "goal": goal, "syntax": r.choice(["tptp", "tptp", "simple", "json"]), "sub": "ex",
                "strategy": gkc.gen_strategy(r, limits=False)}
    elif kind == "answer":
        cl, goal = c02.horn(r)
        vs = fol.free_vars(goal)
        ans = ["p", "$ans"] + [["v", v] for v in vs] if vs else None
        items = [["|"] + c if len(c) > 1 else c[0] for c in cl]
        items.append(["|", goal, ans] if ans else goal)
        case = {"items": items, "goal": None, "syntax": r.choice(["simple", "cnf"]), "sub": "answer",
                "strategy": gkc.gen_strategy(r, limits=False), "opts": r.choice([{}, {"max_answers": 3}, {"max_answers": 20}])}
    else:
        case = c02.gen(kind, r, i, tier)
        if case is None:
            return None
        if kind != "auto":
            if r.random() < 0.75:
                case["strategy"] = gkc.gen_strategy(r, limits=False)
    st = case["strategy"]
    for s in (st.get("runs") or [st]) if st else []:
        s.pop("propgen", None)      # both documented as experimental; they print propositional
        s.pop("instgen", None)      # abstractions of clauses as steps
    case["out"] = r.choice(["", "", "-json", "-tptp"])
    case["bin"] = r.choice(["gkc"] * 20 + ["plain", "bison"])
    return case


def statement(case, name):
    """The closed formula the named statement asserts (negated for the goal), or None."""
    if name == "goal":
        return ["~", z3o.closed(case["goal"])] if case["goal"] is not None else None
    base = name
    for p in ("ax", "c"):
        if base.startswith(p) and base[len(p):].isdigit():
            n = int(base[len(p):])
            if n < len(case["items"]):
                return z3o.closed(case["items"][n])
    return None


def as_clause(f):
    """The literals of a closed formula that is plainly a clause; else a clause no clause is a variant of."""
    while f[0] == "!":
        f = f[2]
    ls = f[1:] if f[0] == "|" else [f]
    for l in ls:
        while l[0] == "~":
            l = l[1]
        if l[0] not in ("p", "=", "!="):
            return [["p", "$none"]]
    return ls


def check_proof(case, steps, clausified, lab, env=None):
    """None or a message."""
    seen = {}
    judged = 0
    for n, s in enumerate(steps):
        if s["id"] in seen:
            return "step number used twice: %s" % s["id"], judged
        c = s["clause"]
        if s["rule"] == "in":
            nm = (s.get("name") or "").strip("'")
            nm = nm.split(",")[0]
            if nm.endswith("_$sk"):
                nm = nm[:-4]
            sk = any(x.startswith("$sk") or x.startswith("$df") for x in proofread.symbols(c))
            st = statement(case, nm)
            lab.append("input-step" + (":skolem" if sk else ""))
            if sk or st is None:
                # clauses with introduced symbols, and unnamed ones (simple syntax): one of the clauses printed by -clausify
                if clausified is not None:
                    cand = [d for (dn, d) in clausified if st is None or dn == nm or dn is None]
                    # trivial literals such as X != X are removed when the clause is read in
                    if not any(proofread.variant(c, d) for d in cand) and not any(
                            z3o.entails([z3o.clause_formula(d)], z3o.clause_formula(c)) is not False for d in cand):
                        return "input step is not a clause of its statement: %s %s" % (s.get("name"), c), judged
            else:
                r = True if proofread.variant(as_clause(st), c) else z3o.entails([st], z3o.clause_formula(c))
                if r is False:
                    return "input step does not follow from the statement it names: %s %s" % (s.get("name"), json.dumps(c)), judged
                if r is None:
                    lab.append("undecided-input")
        else:
            for p in s["srcs"]:
                if p not in seen:
                    return "step cites a step that is not earlier: %d cites %d" % (s["id"], p), judged
            if not s["srcs"]:
                return "derived step cites nothing: %d" % s["id"], judged
            prem = [z3o.clause_formula(seen[p]) for p in sorted(set(s["srcs"]))]
            r = z3o.entails(prem, z3o.clause_formula(c))
            lab.append("rule:" + s["rule"])
            if r is False:
                return "step does not follow from the steps it cites: step %d [%s %s] %s" % (s["id"], s["rule"], s["srcs"], json.dumps(c)), judged
            if r is None:
                lab.append("undecided-step")
            else:
                judged += 1
        seen[s["id"]] = c
    if not steps:
        return "empty proof: no steps", judged
    last = steps[-1]["clause"]
    rest = [l for l in last if not (l[0] == "p" and l[1] == "$ans")]
    if rest:
        return "last step is not a contradiction or an answer: %s" % json.dumps(last), judged
    used = set()
    for s in steps:
        used.update(s["srcs"])
    for s in steps[:-1]:
        if s["id"] not in used:
            return "step is not used: step %d" % s["id"], judged
    return None, judged


def problem_args(case):
    text = c01_soundness.to_text(case)
    p = gkc.write("p" + gkc.EXT[case["syntax"]], text)
    args = [p, "-mbsize", 50, "-print", 10, "-parallel", case.get("parallel", 0), "-seconds", 3]
    st = case["strategy"]
    if st is not None:
        st = json.loads(json.dumps(st))
        for s in st.get("runs", [st]):
            s.pop("max_seconds", None)
            s["max_dseconds"] = 3
        if case.get("opts"):
            st.update(case["opts"])
        args += ["-strategytext", json.dumps(st)]
    if case["out"]:
        args.append(case["out"])
    return text, p, args


def clauses_of(env, case, p):
    r = gkc.run(env["gkc"], [p, "-mbsize", 50, "-clausify", "-json"], timeout=30)
    try:
        return [(x.get("@name"), proofread.json_clause(x["@logic"])) if isinstance(x, dict) else
                (None, proofread.json_clause(x)) for x in json.loads(r.out)]
    except (ValueError, proofread.Bad, KeyError, TypeError):
        return None


def run(case, env):
    text, p, args = problem_args(case)
    r = gkc.run(env[case["bin"]], args, timeout=60)
    v = r.verdict()
    lab = ["verdict:" + v, "fmt:" + (case["out"] or "text"), "sub:" + case["sub"]]
    if v == "crash":
        return viol("crash (signal %d): %s\n%s\n%s" % (-r.rc, " ".join(map(str, r.cmd[1:])), text, r.out[-500:]), lab)
    if v != "proof":
        return ok(False, None, lab)
    try:
        proofs = proofread.proofs(case["out"], r.out)
    except (proofread.Bad, ValueError, KeyError, IndexError, TypeError) as e:
        return viol("proof cannot be read: %s: %s\n%s\n%s" % (type(e).__name__, e, text, r.out[:3000]), lab)
    if not proofs:
        return viol("proof found but none printed: %s\n%s" % (text, r.out[:1500]), lab)
    cl = clauses_of(env, case, p)
    if cl is not None and case["syntax"] in ("simple",):
        cl = [(None, d) for _, d in cl]
    total = 0
    for ans, steps in proofs:
        msg, j = check_proof(case, steps, cl, lab)
        if msg:
            return viol(msg + "\n%s\n%s\n%s" % (text, json.dumps(case["strategy"]), r.out[:5000]), lab)
        last = steps[-1]["clause"]
        if ans is None and last:
            return viol("answer clause printed but no answer reported: %s\n%s\n%s" % (json.dumps(last), text, r.out[:3000]), lab)
        total += j
    n = max(len(s) for _, s in proofs)
    lab.append("steps:%s" % ("1-4" if n < 5 else "5-9" if n < 10 else "10-19" if n < 20 else "20+"))
    return ok(total >= 2, text + json.dumps(case["strategy"]) + case["out"], lab)


def shrinks(case):
    for it in fol.shrink_list(case["items"]):
        yield dict(case, items=it)
    if case["goal"] is not None:
        yield dict(case, goal=None)
    st = case["strategy"]
    if st and "runs" in st:
        for s in st["runs"]:
            yield dict(case, strategy=s)
    elif st:
        for k in list(st):
            if k != "strategy":
                yield dict(case, strategy={a: b for a, b in st.items() if a != k})
        for nme in st["strategy"]:
            yield dict(case, strategy=dict(st, strategy=[x for x in st["strategy"] if x != nme]))
    if case["out"]:
        yield dict(case, out="")
    if case["bin"] != "gkc":
        yield dict(case, bin="gkc")


def describe(case):
    return c01_soundness.to_text(case) + json.dumps(case["strategy"])
