"""C18 the verdict does not depend on names, order, repetition, files or layout."""
import json, os, random, re, shutil
from vlib import build, engine, fol, gkc, lang, sat
from vlib.engine import ok, viol, skip
from checks import c02_completeness as c02

PROP = "C18"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: metamorphic - decided problems renamed, reordered, repeated, spread over files and laid out in other ways"
LEVEL_NOTE = "sampled problems and transformations"
RULE = ("Small problems decided by a reference procedure (propositional, ground, function-free, with and without equality, generalisations, Horn derivations, chains of equations; satisfiable and not; as clauses or "
        "formulas, with or without a conjecture) are presented in a random way: symbols renamed one to one (short, long with common beginnings, needing quotes), variables renamed per statement, statements, literals, operands and sides of "
        "equations reordered, statements repeated in variants, the statements spread over several files given together or over files and directories including each other, comments, blanks, line ends and redundant parentheses "
        "between all tokens.  The verdict must be the one of the reference.  Non-trivial: at least three statements and at least two kinds of change; distinct by the presented files.")
ASSUMPTIONS = ["complete strategies only (see C02)", "a run that ends at its time limit is repeated with 20 s before a missing proof counts; satisfiable problems whose search does not end are not judged",
               "JSON files and text files are not mixed when names need quotes"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("small", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 16
    return [("unsat", 4500 * k), ("sat", 2600 * k), ("horn", 600 * k), ("chain", 900 * k), ("answer", 900 * k)]


# ---------------------------------------------------------------- problems

def satset(r):
    """A satisfiable set near the border: an unsatisfiable core without one clause, and more clauses which keep it satisfiable."""
    for _ in range(20):
        kind = r.choice(["prop", "ground", "groundeq", "epr", "epreq"])
        cl = c02.unsat(r, kind)
        if not cl:
            continue
        eq = kind.endswith("eq")
        dec = (lambda x: sat.epr_sat(x, ["a", "b", "c"])) if kind.startswith("epr") else sat.ground_sat
        cl = list(cl)
        r.shuffle(cl)
        while cl and dec(cl) is False:
            cl.pop()
        if len(cl) >= 2 and dec(cl):
            return cl
    return None


def gen(kind, r, i, tier):
    goal = None
    if kind == "answer":
        return gen_answer(r)
    if kind == "sat":
        cl = satset(r)
        sub = "sat"
    elif kind == "horn":
        cl, goal = c02.horn(r)
        sub = "horn"
    elif kind == "chain":
        sub = "chain%d" % r.choice([1, 2, 2, 3])
        cl = c02.eqchain(r, int(sub[5:]))
    else:
        sub = r.choice(["prop", "ground", "groundeq", "epr", "epreq", "lift", "lifteq", "hard-prop", "hard-lift", "hard-epr", "hard-ground"])
        cl = None
        for _ in range(20):
            cl = c02.hard(r, sub[5:]) if sub.startswith("hard-") else c02.unsat(r, sub)
            if cl:
                break
    if not cl:
        return None
    form = r.random() < 0.45
    items = c02.to_formula(r, cl) if form else [["|"] + c if len(c) > 1 else c[0] for c in cl]
    conj = None
    if goal is not None:
        vs = fol.free_vars(goal)
        conj = fol.neg(["!", vs, goal] if vs else goal)
    elif r.random() < 0.4 and len(items) > 2:
        g = items.pop(r.randrange(len(items)))
        vs = fol.free_vars(g)
        conj = fol.neg(["!", vs, g] if vs else g)
    st = {"strategy": c02.strategy_names(r, "groundeq" if sub == "sat" else sub), "query_preference": r.choice([0, 0, 1])}
    if kind == "sat" and r.random() < 0.5:
        st["strategy"] = r.choice([["unit"], ["hyper"], ["query_focus"], ["hardness_pref"], ["double", "unit"]])
    elif conj is None and r.random() < 0.12:
        st = None
    return {"items": items, "goal": conj, "strategy": st, "sat": kind == "sat", "sub": sub, "syntax": r.choice(["simple", "tptp", "tptp", "json"]),
            "tr": transforms(r), "seed": r.randrange(1 << 30), "bin": r.choice(["gkc"] * 12 + ["plain", "bison"])}


TR = ["rename", "long", "quote", "vars", "order", "literals", "sides", "repeat", "files", "include", "layout", "names"]


def transforms(r):
    n = r.choice([1, 2, 3, 4, 6])
    return sorted(r.sample(TR, n))


def gen_answer(r):
    """Facts, a join rule and a question: the answers are a set computed here."""
    n = r.randint(2, 6)
    c = ["k%d" % i for i in range(n)]
    e = sorted({(r.choice(c), r.choice(c)) for _ in range(r.randint(2, 7))})
    m = sorted({r.choice(c) for _ in range(r.randint(1, 4))})
    F = lambda x: ["f", x]
    X, Y, Z = ["v", "X"], ["v", "Y"], ["v", "Z"]
    items = [["p", "e", F(a), F(b)] for a, b in e] + [["p", "m", F(a)] for a in m]
    items.append(["=>", ["&", ["p", "e", X, Y], ["p", "m", Y]], ["p", "t", X]] if r.random() < 0.5 else ["|", ["~", ["p", "e", X, Y]], ["~", ["p", "m", Y]], ["p", "t", X]])
    ans = sorted({a for a, b in e if b in m})
    q = ["|", ["~", ["p", "t", X]], ["p", "$ans", X]]
    items.append(q)
    return {"items": items, "goal": None, "strategy": {"strategy": r.choice([["negative_pref"], ["unit"], ["hornpref"]]), "query_preference": 0, "max_answers": 20}, "sat": not ans, "sub": "answer",
            "syntax": r.choice(["simple", "tptp", "json"]), "tr": [t for t in transforms(r) if t != "names"], "seed": r.randrange(1 << 30), "bin": "gkc", "answers": ans}


# ---------------------------------------------------------------- presenting

LONG = "a_long_name_with_many_letters_in_it_of_which_only_the_last_ones_differ_"
WORDS = ["a", "b", "p", "q", "f", "g", "ab", "ba", "a1", "a2", "aB", "ab_", "x1", "y", "sk1", "sk0", "cl", "cl1", "inc", "c0", "frm1", "e", "l", "o", "i", "def", "def1", "pr", "eq", "s", "n", "nil", "list", "sum", "less", "div", "mod", "sko", "f1", "s0", "ans", "p0", "p00",
         "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]


def renaming(r, tr):
    ren, used = {}, {}

    def f(kind, n, ar):
        key = kind + n + "/%d" % ar
        if n.startswith("$"):
            return n
        if key not in ren:
            for _ in range(50):
                k = r.random()
                if "quote" in tr and k < 0.5:
                    w = r.choice([o for o in lang.ODD if "\n" not in o and "\t" not in o])
                elif "long" in tr and k < 0.8:
                    w = LONG + r.choice(["", "x" * r.choice([5, 60, 150, 300])]) + r.choice("abcd") + r.choice(["", "1", "2"])
                elif "rename" in tr:
                    w = r.choice(WORDS)
                else:
                    w = n
                if kind == "p" and w in ("true", "false"):
                    continue
                # one name stays of one kind: predicates and constants of the same name are a known finding
                if used.get(w, key) == key:
                    break
            else:
                w = n + "_%d" % len(used)
            used[w] = key
            ren[key] = w
        return ren[key]
    # names that are not renamed are taken
    return f


def rn(f, x):
    if x[0] == "f":
        return ["f", f("f", x[1], len(x) - 2)] + [rn(f, y) for y in x[2:]]
    if x[0] == "p":
        return ["p", f("p", x[1], len(x) - 2)] + [rn(f, y) for y in x[2:]]
    if x[0] in ("!", "?"):
        return [x[0], x[1], rn(f, x[2])]
    if x[0] == "v":
        return x
    return [x[0]] + [rn(f, y) for y in x[1:]]


def rv(m, x):
    if x[0] == "v":
        return ["v", m(x[1])]
    if x[0] in ("f", "p"):
        return x[:2] + [rv(m, y) for y in x[2:]]
    if x[0] in ("!", "?"):
        return [x[0], [m(v) for v in x[1]], rv(m, x[2])]
    return [x[0]] + [rv(m, y) for y in x[1:]]


def newvars(r):
    m, pool = {}, ["X", "Y", "Z", "U", "V", "W", "X1", "X10", "Aa", "B_c", "Var", "XX", "Xx", "Longvariablename1", "Longvariablename2", "X0", "N", "T", "E1"]
    r.shuffle(pool)

    def f(v):
        if v not in m:
            m[v] = pool.pop() if pool else "Q%d" % len(m)
        return m[v]
    return f


def shuffle_form(r, f, lits, sides):
    k = f[0]
    if k in ("=", "!="):
        return [k, f[2], f[1]] if sides and r.random() < 0.5 else f
    if k == "p":
        return f
    if k in ("!", "?"):
        vs = list(f[1])
        if lits:
            r.shuffle(vs)
        return [k, vs, shuffle_form(r, f[2], lits, sides)]
    parts = [shuffle_form(r, g, lits, sides) for g in f[1:]]
    if lits and k in ("&", "|", "<=>", "<~>", "~&", "~|"):
        r.shuffle(parts)
    elif lits and k in ("=>", "<=") and r.random() < 0.5:
        k = "<=" if k == "=>" else "=>"
        parts.reverse()
    return [k] + parts


def present(case):
    """Files: {name: text}, the names given on the command line."""
    r = random.Random(case["seed"])
    tr = set(case["tr"])
    syn = case["syntax"]
    ren = renaming(r, tr)
    stmts = []
    todo = [(f, "axiom") for f in case["items"]] + ([(case["goal"], "conjecture")] if case["goal"] is not None else [])
    for n, (f, role) in enumerate(todo):
        if tr & {"rename", "long", "quote"}:
            f = rn(ren, f)
        if role == "axiom" and "repeat" in tr:
            reps = r.choice([1, 1, 2, 3])
        else:
            reps = 1
        for _ in range(reps):
            g = shuffle_form(r, f, "literals" in tr, "sides" in tr)
            if "vars" in tr:
                g = rv(newvars(r), g)
            nm = r.choice(WORDS) if "names" in tr else "s%d" % len(stmts)
            stmts.append({"name": nm, "role": role, "f": g, "cnf": lang.is_clause(g) and r.random() < 0.5, "say": r.random() < 0.2})
    if "order" in tr:
        r.shuffle(stmts)
    files = {}
    ext = {"simple": "txt", "tptp": "p", "json": "js"}[syn]

    def text(st, incs=()):
        body = lang.problem(st, syn, False).replace("'$ans'(", "$ans(")
        if syn == "json" and incs:
            inc = ", ".join('{"@include": %s}' % json.dumps(x) for x in incs)
            body = body.strip()[1:-1]
            body = "[" + (inc + ", " + body if r.random() < 0.5 else body + ", " + inc) + "]" if st else "[" + inc + "]"
        if "layout" in tr:
            body = layout(r, body, syn)
        if syn == "json":
            return body
        lines = "".join(("include('%s')." if r.random() < 0.8 else "include( '%s' ).") % x + "\n" for x in incs)
        if incs and "layout" in tr:
            lines = "% comment\n" + lines + "\n"
        return lines + body if r.random() < 0.5 else body.rstrip("\n") + "\n" + lines
    groups = [stmts]
    if tr & {"files", "include"}:
        k = r.randint(2, min(8, max(2, len(stmts))))
        groups = [[] for _ in range(k)]
        for s in stmts:
            r.choice(groups).append(s)
        groups = [g for g in groups if g]
    cmd = []
    if "include" in tr:
        # a tree of files: each is included from an earlier one, some lie in directories
        names, kids = [], {}
        for j in range(len(groups)):
            d = "" if j == 0 else r.choice(["", "", "d/", "d/e/", "sub dir/"])
            names.append((d, d + "g%d.%s" % (j, ext)))
        par = {}
        for j in range(1, len(groups)):
            ok_ = [q for q in range(j) if names[j][0].startswith(names[q][0])]
            par.setdefault(r.choice(ok_), []).append(j)
        for j in range(len(groups)):
            incs = [names[q][1][len(names[j][0]):] for q in par.get(j, [])]
            files[names[j][1]] = text(groups[j], incs)
        cmd = [names[0][1]]
    else:
        for j, g in enumerate(groups):
            files["g%d.%s" % (j, ext)] = text(g)
        cmd = sorted(files)
        r.shuffle(cmd)
    return files, cmd, ren, stmts


def layout(r, body, syn):
    """Comments, blanks and line ends between the tokens."""
    if syn == "json":
        toks = re.findall(r'"(?:\\.|[^"\\])*"|[-+.\w]+|\s+|.', body, re.S)
        fill = ["", "", "", "", " ", "\n", "\t", "\r\n", " /* a comment ] \" */ ", " // c }\n", "  "]
    else:
        toks = re.findall(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|\w+(?:\.\d+)?|\$\w+|<=>|<~>|=>|<=|!=|~&|~\||\s+|.", body, re.S)
        fill = ["", "", "", "", " ", "\n", "\t", "\r\n", " % c ' \" (\n", " /* a comment ) . */ ", "  "]
    out = []
    for t in toks:
        out.append(t)
        if t.isspace() or t in ("~", "-", "$"):
            continue
        # the simple language tells applications and operators by the blanks around them: only more blanks next to existing ones or brackets
        if syn == "json" or t in (",", "[", "]", ":", "."):
            out.append(r.choice(fill))
    s = "".join(out)
    if syn != "json" and r.random() < 0.5:
        s = re.sub(r"(?<= )(?=[|&=<!])", lambda m: r.choice(["", " ", "\n", " \t"]), s)
    if r.random() < 0.3:
        s = s.replace("\n", "\r\n") if "\r" not in s else s
    if r.random() < 0.3:
        s = s.rstrip()
    if r.random() < 0.3:
        s = r.choice(["\n\n", "  ", "\t\n", "% first\n" if syn != "json" else "// first\n", "/* x */"]) + s
    return s


def once(case, env, secs):
    files, cmd, ren, stmts = present(case)
    d = os.path.join(engine.scratch(), "c18")
    shutil.rmtree(d, ignore_errors=True)
    for f, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w", newline="") as fh:
            fh.write(t)
    args = cmd + ["-mbsize", 50, "-print", 10, "-parallel", 0, "-seconds", secs]
    if case["strategy"] is not None:
        args += ["-strategytext", json.dumps(case["strategy"])]
    return files, ren, gkc.run(env[case["bin"]], args, timeout=90, cwd=d)


def run(case, env):
    files, ren, r = once(case, env, 3)
    v = r.verdict()
    want = "noproof" if case["sat"] else "proof"
    if want == "proof" and (v == "hang" or v == "noproof" and (r.time_limit or case["strategy"] is None)):
        files, ren, r = once(case, env, 20)
        v = r.verdict()
    lab = ["sub:" + case["sub"], "sat" if case["sat"] else "unsat"] + ["tr:" + t for t in case["tr"]]
    desc = "\n" + show(files) + "\n" + " ".join(map(str, r.cmd[1:])) + "\n" + r.out[:1500]
    if case["sat"] and v in ("hang",) or case["sat"] and v != "proof" and r.time_limit:
        return skip("time", lab)
    if v != want:
        return viol("%s instead of %s" % (v, want) + desc, lab)
    if "answers" in case and not case["sat"]:
        got = sorted(set(re.findall(r"^answer: (.*)$", r.out, re.M)))
        f = (lambda n: ren("f", n, 0)) if set(case["tr"]) & {"rename", "long", "quote"} else (lambda n: n)
        exp = sorted("$ans(%s)." % lang.tname(f(a)) for a in case["answers"])
        if sorted(unq(g) for g in got) != sorted(unq(e) for e in exp):
            return viol("answers %s, expected %s" % (got, exp) + desc, lab)
    return ok(len(case["items"]) >= 3 and len(case["tr"]) >= 2, json.dumps([files, case["strategy"]]), lab)


def unq(s):
    return s.replace("'", "").replace("\\", "").replace("#:", "").strip()


def show(files):
    return "\n".join("--- %s\n%s" % (f, t) for f, t in files.items())[:4000]


def shrinks(case):
    for t in case["tr"]:
        yield dict(case, tr=[x for x in case["tr"] if x != t])
    if not case.get("answers"):
        for it in fol.shrink_list(case["items"]):
            if case["sat"]:
                c = dict(case, items=it)
                if it and case["goal"] is None and case["sub"] == "sat":
                    yield c
            elif c02.still_unsat(dict(case, items=it)):
                yield dict(case, items=it)
    for k in list(case["strategy"] or {}):
        if k not in ("strategy", "max_answers"):
            yield dict(case, strategy={a: x for a, x in case["strategy"].items() if a != k})
    if case["bin"] != "gkc":
        yield dict(case, bin="gkc")


def describe(case):
    return show(present(case)[0]) + "\n" + json.dumps(case["strategy"]) + " " + " ".join(case["tr"])
