"""C05 the three input languages and both parser builds agree; conversions round-trip."""
import json, re
from vlib import build, fol, gkc, lang, proofread
from vlib.engine import ok, viol, skip
from checks import c04_clausify

PROP = "C05"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: differential between languages and parser builds, round trips through every conversion, clauses compared with the generated ones"
LEVEL_NOTE = "sampled problems"
RULE = ("Random statements (clauses and formulas with all connectives, equality, numbers, strings, lists, odd quoted names, names used as both predicate and "
        "function, all roles) are written in the simple language, TPTP (fof/cnf) and JSON.  Compared: the clauses of -clausify between the languages, between the "
        "parser builds, with the generated clauses where the statements are clauses, and after -convert -json / -convert -tptp / -clausify in the three output "
        "languages read back once and twice, with statement names and roles; and verdicts of a complete strategy.  Non-trivial: at least two clauses came out "
        "(or a verdict other than an error); distinct by the statements.")
ASSUMPTIONS = ["introduced symbols are compared by kind and arity only", "reals are compared to six decimals",
               "-clausify prints hypothesis as assumption and conjecture as negated_conjecture: roles compared under this"]
CHUNK = 8
ROLES = ["axiom"] * 6 + ["hypothesis", "lemma", "assumption", "definition", "plain", "theorem", "negated_conjecture"]


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "bison": build.build("small", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("clauses", 2500 * k), ("agree", 2500 * k), ("convert", 3500 * k), ("clausal", 2500 * k), ("verdict", 1200 * k)]


# ---------------------------------------------------------------- generation

def rand_value(r):
    k = r.random()
    if k < 0.4:
        return ["i", r.choice([0, 1, 2, 7, -1, -2, -15, 100000, -100000, 2147483647, 2147483648, -2147483648, 10 ** 12, -10 ** 12, r.randint(-300, 300)])]
    if k < 0.6:
        return ["r", r.choice(["1.5", "0.25", "-0.5", "3.125", "100.0", "-2.0", "0.000001", "12345.678", "0.1"])]
    return ["s", r.choice(["a", "", "a b", "Abc", "it's", "x.y", "a,b", "(", "%c", "//", "\u00e4", "12", "-1", "[]", "a|b", "?:X", "1.5", "$nil", "not", "="])]


def gen(kind, r, i, tier):
    sig = fol.gen_sig(r, maxc=3, maxf=2, maxp=3, maxar=3)
    ren = {}
    odd = r.choice([0, 0, 0.2, 0.5, 0.9])

    def name(key, dflt):
        if key not in ren:
            ren[key] = r.choice(lang.ODD) if r.random() < odd else dflt
        return ren[key]
    vals = r.choice([0, 0, 0.15, 0.4])
    lists = r.choice([0, 0, 0.2])

    def term(t):
        if t[0] == "v":
            return t
        if len(t) == 2 and r.random() < vals:
            return rand_value(r)
        if r.random() < lists:
            return ["l", [term(x) for x in t[2:]] if len(t) > 2 else r.choice([[], [["i", 1], ["f", "a"]], [["l", []]]])]
        return ["f", name("f" + t[1] + str(len(t)), t[1])] + [term(x) for x in t[2:]]

    def form(f):
        if f[0] == "p":
            return ["p", name("p" + f[1] + str(len(f)), f[1])] + [term(x) for x in f[2:]]
        if f[0] in ("=", "!="):
            return [f[0], term(f[1]), term(f[2])]
        if f[0] in ("!", "?"):
            return [f[0], f[1], form(f[2])]
        return [f[0]] + [form(g) for g in f[1:]]
    stmts = []
    conj = r.random() < 0.5
    n = r.randint(1, 5)
    used = set()
    for j in range(n):
        if kind == "clauses" or r.random() < 0.4:
            fs = []
            for l in fol.gen_clause(r, sig, r.randint(0, 3), 3, 2, r.choice([0, 0.3])):
                a = form(l)
                fs.append(["!=", a[1][1], a[1][2]] if a[0] == "~" and a[1][0] == "=" else a)
            f = fs[0] if len(fs) == 1 else ["|"] + fs
            cl = True
        else:
            f = form(fol.gen_formula(r, sig, ["X"] if r.random() < 0.2 else [], r.randint(1, 4), 1, r.choice([0, 0, 0.3]), r.choice([["X", "Y", "Z"], ["X", "Y"], ["Xab", "Y1"]])))
            if fol.size(f) > 120:
                return None
            cl = False
        role = r.choice(ROLES)
        if conj and j == n - 1:
            role, cl = "conjecture", False
        nm = r.choice(lang.ODD) if r.random() < odd * 0.6 else "st%d" % j
        while nm in used or nm.startswith("cl_"):
            nm = "st%d_%d" % (j, len(used))
        used.add(nm)
        stmts.append({"name": nm, "role": role, "f": f, "cnf": cl and r.random() < 0.5, "say": r.random() < 0.3,
                      "ann": r.choice(lang.ANN) if r.random() < 0.1 else ""})
    c = {"mode": kind, "stmts": stmts, "q": r.random() < 0.2}
    if kind == "convert":
        c["from"] = r.choice(["tptp", "tptp", "simple", "json"])
        c["to"] = r.choice(["json", "tptp"]) if c["from"] != "json" else "tptp"
        c["bin"] = r.choice(["gkc", "gkc", "bison"])
    if kind == "clausal":
        c["from"] = r.choice(["tptp", "simple", "json"])
        c["to"] = r.choice(["json", "tptp", "simple"])
        c["bin"] = r.choice(["gkc", "gkc", "bison"])
    return c


# ---------------------------------------------------------------- reading clauses

def std(t):
    """Terms in one representation: lists as $list chains, introduced symbols by kind."""
    if isinstance(t, (list, tuple)):
        if t and t[0] == "l":
            r = ["f", "$nil"]
            for x in reversed(t[1]):
                r = ["f", "$list", std(x), r]
            return r
        if len(t) > 1 and t[0] in ("f", "p") and isinstance(t[1], str):
            m = re.match(r"\$(sk|df)", t[1])
            return [t[0], m.group(0) if m else t[1]] + [std(x) for x in t[2:]]
        return type(t)(std(x) for x in t)
    return t


def lits_of(f):
    return [std(g) for g in (f[1:] if f[0] == "|" else [f])]


ROLE = {"hypothesis": "assumption", "conjecture": "negated_conjecture"}


def kept_role(role):
    role = ROLE.get(role, role)
    return role if role in ("assumption", "negated_conjecture") else "axiom"


class Bad(Exception):
    pass


def clausify(env, b, syntax, text):
    """[(name, role, clause)] of the problem."""
    p = gkc.write("c" + gkc.EXT[syntax], text)
    r = gkc.run(env[b], [p, "-clausify", "-json", "-mbsize", 50])
    if r.crashed or r.timeout:
        raise Bad("%s -clausify: %s\n%s" % (syntax, "crash" if r.crashed else "hang", text))
    if r.error:
        raise Bad("%s -clausify reports an error: %s\n%s" % (syntax, r.out[:300], text))
    return parse_clauses(r.out, text)


def parse_clauses(out, text):
    res = []
    try:
        vals = json.loads(out) if out.strip() else []
        for x in vals:
            d = x if isinstance(x, dict) else {"@logic": x}
            res.append((d.get("@name"), d.get("@role", "axiom"), [std(a) for a in proofread.json_clause(d["@logic"])]))
    except (ValueError, KeyError, proofread.Bad) as e:
        raise Bad("clauses cannot be read: %s\n%s\n%s" % (e, text, out[:1000]))
    return res


def show(c):
    return json.dumps(c, ensure_ascii=False)


def compare(A, B, what, names):
    """A and B the same multiset?"""
    rest = list(B)
    for x in A:
        for y in rest:
            if (not names or x[:2] == y[:2]) and proofread.variant(x[2], y[2]):
                rest.remove(y)
                break
        else:
            return "%s: no counterpart of %s %s among\n%s" % (what, x[:2], show(x[2]), "\n".join("%s %s" % (y[:2], show(y[2])) for y in B))
    if rest:
        return "%s: extra clause %s %s" % (what, rest[0][:2], show(rest[0][2]))
    return None


def run(case, env):
    stmts = case["stmts"]
    mode = case["mode"]
    lab = ["mode:" + mode]
    try:
        msg, cl = MODES[mode](case, env, stmts, lab)
    except Bad as e:
        return viol(str(e), lab)
    if msg:
        return viol(msg + "\n--- tptp\n" + lang.problem(stmts, "tptp", case["q"]) + "--- json\n" + lang.problem(stmts, "json", case["q"]), lab)
    return ok(cl is None or len(cl) >= 2, lang.problem(stmts, "tptp", case["q"]) + mode + str(case.get("from")) + str(case.get("to")), lab)


def agree(case, env, stmts, lab):
    q = case["q"]
    T = clausify(env, "gkc", "tptp", lang.problem(stmts, "tptp", q))
    J = clausify(env, "gkc", "json", lang.problem(stmts, "json", q))
    S = clausify(env, "gkc", "simple", lang.problem(stmts, "simple", q))
    m = compare(T, J, "tptp and json", True) or compare(T, S, "tptp and simple", False)
    if not m:
        k = case.get("other") or ("tptp" if len(T) % 2 else "simple")
        X = clausify(env, "bison", k, lang.problem(stmts, k, q))
        m = compare(T if k == "tptp" else S, X, "parser builds (%s)" % k, k == "tptp")
    if not m:
        for n, ro, c in T:
            s = [x for x in stmts if x["name"] == n]
            if not s:
                return "a clause of no statement: %s" % n, T
            if kept_role(s[0]["role"]) != ro:
                return "role of %s: %s became %s" % (n, s[0]["role"], ro), T
    return m, T


def clauses(case, env, stmts, lab):
    q = case["q"]
    exp = [(s["name"], kept_role(s["role"]), lits_of(s["f"])) for s in stmts if s["role"] != "conjecture"]
    if len(exp) < len(stmts):
        return agree(case, env, stmts, lab)
    m = None
    for syn in ("tptp", "json", "simple"):
        m = m or compare(exp, clausify(env, "gkc" if len(exp) % 3 else "bison", syn, lang.problem(stmts, syn, q)), "generated clauses and " + syn, syn != "simple")
    return m, exp


def convert_run(env, case, frm, to, text):
    p = gkc.write("v" + gkc.EXT[frm], text)
    r = gkc.run(env[case["bin"]], [p, "-convert", "-" + to, "-mbsize", 50])
    if r.crashed or r.timeout:
        raise Bad("-convert -%s: %s\n%s" % (to, "crash" if r.crashed else "hang", text))
    if r.error:
        raise Bad("-convert -%s reports an error: %s\n%s" % (to, r.out[:300], text))
    return r.out


def convert(case, env, stmts, lab):
    frm, to = case["from"], case["to"]
    text = lang.problem(stmts, frm, case["q"])
    lab.append("convert:%s-%s" % (frm, to))
    A = clausify(env, case["bin"], frm, text)
    one = convert_run(env, case, frm, to, text)
    if not one.strip():
        raise Bad("-convert -%s prints nothing\n%s" % (to, text))
    B = clausify(env, case["bin"], to, one)
    m = compare(A, B, "%s converted to %s" % (frm, to), frm != "simple")
    if m:
        return m + "\n--- converted:\n" + one, A
    if frm != "simple" and to == "json":
        try:
            vals = json.loads(one)
        except ValueError as e:
            raise Bad("-convert -json is not JSON: %s\n%s\n%s" % (e, text, one))
        roles = {v.get("@name"): v.get("@role", "axiom") for v in vals if isinstance(v, dict)}
        for s in stmts:
            if roles.get(s["name"]) != s["role"]:
                return "role of %s: %s became %s\n--- converted:\n%s" % (s["name"], s["role"], roles.get(s["name"]), one), A
    to2 = "tptp"
    two = convert_run(env, case, to, to2, one)
    C = clausify(env, case["bin"], to2, two)
    m = compare(B, C, "%s converted to %s and then %s" % (frm, to, to2), True)
    if m:
        return m + "\n--- converted:\n" + one + "\n--- again:\n" + two, A
    return None, A


def clausal(case, env, stmts, lab):
    frm, to = case["from"], case["to"]
    text = lang.problem(stmts, frm, case["q"])
    lab.append("clausal:%s-%s" % (frm, to))
    A = clausify(env, case["bin"], frm, text)
    p = gkc.write("k" + gkc.EXT[frm], text)
    r = gkc.run(env[case["bin"]], [p, "-clausify", "-mbsize", 50] + ([] if to == "simple" else ["-" + to]))
    if r.crashed or r.timeout or r.error:
        raise Bad("-clausify fails: %s\n%s" % (r.out[:300], text))
    if not A and not r.out.strip():
        return None, A
    B = clausify(env, case["bin"], to, r.out)
    m = compare(A, B, "clauses of %s printed as %s and read back" % (frm, to), frm != "simple" and to != "simple")
    return (m + "\n--- printed:\n" + r.out if m else None), A


STRAT = {"strategy": ["negative_pref"], "query_preference": 0}


def verdict(case, env, stmts, lab):
    import hashlib
    res = {}
    for syn in ("tptp", "simple", "json"):
        p = gkc.write("v" + gkc.EXT[syn], lang.problem(stmts, syn, case["q"]))
        b = "bison" if syn != "json" and len(stmts) % 2 else "gkc"
        r = gkc.run(env[b], [p, "-mbsize", 50, "-strategytext", json.dumps({"strategy": ["unit"], "query_preference": 0, "max_dseconds": 2})], timeout=60)
        res[syn] = r.verdict()
        if res[syn] not in ("proof", "noproof"):
            return "%s: %s %s" % (syn, res[syn], r.out[:300]), None
    if len(set(res.values())) > 1:
        return "verdicts differ: %s" % res, None
    lab.append("verdict:" + res["tptp"])
    return None, None


MODES = {"agree": agree, "clauses": clauses, "convert": convert, "clausal": clausal, "verdict": verdict}


def shrinks(case):
    for it in fol.shrink_list(case["stmts"]):
        if it:
            yield dict(case, stmts=it)
    for i, s in enumerate(case["stmts"]):
        def put(t):
            return dict(case, stmts=case["stmts"][:i] + [t] + case["stmts"][i + 1:])
        if s["name"] != "st%d" % i:
            yield put(dict(s, name="st%d" % i))
        if s["role"] != "axiom":
            yield put(dict(s, role="axiom"))
        if s.get("ann"):
            yield put(dict(s, ann=""))
        if s.get("cnf"):
            yield put(dict(s, cnf=False))
        if case["mode"] != "clauses":
            for g in fol.shrink_formula(s["f"]):
                yield put(dict(s, f=g))
        elif s["f"][0] == "|":
            for it in fol.shrink_list(s["f"][1:]):
                if it:
                    yield put(dict(s, f=it[0] if len(it) == 1 else ["|"] + it))
    if case["q"]:
        yield dict(case, q=False)
    names = set(re.findall(r'\["[fp]", ("(?:[^"\\]|\\.)*")', json.dumps(case["stmts"])))
    for nm in sorted(names):
        n0 = json.loads(nm)
        if not re.match(r"^[a-z]\d?$", n0):
            for new in "abgk":
                d = json.dumps(case["stmts"]).replace('"f", ' + nm, '"f", "%s"' % new).replace('"p", ' + nm, '"p", "%s"' % new)
                yield dict(case, stmts=json.loads(d))
                break


def describe(case):
    return lang.problem(case["stmts"], "tptp", case["q"])
