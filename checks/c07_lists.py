"""C07 lists, distinct symbols, strings and type predicates evaluate as documented.

Oracle: the three-valued evaluator of vlib/builtin.py (true / false / open).  A literal with a documented value is refuted
against it and never for it; an open literal (ordinary constants, unevaluated terms) is refuted neither way."""
import json
from vlib import build, builtin as B, gkc
from vlib.engine import ok, viol, skip
from checks import c06_arith

PROP = "C07"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random ground list, string and type literals against a three-valued reference evaluator, both polarities"
LEVEL_NOTE = "sampled literals; the oracle is exact for the documented values, and the standard interpretation shows the open ones independent"
RULE = ("Random ground literals over lists (brackets, $list, $nil, $first, $rest, nested, with ordinary constants inside), distinct symbols, $strlen, $substr, "
        "$substrat, the type predicates and equality between mixed typed values, as units, inside clauses and through variables, asserted both ways, "
        "in the three languages; and recursive list programs (length, sum, reverse, member, append) run against Python.  Non-trivial: "
        "a function application, a list or a comparison of two different values; distinct by text.")
ASSUMPTIONS = ["distinct symbols are ASCII ($strlen counts bytes)", "$is_atom, $is_map are not documented and left out"]
CHUNK = 8


def prepare(tier):
    return c06_arith.prepare(tier)


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("type", 2700 * k), ("eq", 5000 * k), ("string", 3000 * k), ("table", 1200 * k), ("program", 800 * k), ("noneq", 1500 * k), ("pairs", 800 * k),
            ("edges", 400 * k)]


LETTERS = "ab"
BASIC = [["i", 0], ["i", -3], ["r", 1.5], ["r", 0.0], ["s", ""], ["s", "a"], ["s", "0"], ["nil"], ["l", []], ["l", [["i", 0]]], ["l", [["l", []]]],
         ["l", [["s", ""]]], ["f", "$list", ["i", 0], ["nil"]], ["f", "$list", ["nil"], ["i", 0]], ["l", [["i", 0], ["i", 0]]], ["f", "$rest", ["l", [["i", 2]]]],
         ["f", "$first", ["l", [["nil"]]]]]


def rstring(r):
    k = r.random()
    if k < 0.6:
        return "".join(r.choice(LETTERS) for _ in range(r.randint(0, 5)))
    if k < 0.9:
        return "".join(r.choice("abcXY 019_.,:;()[]+-=|&~?$#@!<>") for _ in range(r.randint(1, 8)))
    if k < 0.96:
        return r.choice(["a", "b", "nil", "$nil", "1", "-1", "2.5", "X", "list", "[]", "$list(a,b)", "#:a", "?:X", "f(a)", "=", "+", "*", "-", "/", "<", ""])
    return "a" * r.choice([31, 32, 33, 63, 64, 100, 257])


def rval(r, d):
    """A typed or open term."""
    k = r.random()
    if d > 0 and k < 0.35:
        return rlist(r, d)
    if k < 0.5:
        return ["s", rstring(r)]
    if k < 0.65:
        return ["i", r.choice([0, 1, 2, 3, -1, 10])]
    if k < 0.72:
        return ["r", r.choice([0.5, 1.5, -2.5, 100.25])]
    if k < 0.9:
        return ["c", r.choice(["a", "b", "c"])]
    return ["f", r.choice(["f", "g"]), rval(r, d - 1)] if d > 0 else ["c", "a"]


def rlist(r, d):
    k = r.random()
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    items = [rval(r, d - 1) for _ in range(n)]
    if k < 0.6:
        return ["l", items]
    t = ["l", []] if r.random() < 0.8 else ["c", "$nil"] if r.random() < 0.7 else rval(r, d - 1)
    if t == ["c", "$nil"]:
        t = ["nil"]
    for x in reversed(items):
        t = ["f", "$list", x, t]
    return t


def rterm(r, d):
    k = r.random()
    if d > 0 and k < 0.12:
        return ["f", "$first", rlist(r, d) if r.random() < 0.85 else rterm(r, d - 1)]
    if d > 0 and k < 0.24:
        return ["f", "$rest", rlist(r, d) if r.random() < 0.85 else rterm(r, d - 1)]
    if d > 0 and k < 0.3:
        return ["f", "$strlen", ["s", rstring(r)] if r.random() < 0.8 else rterm(r, d - 1)]
    if d > 0 and k < 0.36:
        return ["f", "$list", rterm(r, d - 1), rterm(r, d - 1) if r.random() < 0.4 else rlist(r, d - 1)]
    if d > 0 and k < 0.42:
        return ["f", r.choice(["$sum", "$product"]), rterm(r, d - 1), rterm(r, d - 1)]
    if d > 0 and k < 0.5:
        return ["f", r.choice(["$first", "$rest"]), ["f", "$rest", rlist(r, d)]]
    return rval(r, d)


def change(r, t):
    """A term with one small change (its value often differs in one place)."""
    k = t[0]
    if k == "l":
        xs = list(t[1])
        op = r.random()
        if xs and op < 0.6:
            i = r.randrange(len(xs))
            xs[i] = change(r, xs[i])
        elif xs and op < 0.75:
            xs.pop(r.randrange(len(xs)))
        elif op < 0.9:
            xs.insert(r.randint(0, len(xs)), rval(r, 0))
        else:
            r.shuffle(xs)
        return ["l", xs]
    if k == "f" and len(t) > 2 and r.random() < 0.7:
        i = r.randrange(2, len(t))
        return t[:i] + [change(r, t[i])] + t[i + 1:]
    if k == "s" and r.random() < 0.7:
        s = t[1]
        return ["s", s + "a" if r.random() < 0.5 else s[1:] if s else "b"]
    if k == "i" and r.random() < 0.7:
        return ["i", t[1] + 1]
    return rval(r, 0)


def gen(kind, r, i, tier):
    case = {"kind": kind, "syntax": r.choice(["simple", "tptp", "json"]), "strategy": r.choice(c06_arith.STRATS[:4] + c06_arith.STRATS[5:]),
            "wrap": r.choice([0, 0, 0, 1, 2, r.randint(3, 12), r.randint(3, 12)]), "bin": "bison" if r.random() < 0.02 else "plain" if r.random() < 0.03 else "gkc"}
    if case["wrap"] >= 2:
        case["strategy"] = dict(c06_arith.STRATS[0])
    for _ in range(200):
        if kind == "pairs":
            # every pair of basic values, at the top or inside lists
            a, b = BASIC[i // len(BASIC) % len(BASIC)], BASIC[i % len(BASIC)]
            for _ in range(r.choice([0, 0, 1, 2])):
                x = rval(r, 0)
                k = r.random()
                a, b = ([["l", [x, y]] for y in (a, b)] if k < 0.3 else [["l", [y, x]] for y in (a, b)] if k < 0.6 else
                        [["f", "$list", x, y] for y in (a, b)] if k < 0.8 else [["l", [y]] for y in (a, b)])
            lit = ["=", a, b]
        elif kind == "edges":
            # every position of every short text in another
            s = rstring(r)
            b = s[r.randint(0, len(s)):] if r.random() < 0.5 else s[:r.randint(0, len(s))]
            b = "" if r.random() < 0.3 else b
            lit = ["$substrat", ["s", b], ["s", s], ["i", r.choice([-1, 0, len(s) - len(b), len(s) - len(b) + 1, len(s), len(s) + 1])]]
        elif kind == "type":
            n = r.choice(["$is_list", "$is_list", "$is_distinct", "$is_int", "$is_real", "$is_number"])
            lit = [n, rterm(r, r.randint(0, 3))]
        elif kind == "eq":
            a = rterm(r, r.randint(1, 3)) if r.random() < 0.6 else rlist(r, 3)
            k = r.random()
            b = change(r, a) if k < 0.5 else (rterm(r, 2) if k < 0.75 else back(B.ev(a)) if k < 0.9 else a)
            lit = ["=", a, b] if r.random() < 0.5 else ["=", b, a]
        elif kind == "string":
            b = rstring(r)
            if b and r.random() < 0.6:
                i0 = r.randint(0, len(b))
                a = b[i0:r.randint(i0, len(b))]
                if r.random() < 0.3:
                    a += r.choice("ab")
            else:
                a = rstring(r)
            if r.random() < 0.5:
                lit = ["$substr", ["s", a], ["s", b]]
            else:
                p = b.find(a) if r.random() < 0.6 else r.randint(-1, len(b) + 2)
                lit = ["$substrat", ["s", a], ["s", b], ["i", p] if r.random() < 0.8 else ["f", "$sum", ["i", p - 1], ["i", 1]]]
            if r.random() < 0.1:
                j = r.randrange(1, len(lit))
                lit = lit[:j] + [rval(r, 1)] + lit[j + 1:]
        elif kind == "noneq":
            # indexing and matching of distinct values: a fact with one value, the negated fact with another
            a = rterm(r, 2)
            b = change(r, a) if r.random() < 0.7 else a
            va, vb = B.ev(a), B.ev(b)
            e = B.equal(va, vb)
            if e == "?" or B.same(va, vb) != (e is True):
                continue
            return dict(case, lit=["same", a, b], depth=r.randint(0, 1))
        elif kind == "table":
            return dict(case, rows=[rterm(r, r.randint(1, 4)) for _ in range(r.randint(3, 10))])
        else:
            return gen_program(r, case)
        e = B.pred(lit[0], lit[1:])
        if e == "?":
            continue
        return dict(case, lit=lit)
    return None


def back(v):
    """A value as a term again, in either list notation."""
    if v[0] == "nil":
        return ["l", []]
    if v[0] == "cons":
        xs, t = [], v
        while t[0] == "cons":
            xs.append(back(t[1]))
            t = t[2]
        if t[0] == "nil":
            return ["l", xs]
        out = back(t)
        for x in reversed(xs):
            out = ["f", "$list", x, out]
        return out
    if v[0] == "f":
        return ["f", v[1]] + [back(x) for x in v[2:]]
    return v


# ---------------------------------------------------------------- list programs

def V(n):
    return ["v", n]


def cons(a, b):
    return ["f", "$list", a, b]


NIL = ["nil"]


def eqc(a, b):
    return [(False, ["=", a, b])]


PROGRAMS = {
    "len": ([eqc(["f", "len", NIL], ["i", 0]), eqc(["f", "len", cons(V("X"), V("Y"))], ["f", "$sum", ["f", "len", V("Y")], ["i", 1]])]),
    "sum": ([eqc(["f", "sum", NIL], ["i", 0]), eqc(["f", "sum", cons(V("X"), V("Y"))], ["f", "$sum", ["f", "sum", V("Y")], V("X")])]),
    "prod": ([eqc(["f", "prod", NIL], ["i", 1]), eqc(["f", "prod", cons(V("X"), V("Y"))], ["f", "$product", ["f", "prod", V("Y")], V("X")])]),
    "app": ([eqc(["f", "app", NIL, V("Y")], V("Y")),
             eqc(["f", "app", cons(V("X"), V("Y")), V("Z")], cons(V("X"), ["f", "app", V("Y"), V("Z")]))]),
    "rev": ([eqc(["f", "rv", NIL, V("Y")], V("Y")),
             eqc(["f", "rv", cons(V("X"), V("Y")), V("Z")], ["f", "rv", V("Y"), cons(V("X"), V("Z"))])]),
    "mem": ([[(False, ["mem", V("X"), cons(V("X"), V("Y"))])],
             [(True, ["mem", V("X"), V("Y")]), (False, ["mem", V("X"), cons(V("Z"), V("Y"))])]]),
    "strl": ([eqc(["f", "tl", NIL], ["i", 0]), eqc(["f", "tl", cons(cons(V("X"), NIL), V("Y"))], ["f", "$sum", ["f", "$strlen", V("X")], ["f", "tl", V("Y")]])]),
    "walk": ([[(True, ["at", V("X")]), (True, ["$is_list", V("X")]), (False, ["at", ["f", "$rest", V("X")]])],
              [(True, ["at", V("X")]), (False, ["el", ["f", "$first", V("X")]])]]),
}


def gen_program(r, case):
    n = r.choice(list(PROGRAMS))
    k = r.randint(0, 6)
    if n in ("sum", "prod", "len"):
        xs = [["i", r.randint(-5, 9)] for _ in range(k)]
    elif n == "strl":
        # one-element lists: the left side of the rule has to be the larger one for the term ordering
        xs = [["l", [["s", "".join(r.choice("abc") for _ in range(r.randint(0, 6)))]]] for _ in range(k)]
    else:
        xs = [r.choice([["i", r.randint(0, 5)], ["s", r.choice(["a", "b", "ab"])], ["l", []], ["l", [["i", 1]]]]) for _ in range(k)]
    l = ["l", xs]
    # with a false goal some programs run on until the time limit: only a few of those
    right = r.random() < (0.6 if n in ("app", "strl", "walk") else 0.93)
    if n in ("len", "sum", "prod", "strl"):
        v = {"len": len(xs), "sum": sum(x[1] for x in xs) if n == "sum" else 0, "strl": sum(len(x[1][0][1]) for x in xs) if n == "strl" else 0, "prod": 1}[n]
        if n == "prod":
            for x in xs:
                v *= x[1]
        w = v if right else v + r.choice([1, -1, 2])
        goal = [(True, ["=", ["f", {"strl": "tl"}.get(n, n), l], ["i", w]])]
    elif n == "app":
        k2 = r.randint(0, len(xs))
        res = list(xs)
        if not right:
            if not xs:
                return gen_program(r, case)
            res = change_list(r, xs)
        goal = [(True, ["=", ["f", "app", ["l", xs[:k2]], ["l", xs[k2:]]], ["l", res]])]
        right = B.equal(B.ev(["l", xs]), B.ev(["l", res]))
    elif n == "rev":
        res = xs[::-1]
        if not right:
            if not xs:
                return gen_program(r, case)
            res = change_list(r, res)
        goal = [(True, ["=", ["f", "rv", l, NIL], ["l", res]])]
        right = B.equal(B.ev(["l", xs[::-1]]), B.ev(["l", res]))
    elif n == "mem":
        x = r.choice(xs) if right and xs else r.choice([["i", 7], ["s", "zz"], ["l", [["i", 2]]], ["i", 1], ["s", "a"]])
        right = any(B.equal(B.ev(x), B.ev(y)) is True for y in xs)
        goal = [(True, ["mem", x, l])]
    else:
        x = r.choice(xs) if right and xs else r.choice([["i", 7], ["s", "zz"], ["l", [["i", 2]]], ["i", 1], ["s", "a"]])
        right = any(B.equal(B.ev(x), B.ev(y)) is True for y in xs)
        goal = [(True, ["el", x])]
    case = dict(case, program=n, list=l, goal=goal, expect=bool(right), wrap=0)
    case["strategy"] = {"strategy": ["negative_pref"]}
    return case


def change_list(r, xs):
    res = list(xs)
    res[r.randrange(len(res))] = ["i", 99]
    return res


def run(case, env):
    kind = case["kind"]
    if kind == "table":
        return run_table(case, env)
    if kind == "program":
        cl = list(PROGRAMS[case["program"]])
        if case["program"] == "walk":
            cl.append([(False, ["at", case["list"]])])
        cl.append([tuple(x) for x in case["goal"]])
        text = B.problem(cl, case["syntax"])
        if not case["expect"] and case["program"] == "walk":
            return ok(False, text, ["walk-open"])     # $rest($nil) goes on for ever
        o = c06_arith.decide(case, env, text, case["expect"], "list program %s" % case["program"])
        return o or ok(True, text, ["program:%s:%s" % (case["program"], case["expect"])])
    lit = case["lit"]
    if lit[0] == "same":
        f = (lambda t: ["f", "g", t, ["c", "a"]]) if case["depth"] else (lambda t: t)
        cl = [[(False, ["p", f(lit[1])])], [(True, ["p", f(lit[2])])]]
        exp = B.same(B.ev(lit[1]), B.ev(lit[2]))
        text = B.problem(cl, case["syntax"])
        o = c06_arith.decide(case, env, text, exp, "the same value" if exp else "different values")
        return o or ok(True, text, ["noneq:%s" % exp])
    e = B.pred(lit[0], lit[1:])
    texts = []
    for neg in (False, True):
        text = B.problem(c06_arith.wrapped(lit, neg, case["wrap"]), case["syntax"])
        texts.append(text)
        exp = (e is False and not neg) or (e is True and neg)
        o = c06_arith.decide(case, env, text, exp, "documented value %s" % ("none" if e is None else e))
        if o:
            return o
    deep = any(x[0] in ("f", "l") for x in lit[1:]) or len(lit) > 2
    return ok(deep, texts[0], ["%s:%s" % (lit[0], e)], evals=2)


def run_table(case, env):
    rows = case["rows"]
    cl = [[(False, ["row", ["i", i], t])] for i, t in enumerate(rows)]
    cl.append([(True, ["row", ["v", "X"], ["v", "Y"]]), (False, ["$ans", ["v", "X"], ["v", "Y"]])])
    text = B.problem(cl, case["syntax"])
    st = dict(case["strategy"], max_answers=len(rows), max_seconds=3)
    r = c06_arith.call(case, env, text, ["-strategytext", json.dumps(st), "-json"])
    try:
        j = json.loads(r.out)
        ans = {a["answer"][0][1]: a["answer"][0][2] for a in j["answers"]}
    except Exception as ex:
        return viol("no answers: %r\n%s%s" % (ex, text, r.out[:800]))
    for i, t in enumerate(rows):
        if i not in ans:
            return viol("missing answer: %d\n%s%s" % (i, text, r.out[:1500]))
        v = B.ev(t)
        if not matches(ans[i], v):
            return viol("wrong value: %s is printed as %s, documented value %s\n%s" % (B.tstr(t), json.dumps(ans[i]), B.tstr(v), text))
    return ok(True, text, ["table"], evals=len(rows))


def matches(j, v):
    k = v[0]
    if k == "s":
        return j == "#:" + v[1]
    if k == "nil":
        return j == "$nil"
    if k == "cons":
        return isinstance(j, list) and len(j) == 3 and j[0] == "$list" and matches(j[1], v[1]) and matches(j[2], v[2])
    if k == "f":
        return isinstance(j, list) and len(j) == len(v) - 1 and j[0] == v[1] and all(matches(a, b) for a, b in zip(j[1:], v[2:]))
    return c06_arith.matches(j, v)


def shrinks(case):
    if case["kind"] == "program":
        if case["syntax"] != "simple":
            yield dict(case, syntax="simple")
        return
    if case["kind"] == "noneq":
        L = case["lit"]
        if case["syntax"] != "simple":
            yield dict(case, syntax="simple")
        for i in (1, 2):
            for t in c06_arith.smaller(L[i]):
                n = L[:i] + [t] + L[i + 1:]
                va, vb = B.ev(n[1]), B.ev(n[2])
                e = B.equal(va, vb)
                if e != "?" and B.same(va, vb) == (e is True):
                    yield dict(case, lit=n)
        return
    yield from c06_arith.shrinks(case)


describe = c06_arith.describe
