"""C06 ground arithmetic evaluates to the documented value.

Oracle: vlib/builtin.py, an independent evaluator with exact integers (64 bit limits) and IEEE doubles.  A ground literal
whose documented value is true is refuted together with its negation, one whose value is false is refutable, and one
without a value (overflow, division by zero, non-numbers) is refutable neither way."""
import json, math
from vlib import build, builtin as B, gkc
from vlib.engine import ok, viol, skip

PROP = "C06"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random ground arithmetic terms and comparisons against an exact reference evaluator, both polarities"
LEVEL_NOTE = "sampled terms, weighted to the limits of the integer range, rounding boundaries and mixed types; the oracle is exact"
RULE = ("Random ground terms over all documented functions (nesting to depth 4) with integer arguments drawn from small numbers, powers of two, "
        "the 64 bit limits and their neighbours, and reals; as comparisons, type tests, equations with the exact value and with near misses, as "
        "facts whose evaluated arguments are read from the printed answers, and inside rules that iterate a function; written in the three languages. "
        "Each literal is asserted both ways.  Non-trivial: the literal has at least one function application, or (numbers) two different literals; distinct by text.")
ASSUMPTIONS = ["integer $quotient truncates, real $quotient_e/t/f give integers, $to_int of a real is its floor, remainders of reals truncate the operands first",
               "whether 1 = 1.0, the two zeros, and halves under $round are left out",
               "reals are IEEE doubles"]
CHUNK = 8
STRATS = [{"strategy": ["negative_pref"]}, {"strategy": ["unit"]}, {"strategy": []}, {"strategy": ["double"]}, {"strategy": ["negative_pref"], "equality": 0},
          {"strategy": ["negative_pref"], "query_preference": 0}, {"strategy": ["hardness_pref"]}, {"strategy": ["positive_pref"]}]


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("pred", 5000 * k), ("value", 5000 * k), ("table", 1500 * k), ("loop", 700 * k), ("number", 2000 * k), ("auto", 150 * k)]


EDGE = [0, 1, -1, 2, -2, 3, 5, 7, 10, 100, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**60, 2**61 - 1, 2**61, 2**62 - 1, 2**62,
        -2**61, -2**62, -2**62 - 1, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 3037000499, 3037000500, 4294967296, 10**18, -10**18, 999999999999]


def rint(r):
    k = r.random()
    if k < 0.5:
        return r.randint(-12, 12)
    if k < 0.7:
        return max(B.IMIN, min(B.IMAX, r.choice(EDGE) + r.randint(-2, 2)))
    if k < 0.8:
        return max(B.IMIN, min(B.IMAX, r.choice([1, -1]) * (2 ** r.randint(0, 63)) + r.randint(-1, 1)))
    return r.randint(-10 ** r.randint(1, 18), 10 ** r.randint(1, 18))


def rreal(r):
    k = r.random()
    if k < 0.5:
        x = r.choice([-3, -2.5, -1.5, -1, -0.5, 0.5, 1, 1.5, 2, 2.5, 3, 7, 10, 0.1, 0.2, 0.3, 3.999, -3.999, 100.25])
    elif k < 0.7:
        x = r.randint(-1000, 1000) / r.choice([2, 4, 8, 10, 100])
    elif k < 0.85:
        x = float(rint(r))
    elif k < 0.93:
        x = r.uniform(-1, 1) * 10 ** r.randint(-5, 20)
    else:
        x = r.choice([1, -1]) * 2.0 ** r.randint(-40, 70)
    return x if x != 0 else 1.0


def rnum(r, preal):
    return ["r", rreal(r)] if r.random() < preal else ["i", rint(r)]


def rterm(r, d, preal, popen=0.03):
    if d == 0 or r.random() < 0.15:
        if r.random() < popen:
            return ["c", r.choice(["a", "b"])]
        return rnum(r, preal)
    k = r.random()
    if k < 0.2:
        a, b = rterm(r, d - 1, preal, popen), rterm(r, d - 1, preal, popen)
        # documented: no non-number as the first operand of an infix expression
        if a[0] in ("i", "r") and not (b[0] in ("i", "r") and b[1] < 0):
            return ["op", r.choice("+-*/"), a, b]
        return ["f", "$sum", a, b]
    if k < 0.7:
        return ["f", r.choice(B.A2), rterm(r, d - 1, preal, popen), rterm(r, d - 1, preal, popen)]
    return ["f", r.choice(B.A1), rterm(r, d - 1, preal, popen)]


def round_half(t):
    """$round at an exact half is left out."""
    if t[0] == "f" or t[0] == "op":
        if t[1] == "$round":
            v = B.ev(t[2])
            if v[0] == "r" and v[1] - math.floor(v[1]) == 0.5:
                return True
        return any(round_half(x) for x in t[2:])
    return False


def gen(kind, r, i, tier):
    case = {"kind": kind, "syntax": r.choice(["simple", "tptp", "json"]), "strategy": r.choice(STRATS), "wrap": r.choice([0, 0, 1, 2, r.randint(3, 12)]),
            "bin": "bison" if r.random() < 0.02 else "plain" if r.random() < 0.03 else "gkc"}
    if case["wrap"] >= 2 or kind == "loop":
        # a built-in literal with variables has to wait for its instance: only the negative ordinary literal is resolved upon
        case["strategy"] = dict(r.choice(STRATS[:1] + STRATS[4:6]))
    pr = r.choice([0, 0, 0, 0.3, 1])
    for _ in range(200):
        c = dict(case)
        if kind in ("pred", "auto"):
            d = r.randint(0, 3)
            n = r.choice(B.CMP * 3 + ["$is_int", "$is_real", "$is_number"])
            args = [rterm(r, d, pr) for _ in range(2 if n in B.CMP else 1)]
            if n in B.CMP and r.random() < 0.4:
                v = B.ev(args[0])
                if v[0] == "i":
                    args[1] = r.choice([["i", max(B.IMIN, min(B.IMAX, v[1] + r.randint(-1, 1)))], ["r", float(v[1])]])
                    if args[1][1] == 0 and args[1][0] == "r":
                        continue
            c["lit"] = [n] + args
        elif kind == "value":
            t = rterm(r, r.randint(1, 4), pr)
            if t[0] not in ("f", "op"):
                continue
            v = B.ev(t)
            if B.isnum(v):
                w = near(r, v) if r.random() < 0.5 else v
            else:
                w = rnum(r, 0.3)
            if r.random() < 0.2:
                t2 = equivalent(r, t)
                if t2 is not None:
                    w = t2
            c["lit"] = ["=", t, w] if r.random() < 0.8 else ["=", w, t]
        elif kind == "table":
            rows = []
            for _ in range(r.randint(3, 12)):
                t = rterm(r, r.randint(1, 4), pr)
                if not round_half(t):
                    rows.append(t)
            c["rows"] = rows
            return c if rows else None
        elif kind == "loop":
            return gen_loop(r, c)
        elif kind == "number":
            a = rnum(r, 0.3)
            b = near(r, a) if r.random() < 0.5 else a
            if b[0] == a[0] == "r" and b[1] == a[1] == 0:
                continue
            if a[0] != b[0] and a[1] == b[1]:
                continue
            c["lit"] = ["num", a, b]
            c["depth"] = r.randint(0, 2)
            return c
        if c["lit"][0] == "=" and c["strategy"].get("equality") == 0:
            c["strategy"] = STRATS[0]
        if any(round_half(x) for x in c["lit"][1:]):
            continue
        e = B.pred(c["lit"][0], c["lit"][1:])
        if e == "?":
            continue
        if kind == "auto" and e is None:
            continue
        return c
    return None


def near(r, v):
    if v[0] == "i":
        k = r.random()
        n = v[1]
        w = n + r.choice([1, -1]) if k < 0.4 else -n if k < 0.5 else n ^ (1 << r.randint(0, 62)) if k < 0.8 else n + r.choice([2**32, -2**32, 2**61, 2**62, 2**63, -2**63])
        return ["i", max(B.IMIN, min(B.IMAX, w))]
    k = r.random()
    x = v[1]
    y = math.nextafter(x, math.inf) if k < 0.3 else math.nextafter(x, -math.inf) if k < 0.5 else -x if k < 0.6 else x + r.choice([1, -1]) if k < 0.8 else x * 2
    if not math.isfinite(y) or abs(y) > 1e30 or (y != 0 and abs(y) < 1e-12) or y == 0:
        y = x + 1
    return ["r", y]


def equivalent(r, t):
    """Another term, equal by evaluation of both (not by algebra)."""
    v = B.ev(t)
    if v[0] == "i":
        n = v[1]
        d = r.randint(-5, 5)
        if B.IMIN <= n - d <= B.IMAX:
            return ["f", "$sum", ["i", n - d], ["i", d]]
    return None


def gen_loop(r, c):
    """p(a). p(X) & guard(X) => p(f(X)): the values reached."""
    for _ in range(100):
        X = ["v", "X"]
        a = ["i", r.randint(-20, 20)] if r.random() < 0.7 else ["r", r.choice([0.5, 1.5, 2.25, -3.5, 10.0])]
        n = r.choice(["$sum", "$difference", "$product", "$quotient", "$remainder_f", "$quotient_t", "$uminus"])
        k = ["i", r.choice([1, 2, 3, 5, 7, -2, -3])] if r.random() < 0.8 else ["r", r.choice([0.5, 1.5, 2.0])]
        step = ["f", n, X, k] if n != "$uminus" else ["f", "$sum", ["f", n, X], k]
        lim = ["i", r.randint(-60, 60)]
        g = r.choice(B.CMP)
        seen, cur = [], a
        while len(seen) < 25:
            if any(B.same(cur, s) for s in seen):
                break
            seen.append(cur)
            gv = B.pred(g, [cur, lim])
            if gv is not True:
                break
            cur = B.ev(inst(step, cur))
            if not B.isnum(cur):
                seen.append(cur)
                break
        else:
            continue
        if len(seen) < 3 or not all(B.isnum(s) for s in seen):
            continue
        if any(s[0] == "r" and s[1] == 0 for s in seen):
            continue
        c["loop"] = {"start": a, "step": step, "guard": [g, X, lim]}
        if r.random() < 0.5:
            c["goal"] = r.choice(seen)
            c["expect"] = True
        else:
            w = near(r, r.choice(seen)) if r.random() < 0.7 else ["i", r.randint(-80, 80)]
            if any(B.isnum(s) and s[1] == w[1] for s in seen):
                continue
            c["goal"] = w
            c["expect"] = False
        return c
    return None


def inst(t, v):
    if t[0] == "v":
        return v
    if t[0] == "f":
        return ["f", t[1]] + [inst(x, v) for x in t[2:]]
    return t


LEAF = ("i", "r", "s", "nil")


def kids(t):
    return t[1] if t[0] == "l" else t[2:] if t[0] in ("f", "op") else []


def leaves(ts):
    return [x for t in ts for x in ([t] if t[0] in LEAF else leaves(kids(t)))]


def put_var(t, box):
    """The leaf number box[0] replaced by Z and kept in box[1]."""
    if t[0] in LEAF:
        box[0] -= 1
        if box[0] == -1:
            box[1] = t
            return ["v", "Z"]
        return t
    if t[0] == "l":
        return ["l", [put_var(x, box) for x in t[1]]]
    if t[0] in ("f", "op"):
        return t[:2] + [put_var(x, box) for x in t[2:]]
    return t


def wrapped(lit, neg, wrap):
    """Clauses that are refutable exactly if the literal (negated if neg) is false."""
    if wrap == 1:
        return [[(neg, lit), (False, ["q", ["c", "e"]])], [(True, ["q", ["c", "e"]])]]
    if wrap == 2:
        vs = [["v", "X"], ["v", "Y"], ["v", "Z"]][:len(lit) - 1]
        return [[(False, ["p"] + lit[1:])], [(True, ["p"] + vs), (neg, [lit[0]] + vs)]]
    if wrap >= 3 and not (lit[0] == "=" and neg):
        # one constant inside the arguments is a variable that gets its value by resolution
        n = len(leaves(lit[1:]))
        if n:
            box = [(wrap - 3) % n, None]
            l2 = [lit[0]] + [put_var(a, box) for a in lit[1:]]
            return [[(False, ["p", box[1]])], [(True, ["p", ["v", "Z"]]), (neg, l2)]]
    return [[(neg, lit)]]


def call(case, env, text, extra=(), limit=5):
    p = gkc.write("t" + B.EXT[case["syntax"]], text)
    b = env[case["bin"]]
    args = [p, "-mbsize", 50, "-print", 10, "-parallel", 0, "-seconds", limit] + list(extra)
    return gkc.run(b, args, timeout=60)


def decide(case, env, text, expect, what):
    """Run; None if as expected, else an outcome."""
    st = case["strategy"]
    if case["kind"] == "auto":
        extra = []
    else:
        extra = ["-strategytext", json.dumps(dict(st, max_seconds=3))]
    r = call(case, env, text, extra)
    v = r.verdict()
    if v == "proof" and expect:
        return None
    if v == "noproof" and not expect:
        return None
    if v == "noproof" and expect:
        # perhaps the machine was slow
        if r.time_limit:
            if call(case, env, text, ["-seconds", 20]).verdict() == "proof":
                return None
        return viol("missing proof: %s\n%s%s" % (what, text, r.out[-300:]))
    if v == "proof":
        return viol("wrong proof: %s\n%s%s" % (what, text, r.out[:600]))
    return viol("%s: %s\n%s%s" % (v, what, text, r.out[:600]))


def has_min(x):
    return isinstance(x, list) and (x[:1] == ["i"] and x[1] == B.IMIN or any(has_min(y) for y in x))


def run(case, env):
    kind = case["kind"]
    if case["syntax"] == "json" and has_min([case.get("lit"), case.get("rows"), case.get("goal")]):
        case = dict(case, syntax="tptp")      # the JSON reader reports -2^63 as out of range
    if kind == "table":
        return run_table(case, env)
    if kind == "loop":
        L = case["loop"]
        X = ["v", "X"]
        cl = [[(False, ["p", L["start"]])], [(True, ["p", X]), (True, L["guard"]), (False, ["p", L["step"]])], [(True, ["p", case["goal"]])]]
        text = B.problem(cl, case["syntax"])
        o = decide(case, env, text, case["expect"], "reachable" if case["expect"] else "not reachable")
        return o or ok(True, text, ["loop:%s" % case["expect"]])
    lit = case["lit"]
    if lit[0] == "num":
        f = lambda t: ["f", "f", f1(t)] if case["depth"] > 1 else f1(t)
        f1 = lambda t: ["f", "g", t, ["c", "a"]] if case["depth"] else t
        cl = [[(False, ["p", f(lit[1])])], [(True, ["p", f(lit[2])])]]
        exp = B.same(lit[1], lit[2])
        text = B.problem(cl, case["syntax"])
        o = decide(case, env, text, exp, "numbers %s" % ("equal" if exp else "different"))
        return o or ok(True, text, ["number:%s" % exp])
    e = B.pred(lit[0], lit[1:])
    texts = []
    for neg in (False, True):
        text = B.problem(wrapped(lit, neg, case["wrap"]), case["syntax"])
        texts.append(text)
        if case["kind"] == "auto" and not (e is False and not neg or e is True and neg):
            continue
        exp = (e is False and not neg) or (e is True and neg)
        o = decide(case, env, text, exp, "documented value %s" % ("none" if e is None else e))
        if o:
            return o
    deep = any(x[0] in ("f", "op", "l") for x in lit[1:])
    return ok(deep, texts[0], ["%s:%s" % (lit[0], e)], evals=2)


def run_table(case, env):
    """The evaluated arguments, as printed in the answers."""
    rows = case["rows"]
    cl = [[(False, ["row", ["i", i], t])] for i, t in enumerate(rows)]
    cl.append([(True, ["row", ["v", "X"], ["v", "Y"]]), (False, ["$ans", ["v", "X"], ["v", "Y"]])])
    text = B.problem(cl, case["syntax"])
    st = dict(case["strategy"], max_answers=len(rows), max_seconds=3)
    r = call(case, env, text, ["-strategytext", json.dumps(st), "-json"])
    try:
        j = json.loads(r.out)
        ans = {a["answer"][0][1]: a["answer"][0][2] for a in j["answers"]}
    except Exception as ex:
        return viol("no answers: %r\n%s%s" % (ex, text, r.out[:800]))
    for i, t in enumerate(rows):
        if i not in ans:
            return viol("missing answer: %d\n%s%s" % (i, text, r.out[:1500]))
        v = B.ev(t)
        if not matches(ans[i], v):
            return viol("wrong value: %s is printed as %s, documented value %s\n%s" % (B.tstr(t), json.dumps(ans[i]), B.tstr(v), text))
    return ok(True, text, ["table"], evals=len(rows))


def matches(j, v):
    if v[0] == "i":
        return isinstance(j, int) and not isinstance(j, bool) and j == v[1]
    if v[0] == "r":
        return isinstance(j, float) and abs(j - v[1]) <= 6e-7 + abs(v[1]) * 1e-14
    if v[0] == "c":
        return j == v[1]
    if v[0] == "f":
        if not isinstance(j, list) or len(j) != len(v) - 1:
            return False
        names = {v[1]} | {k for k, n in B.INFIX.items() if n == v[1]}
        if len(v) == 4 and isinstance(j[1], str) and j[1] in names:      # infix form
            j = [j[1], j[0], j[2]]
        return j[0] in names and all(matches(a, b) for a, b in zip(j[1:], v[2:]))
    return False


def shrinks(case):
    if case.get("wrap"):
        yield dict(case, wrap=0)
    if case["bin"] != "gkc":
        yield dict(case, bin="gkc")
    if case["syntax"] != "simple":
        yield dict(case, syntax="simple")
    if "rows" in case:
        R = case["rows"]
        if len(R) > 1:
            for i in range(len(R)):
                yield dict(case, rows=[R[i]])
        for i in range(len(R)):
            for t in smaller(R[i]):
                yield dict(case, rows=R[:i] + [t] + R[i + 1:])
    if "lit" in case and case["lit"][0] != "num":
        L = case["lit"]
        for i in range(1, len(L)):
            for t in smaller(L[i]):
                n = L[:i] + [t] + L[i + 1:]
                if B.pred(n[0], n[1:]) != "?" and not any(round_half(x) for x in n[1:]):
                    yield dict(case, lit=n)


def smaller(t):
    if t[0] in ("f", "op") and len(t) > 2:
        v = B.ev(t)
        if B.isnum(v) and not (v[0] == "r" and abs(v[1]) > 1e30):
            yield v
        for x in t[2:]:
            yield x
        for i in range(2, len(t)):
            for x in smaller(t[i]):
                yield t[:i] + [x] + t[i + 1:]
    elif t[0] == "l":
        for i in range(len(t[1])):
            yield ["l", t[1][:i] + t[1][i + 1:]]
            yield t[1][i]
            for x in smaller(t[1][i]):
                yield ["l", t[1][:i] + [x] + t[1][i + 1:]]
    elif t[0] == "i" and abs(t[1]) > 2:
        yield ["i", 1]
        yield ["i", t[1] // 2]
    elif t[0] == "s" and t[1]:
        yield ["s", t[1][1:]]
        yield ["s", t[1][:-1]]


def describe(case):
    return json.dumps(case)
