"""C16 Unification, matching and subsumption agree with their definitions.

The C functions are called on parsed clauses (harness/termops.c), which also dumps what was parsed.  The oracle is textbook unification, matching and
clause subsumption on that dump, so nothing depends on how names were read."""
import os, re
from vlib import build, gkc
from vlib.engine import ok, viol, skip

PROP = "C16"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: random and mutated term pairs, clause pairs and clause lists through the C functions against textbook unification, "
             "matching and subsumption (under the address sanitizer)")
LEVEL_NOTE = "sampled terms and clauses; the oracle is exact"
RULE = ("Scripts of up to 30 operations on terms of up to about 300 symbols and clauses of up to 9 literals: a common shape with parts replaced by variables, an instance of "
        "the first with a small change, or unrelated ones, with shared and repeated variables, cyclic bindings, numbers, strings, quoted names, lists and equality. "
        "Non-trivial: the script has both positive and negative verdicts, and a positive one that binds a variable; distinct by script.")
ASSUMPTIONS = ["a clause subsumes another when a substitution maps its literals onto different literals of the other (the definition in Reasoner/subsume.c)",
               "the clause information used to skip comparisons is kept for rule clauses only, and ground clauses other than units are tried on ground clauses only: "
               "such pairs, which lose no proof, are judged by the comparison itself",
               "answer literals and the experimental instgen strategy, which use other definitions, are left out"]
CHUNK = 8
FUN = [("f", 1), ("g", 2), ("h", 3), ("k", 1), ("longfunctionname_abcdefghijklmnopqrstuvw", 2), ("s", 1)]
PRED = [("p", 1), ("q", 2), ("r", 3), ("p", 2), ("t", 0), ("longpredicate_abcdefghijklmnopqrstuvwxyz0123456789", 1), ("=", 2)]
CONST = ["a", "b", "c", "d", "e0", "longconstant_abcdefghijklmnopqrstuvwxyz01", "longconstant_abcdefghijklmnopqrstuvwxyz02", "It is", "Big"]


def prepare(tier):
    h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "termops.c")
    return {"bin": build.build("asan", kind="harness", harness=h), "small": build.build("small", kind="harness", harness=h)}


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [("unify", 1500 * k), ("match", 1200 * k), ("equal", 300 * k), ("subsume", 1800 * k), ("list", 2000 * k)]


# ---- generation

def const(r):
    k = r.random()
    if k < 0.7:
        return ["c", r.choice(CONST[:4] if r.random() < 0.7 else CONST)]
    if k < 0.85:
        return ["i", r.choice([0, 1, -1, 7, 100000, 2 ** 31, 2 ** 40, -2 ** 40, 2 ** 60, r.randint(-9, 9)])]
    if k < 0.92:
        return ["r", r.choice(["0.5", "1.0", "2.25", "-3.5", "1000000.5"])]
    return ["s", r.choice(["", "a", "abc", "x y", "a" * 31, "a" * 32, "a" * 33, "a" * 60])]


def term(r, depth, nv, pv=0.3):
    k = r.random()
    if depth <= 0 or k < 0.35:
        return ["v", r.randrange(nv)] if nv and r.random() < pv + 0.2 else const(r)
    if k < 0.4:
        return ["l", [term(r, depth - 1, nv, pv) for _ in range(r.choice([0, 1, 2, 3]))]]
    n, a = r.choice(FUN)
    return ["f", n, [term(r, depth - 1, nv, pv) for _ in range(a)]]


def atom(r, nv, depth, pv=0.3, pred=None):
    n, a = pred or r.choice(PRED if r.random() < 0.5 else PRED[:3])
    return ["f", n, [term(r, depth, nv, pv) for _ in range(a)]]


def kids(t):
    return t[2] if t[0] == "f" else t[1] if t[0] == "l" else []


def withkids(t, ks):
    return ["f", t[1], ks] if t[0] == "f" else ["l", ks] if t[0] == "l" else t


def size(t):
    return 1 + sum(size(x) for x in kids(t))


def mapsub(t, fn, top=False):
    if not top:
        x = fn(t)
        if x is not None:
            return x
    return withkids(t, [mapsub(x, fn) for x in kids(t)])


def general(r, t, base, prob, reuse):
    """t with some subterms replaced by variables numbered from base; equal subterms get the same variable with probability reuse."""
    names = {}
    count = [base]

    def fn(x):
        if x[0] == "v" or r.random() >= prob:
            return None
        key = repr(x)
        if key in names and r.random() < reuse:
            return ["v", names[key]]
        names[key] = count[0]
        count[0] += 1
        if r.random() < 0.04 and count[0] > base + 1:
            return ["v", r.randrange(base, count[0])]  # a clash
        return ["v", names[key]]
    return mapsub(t, fn, True)


def mutate(r, t, nv):
    n = size(t)
    i = [r.randrange(1, n) if n > 1 else 0]

    def fn(x):
        i[0] -= 1
        if i[0] == 0:
            i[0] = -1
            o = r.random()
            if o < 0.3:
                return const(r)
            if o < 0.5:
                return ["v", r.randrange(nv)]
            if o < 0.7:
                return ["f", "f", [x]]
            if o < 0.8 and kids(x):
                return kids(x)[0]
            if o < 0.9 and x[0] == "f":
                return ["f", r.choice([f for f, a in FUN]), x[2]]
            return term(r, 2, nv)
        return None
    return mapsub(t, fn, True)


def subst(t, s):
    return mapsub(t, lambda x: s.get(x[1]) if x[0] == "v" else None)


def variables(t, out=None):
    out = set() if out is None else out
    if t[0] == "v":
        out.add(t[1])
    for x in kids(t):
        variables(x, out)
    return out


def rdepth(r):
    return r.choice([1, 1, 2, 2, 3, 3, 4, 6])


def nest(r, t):
    for _ in range(r.choice([5, 20, 60, 130, r.randint(1, 260)])):
        t = ["f", r.choice(["f", "k"]), [t]]
    return t


def chain(r):
    n = r.choice([2, 3, 5, 7])
    a = [["v", i] for i in range(n)] + [["v", 20]]
    b = [["f", "g", [["v", i + 1], ["v", i + 1]]] for i in range(n - 1)] + [["c", "a"], ["v", r.choice([0, 1, n - 1])]]
    p = list(range(len(a)))
    r.shuffle(p)
    a, b = [a[i] for i in p], [b[i] for i in p]
    for i in range(len(a)):
        if r.random() < 0.5:
            a[i], b[i] = b[i], a[i]
    return ["f", "w", a], ["f", "w", b]


def pair(r, kind):
    pred = r.choice(PRED[:4])
    k = r.random()
    u = atom(r, r.choice([0, 2, 4]), rdepth(r), 0.2, pred)
    if k < 0.06:
        u[2][0] = nest(r, u[2][0])
    elif k < 0.1:
        u[2][0] = term(r, r.choice([6, 8]), 5)
    if size(u) > 400:
        u = atom(r, 2, 2, 0.2, pred)
    if kind == "equal":
        v = u if r.random() < 0.5 else mutate(r, u, 4)
        return u, v
    if kind == "match":
        s = general(r, u, 30, r.choice([0.1, 0.3, 0.6]), 0.8)
        if r.random() < 0.5:
            s = subst(s, {v: ["v", r.randrange(0, 6)] for v in variables(s) if r.random() < 0.9 and v >= 30})
        if r.random() < 0.45:
            u = mutate(r, u, 4)
        if r.random() < 0.1:
            s, u = u, s
        return s, u
    if k > 0.92:
        return chain(r)
    s = general(r, u, 30, r.choice([0.1, 0.3, 0.6]), 0.8)
    t = general(r, u, 30 if r.random() < 0.25 else 60, r.choice([0.1, 0.3, 0.6]), 0.8)
    if r.random() < 0.4:
        t = mutate(r, t, 4)
    if r.random() < 0.2:
        s = mutate(r, s, 80)
    return s, t


def clause(r, n, nv, depth):
    return [[r.choice("+-"), atom(r, nv, r.choice(depth))] for _ in range(n)]


def related(r, c):
    """A clause subsumed, or nearly so, by c."""
    vs = set()
    for s, a in c:
        variables(a, vs)
    sub = {v: term(r, r.choice([0, 0, 1, 2]), 3) if r.random() < 0.7 else ["v", 40 + v % 5] for v in sorted(vs)}
    if r.random() < 0.15 and sub:
        sub[min(sub)] = nest(r, sub[min(sub)])
    d = [[s, subst(a, sub)] for s, a in c]
    for _ in range(r.choice([0, 0, 0, 1, 2, 4])):
        x = r.random()
        if x < 0.4:
            d += clause(r, 1, 3, [0, 1, 2])
        elif x < 0.7:
            s, a = r.choice(d)
            d.append([s if r.random() < 0.8 else "-+"[s == "-"], mutate(r, a, 3) if kids(a) else a])
        else:
            d.append(list(r.choice(c)))
    o = r.random()
    i = r.randrange(len(d))
    if o < 0.15:
        d[i] = ["-+"[d[i][0] == "-"], d[i][1]]
    elif o < 0.35 and kids(d[i][1]):
        d[i] = [d[i][0], mutate(r, d[i][1], 3)]
    elif o < 0.42 and len(d) > 1:
        d.pop(i)
    elif o < 0.5 and len(d) > 1:
        d[i] = list(d[(i + 1) % len(d)])
    r.shuffle(d)
    return d


def genclause(r):
    c = clause(r, r.choice([1, 1, 2, 2, 3, 3, 4, 5]), r.choice([0, 1, 2, 3, 5]), [0, 1, 1, 2, 3])
    if r.random() < 0.35:  # literals on few predicates
        p = r.choice(PRED[:3])
        c = [[s, atom(r, 3, r.choice([0, 1]), 0.5, p) if r.random() < 0.7 else a] for s, a in c]
    return c


def gen(kind, r, i, tier):
    ops = []
    for _ in range(r.choice([3, 10, 30]) if kind != "list" else r.choice([1, 3])):
        fl = "m" if r.random() < 0.6 else "-"
        if kind in ("unify", "match", "equal"):
            s, t = pair(r, kind)
            ops.append({"op": {"unify": "U", "match": "M", "equal": "E"}[kind], "fl": fl, "cl": [[["+", s], ["+", t]]]})
        elif kind == "subsume":
            c = genclause(r)
            d = related(r, c) if r.random() < 0.85 else genclause(r)
            if r.random() < 0.07:
                c, d = d, c
            ops.append({"op": "S", "fl": "m", "cl": [c, d]})
        else:
            cs = [genclause(r) for _ in range(r.choice([1, 3]))]
            while len(cs) < r.choice([4, 8, 14]):
                c = r.choice(cs)
                cs.append(related(r, c) if r.random() < 0.5 else [[s, general(r, a, 30, 0.3, 0.9)] for s, a in c] if r.random() < 0.6 else genclause(r))
            r.shuffle(cs)
            ops.append({"op": "L", "fl": "m", "cl": cs})
    return {"k": kind, "ops": ops}


# ---- text

def name(n):
    return n if re.match(r"^[a-z][a-zA-Z0-9_]*$", n) else "'" + n + "'"


def show(t):
    if t[0] == "v":
        return "X%d" % t[1]
    if t[0] in "ir":
        return str(t[1])
    if t[0] == "s":
        return '"%s"' % t[1]
    if t[0] == "c":
        return name(t[1])
    if t[0] == "l":
        return "[%s]" % ",".join(show(x) for x in t[1])
    if t[1] == "=":
        return "(%s = %s)" % tuple(show(x) for x in t[2])
    return name(t[1]) + ("(%s)" % ",".join(show(x) for x in t[2]) if t[2] else "")


def lit(l):
    s, a = l
    if a[1] == "=":
        return "%s %s %s" % (show(a[2][0]), "=" if s == "+" else "!=", show(a[2][1]))
    return ("-" if s == "-" else "") + show(a)


def line(op):
    return "%s %s %s" % (op["op"], op["fl"], " ".join(" | ".join(lit(l) for l in c) + "." for c in op["cl"]))


# ---- the model, on dumped terms: nested tuples for compound terms, strings for the rest, variables start with ?

TOK = re.compile(r'\(|\)|\[|\]|[+-](?=\()|[+-](?=[a-z]")|="?|[^()\[\]\s]+')


def parse(tokens, i):
    t = tokens[i]
    if t != "(":
        return t, i + 1
    out = []
    i += 1
    while tokens[i] != ")":
        x, i = parse(tokens, i)
        out.append(x)
    return tuple(out), i + 1


class Clause(list):
    fact = False  # stored as a fact record


def hidden(c, d):
    """The clause information, by design, keeps c from subsuming d: it is kept for rule clauses only, and a ground clause is tried on ground ones only."""
    return c.fact or d.fact or ("?" not in repr(c) and "?" in repr(d))


def ground_unit(c):
    return len(c) == 1 and "?" not in repr(c)


def read(text):
    """The items of an outcome line: terms, clauses as lists of (sign, atom), and words."""
    tokens = TOK.findall(text)
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "[":
            c = Clause()
            i += 1
            if tokens[i] == "fact":
                c.fact = True
                i += 1
            while tokens[i] != "]":
                s = tokens[i]
                x, i = parse(tokens, i + 1)
                c.append((s, x))
            i += 1
            out.append(c)
        else:
            x, i = parse(tokens, i)
            out.append(x)
    return out


def isvar(t):
    return isinstance(t, str) and t[0] == "?"


def walk(t, s):
    while isvar(t) and t in s:
        t = s[t]
    return t


def occurs(v, t, s):
    t = walk(t, s)
    if t == v:
        return True
    return isinstance(t, tuple) and any(occurs(v, x, s) for x in t)


def unify(a, b, s):
    a, b = walk(a, s), walk(b, s)
    if a == b:
        return True
    if isvar(a) or isvar(b):
        if not isvar(a):
            a, b = b, a
        if occurs(a, b, s):
            return False
        s[a] = b
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(unify(x, y, s) for x, y in zip(a, b))
    return False


def apply(t, s):
    t = walk(t, s)
    return tuple(apply(x, s) for x in t) if isinstance(t, tuple) else t


def canon(t, names):
    if isvar(t):
        return names.setdefault(t, "?%d" % len(names))
    return tuple(canon(x, names) for x in t) if isinstance(t, tuple) else t


def match(a, b, s):
    """The extension of s, or None; variables of b are constants."""
    if isvar(a):
        if a in s:
            return s if s[a] == b else None
        s = dict(s)
        s[a] = b
        return s
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return None
        for x, y in zip(a, b):
            s = match(x, y, s)
            if s is None:
                return None
        return s
    return s if a == b else None


def subsumes(c, d, s=None, used=frozenset()):
    if not c:
        return True
    s = s or {}
    best = None
    for i, (g, a) in enumerate(c):  # the literal with the fewest partners first
        o = [(j, m) for j, (h, b) in enumerate(d) if j not in used and g == h for m in [match(a, b, s)] if m is not None]
        if best is None or len(o) < len(best[1]):
            best = (i, o)
            if len(o) < 2:
                break
    i, o = best
    return any(subsumes(c[:i] + c[i + 1:], d, m, used | {j}) for j, m in o)


# ---- running

def judge(op, out):
    """(message or None, positive, binds)"""
    if " ... " in out:
        return "SKIP the terms are too large to print", 0, 0
    w = read(out)
    if "DIRTY" in w:
        return "variable bindings left behind", 0, 0
    k = w[0]
    if len(w) > 1 and w[1] in ("unread", "shape"):
        return "SKIP " + w[1], 0, 0
    if k in "UME":
        if "ASYM" in w:
            return "term equality depends on the order of its arguments", 0, 0
        at = w.index("=")
        a, b, r = w[at + 1], w[at + 2], w[at + 4]
        if k == "E":
            want = a == b
        elif k == "M":
            m = match(a, b, {})
            want = m is not None
        else:
            s = {}
            want = unify(a, b, s)
        word = {"U": "unify", "M": "match", "E": "are equal"}[k]
        if want != (r == "1"):
            return "%s and %s %s: %s expected, got %s" % (flat(a), flat(b), word, want, r), 0, 0
        if k == "U" and want:
            rest = w[at + 5:]
            exp = apply(a, s)
            if rest[0] != rest[1]:
                return "the unifier of %s and %s gives different instances %s and %s" % (flat(a), flat(b), flat(rest[0]), flat(rest[1])), 0, 0
            if canon(rest[0], {}) != canon(exp, {}):
                return "the unifier of %s and %s is not most general: instance %s, expected %s" % (flat(a), flat(b), flat(rest[0]), flat(exp)), 0, 0
            if len(rest) > 3 and rest[2] != rest[3]:
                return "the built instances of %s and %s differ: %s and %s" % (flat(a), flat(b), flat(rest[2]), flat(rest[3])), 0, 0
            if len(rest) > 3 and canon(rest[2], {}) != canon(exp, {}):
                return "the built instance of %s and %s is %s, expected %s" % (flat(a), flat(b), flat(rest[2]), flat(exp)), 0, 0
            if rest[2:] == ["nobuild"]:
                return "no instance built for %s and %s" % (flat(a), flat(b)), 0, 0
        return None, want, "?" in repr(a)
    at = w.index("=")
    cls, res = w[1:at], w[at + 1:]
    if k == "S":
        want = subsumes(cls[0], cls[1])
        if want != (res[1] == "1"):
            return "%s subsumes %s: %s expected, got %s" % (flatc(cls[0]), flatc(cls[1]), want, res[1]), 0, 0
        if want and res[0] == "0" and not hidden(cls[0], cls[1]):
            return "%s subsumes %s, but the clause information says it cannot" % (flatc(cls[0]), flatc(cls[1])), 0, 0
        return None, want, "?" in repr(cls[0])
    if "simplified" in res or "nostore" in res:
        return "SKIP simplified", 0, 0
    pos = 0
    for i in range(1, len(cls)):
        subs = [c for c in cls[:i] if subsumes(c, cls[i])]
        want = bool(subs)
        pos |= want
        if want and all(hidden(c, cls[i]) and not ground_unit(c) for c in subs):
            continue
        if len(res) < i:
            raise ValueError(out)
        if want != (res[i - 1] == "1"):
            return "%s is subsumed by one of %s: %s expected, got %s" % (flatc(cls[i]), " ".join(flatc(c) for c in cls[:i]), want, res[i - 1]), 0, 0
    return None, pos, 1


def flat(t):
    if isinstance(t, str):
        return re.sub(r'^u"(.*)"$', r"\1", t)
    return "%s(%s)" % (flat(t[0]), ",".join(flat(x) for x in t[1:]))


def flatc(c):
    return " | ".join(("-" if s == "-" else "") + flat(a) for s, a in c)


def execute(binary, lines):
    f = gkc.write("terms.txt", "\n".join(lines) + "\n")
    o = f[:-3] + "out"
    r = gkc.run(binary, [f, o], timeout=60, asan=True)
    with open(o, errors="replace") as fh:
        out = fh.read().split("\n")
    if r.timeout:
        return out, "no answer in 60 s after %d outcomes" % (len(out) - 1)
    if r.crashed or "END" not in out:
        return out, "crash after %d outcomes: %s" % (len(out) - 1, r.out[:1500])
    return [x for x in out if x and x != "END" and not x.startswith("{")], None


def run(case, env):
    lines = []
    for o in case["ops"]:
        if o["op"] == "L":
            lines.append("N")
        lines.append(line(o))
    out, msg = execute(env["small" if case["k"] == "list" else "bin"], lines)  # a fresh reasoner is slow under the sanitizer
    if msg:
        return viol(msg, [case["k"]])
    out = [x for x in out if x != "N"]
    pos = neg = binds = 0
    skipped = None
    for o, x in zip(case["ops"], out):
        m, p, b = judge(o, x)
        if m and m.startswith("SKIP"):
            skipped = m
            continue
        if m:
            return viol(m, [case["k"]])
        pos += bool(p)
        neg += not p
        binds += bool(p and b)
    if skipped and not pos + neg:
        return skip(skipped, [case["k"]])
    return ok(bool(pos and neg and binds) or (case["k"] == "list" and pos > 0), "\n".join(lines), [case["k"]] + (["positive"] if pos else []))


def shrinks(case):
    ops = case["ops"]
    if len(ops) > 1:
        h = len(ops) // 2
        for part in (ops[:h], ops[h:]):
            yield {"k": case["k"], "ops": part}
        for i in range(len(ops)):
            yield {"k": case["k"], "ops": ops[:i] + ops[i + 1:]}
        return
    o = ops[0]

    def with_cl(cl):
        return {"k": case["k"], "ops": [{"op": o["op"], "fl": o["fl"], "cl": cl}]}
    if o["op"] == "L" and len(o["cl"]) > 2:
        for i in range(len(o["cl"])):
            yield with_cl(o["cl"][:i] + o["cl"][i + 1:])
    if o["op"] in "SL":
        for i, c in enumerate(o["cl"]):
            if len(c) > 1:
                for j in range(len(c)):
                    yield with_cl(o["cl"][:i] + [c[:j] + c[j + 1:]] + o["cl"][i + 1:])
        if o["op"] == "S":  # drop one literal from both
            for i in range(len(o["cl"][0])):
                for j in range(len(o["cl"][1])):
                    if min(len(o["cl"][0]), len(o["cl"][1])) > 1:
                        yield with_cl([o["cl"][0][:i] + o["cl"][0][i + 1:], o["cl"][1][:j] + o["cl"][1][j + 1:]])
    if o["op"] in "UME":
        a, b = o["cl"][0][0][1], o["cl"][0][1][1]
        if len(a[2]) == len(b[2]) and len(a[2]) > 1:
            for i in range(len(a[2])):
                yield with_cl([[["+", ["f", a[1], a[2][:i] + a[2][i + 1:]]], ["+", ["f", b[1], b[2][:i] + b[2][i + 1:]]]]])
        for i in range(min(len(a[2]), len(b[2]))):
            if kids(a[2][i]) and kids(b[2][i]):
                yield with_cl([[["+", ["f", "p", kids(a[2][i])]], ["+", ["f", "p", kids(b[2][i])]]]])
    for i, c in enumerate(o["cl"]):
        for j, (s, a) in enumerate(c):
            for x in smaller(a):
                yield with_cl(o["cl"][:i] + [c[:j] + [[s, x]] + c[j + 1:]] + o["cl"][i + 1:])


def smaller(t):
    ks = kids(t)
    for i, x in enumerate(ks):
        for y in ([["c", "a"]] if x != ["c", "a"] and not x[0] == "v" else []) + [z for z in kids(x)]:
            yield withkids(t, ks[:i] + [y] + ks[i + 1:])
        for y in smaller(x):
            yield withkids(t, ks[:i] + [y] + ks[i + 1:])


def describe(case):
    return "\n".join(line(o) for o in case["ops"])
