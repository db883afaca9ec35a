"""C21 JSON objects and lists have the documented logical reading."""
import json, re
from vlib import build, gkc, proofread
from vlib.engine import ok, viol, skip

PROP = "C21"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated JSON-LD-LOGIC documents against their translation into plain formulas by a reference reading"
LEVEL_NOTE = "sampled; the plain formulas are read by the parts of the parser which C04 and C05 check"
RULE = ("Documents of objects (explicit, variable, blank and missing @id, ordinary keys and keys which are words of the logic, several values, @type, @list, @value, true/false/null, numbers, distinct symbols, nested objects, @logic beside keys, @graph with and without @id, @context with key mapping, @vocab and @base), "
        "objects in the place of atoms inside if-then, connectives, quantifiers and @question, null arguments, lists as terms.  A reference reading turns each document into formulas over $arc and $narc.  "
        "clauses: -clausify of both gives the same clauses up to names of variables and of invented objects.  verdict: the document and the plain one, in a single or two files, agree on what is proved and answered.  "
        "Non-trivial: at least two arcs in the clauses (clauses), a proof (verdict).  Distinct by document.")
ASSUMPTIONS = ["an object without any key and an empty document mean nothing and are not generated", "several consequences of if-then and roles other than axiom, assumption and question on objects are not generated",
               "documents whose clauses need introduced definitions are not compared",
               "the order of the arguments of $ans is not compared when objects are nested"]
CHUNK = 8


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "bison": build.build("plain", "bison")}


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("clauses", int(8000 * k)), ("verdict", int(2400 * k))]


IDS = ["pete", "mark", "ann", "john", "c1", "a b", "and", "if", "x:y", "Eve", "not"]
KEYS = ["father", "son", "likes", "age", "Name", "if", "and", "or", "is a", "then", "=>", "not", "k"]
TYPE = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
VARS = ["?:X", "?:Y", "?:Z"]


class G:
    def __init__(self, r, odd, vars_):
        self.r, self.odd, self.vars = r, odd, vars_
        self.keys = [k for k in KEYS if odd or k.isalpha() and k not in ("if", "and", "or", "then", "not")]
        self.ids = [k for k in IDS if odd or k.isalpha() and k not in ("and", "if", "not")]

    def scalar(self, var=True):
        r = self.r
        k = r.randrange(14)
        if k < 5:
            return r.choice(self.ids)
        if k < 7:
            return r.choice([0, 1, 5, -3, 30, 10 ** 10])
        if k == 7:
            return r.choice([1.5, -0.25])
        if k == 8:
            return "#:" + r.choice(["s", "a b", "X"])
        if k == 9:
            return r.choice([True, False])
        if k == 10:
            return "_:b%d" % r.randrange(2)
        if var and self.vars:
            return r.choice(self.vars)
        return r.choice(self.ids)

    def value(self, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.scalar()
        if k < 0.6:
            return [self.value(0) for _ in range(r.randrange(1, 4))]
        if k < 0.66:
            return {"@list": [self.plainscalar() for _ in range(r.randrange(0, 4))]}
        if k < 0.70:
            return {"@value": self.scalar(False)}
        if k < 0.73:
            return None
        if d > 0:
            if k < 0.93:
                return self.obj(d - 1)
            return [self.obj(d - 1) if r.random() < 0.6 else self.scalar() for _ in range(r.randrange(1, 3))]
        return self.scalar()

    def obj(self, d, top=False):
        r = self.r
        o = {}
        k = r.random()
        if k < 0.45:
            o["@id"] = r.choice(self.ids)
        elif k < 0.6 and self.vars:
            o["@id"] = r.choice(self.vars)
        elif k < 0.66:
            o["@id"] = "_:b%d" % r.randrange(2)
        for key in r.sample(self.keys, r.choice([1, 1, 2, 3])):
            o[key] = self.value(d)
        if all(v is None for k, v in o.items() if k != "@id"):
            o["k"] = 1
        if r.random() < 0.2:
            o["@type"] = r.choice([r.choice(self.ids), [r.choice(self.ids), "#:t"]])
        if d > 0 and r.random() < 0.12:
            o["@logic"] = self.formula(1)
        if r.random() < 0.3:                     # order of keys is free
            ks = list(o)
            r.shuffle(ks)
            o = {k: o[k] for k in ks}
        return o

    def plainscalar(self):                       # words of the logic are not allowed inside lists
        while True:
            x = self.scalar()
            if x not in ("and", "if", "not"):
                return x

    def term(self, d=1):
        r = self.r
        k = r.random()
        if 0.6 < k < 0.68:
            return {"@list": [self.plainscalar() for _ in range(r.randrange(1, 4))]}
        if 0.68 < k < 0.8 and d:
            return ["f", self.term(d - 1)]
        return self.plainscalar()

    def atom(self):
        r = self.r
        if r.random() < 0.65:
            return self.obj(r.choice([0, 0, 1]))
        a = [r.choice(["p", "q", "-p"])] + [self.term() if r.random() < 0.9 else None for _ in range(r.choice([1, 2]))]
        return ["$arc", self.scalar(), "likes", self.scalar()] if r.random() < 0.15 else a

    def formula(self, d):
        r = self.r
        if d == 0 or r.random() < 0.25:
            return self.atom()
        k = r.randrange(8)
        if k < 3:
            return ["if"] + [self.formula(d - 1) if r.random() < 0.3 else self.atom() for _ in range(r.randrange(1, 4))] + ["then", self.formula(d - 1)]
        if k < 6:
            return [self.formula(d - 1), r.choice(["=>", "&", "|", "<=", "<=>", "and", "or"]), self.formula(d - 1)]
        if k == 6:
            return ["not", self.formula(d - 1)]
        v = r.choice(VARS)
        return [r.choice(["forall", "exists"]), [v], G(r, self.odd, sorted(set(self.vars + [v]))).formula(d - 1)]


def gen(kind, r, i, tier):
    odd = r.random() < 0.3 and kind == "clauses"
    doc = []
    for _ in range(r.randrange(1, 5)):
        g = G(r, odd, r.choice([[], [], ["?:X"], VARS]))
        k = r.random()
        if k < 0.45:
            s = g.obj(r.choice([0, 1, 2, 3]), True)
            if r.random() < 0.2:
                s["@name"] = "n%d" % r.randrange(5)
            if r.random() < 0.1:
                s["@role"] = r.choice(["axiom", "assumption"])
            if r.random() < 0.15:
                s = {"@context": context(r, g), **s}
        elif k < 0.55:
            s = {"@graph": [g.obj(1) if r.random() < 0.8 else g.formula(1) for _ in range(r.randrange(1, 4))]}
            if r.random() < 0.6:
                s = {"@id": r.choice(["g1", "g2", "_:g"]), **s}
                if r.random() < 0.4:
                    s["by"] = r.choice(g.ids)
        elif k < 0.85:
            s = {"@logic": g.formula(2)}
            if r.random() < 0.3:
                s = s["@logic"]
                if isinstance(s, dict):
                    s = [s, "&", s]
            elif r.random() < 0.3:
                s["@name"] = "r1"
        else:
            s = {"@question": g.atom() if r.random() < 0.6 else g.formula(1)}
        doc.append(s)
    if kind == "verdict":
        # a fact, a rule and a question about the same keys, so that proofs exist
        g = G(r, False, [])
        o = g.obj(r.choice([0, 1, 2]))
        o["@id"] = r.choice(["pete", "mark"])
        key = next((k for k, v in o.items() if k[0] != "@" and not isinstance(v, (dict, list)) and v is not None), None)
        if key:
            rule = {"@logic": ["if", {"@id": "?:X", key: "?:Y"}, "then", {"@id": "?:X", "new": "?:Y"}]}
            doc = [o, rule] + [d for d in doc if "@question" not in d][:2] + [{"@question": {"@id": "?:X", "new": o[key] if r.random() < 0.7 else "?:Z"}}]
    return {"kind": kind, "doc": doc}


def context(r, g):
    c = {}
    if r.random() < 0.6:
        for k in r.sample([k for k in g.keys if k.isalpha()], 2):
            c[k] = "http://m.org/" + k
    if r.random() < 0.4:
        c["@vocab"] = "http://v.org/"
    if r.random() < 0.4:
        c["@base"] = "http://base.org/"
    return c or {"k": "http://m.org/k"}


# ---------------------------------------------------------------- reference reading

def names_in_lists(x):
    if isinstance(x, dict):
        if "@list" in x and any(isinstance(y, str) and not y.startswith(("#:", "?:")) for y in x["@list"]):
            return True
        return any(names_in_lists(v) for v in x.values())
    return isinstance(x, list) and any(names_in_lists(v) for v in x)


class Ref:
    def __init__(self):
        self.n = 0
        self.unsure = False

    def new(self):
        self.n += 1
        return "$new%d" % self.n

    def term(self, v):
        if isinstance(v, dict):
            if "@list" in v:
                t = "$nil"
                for x in reversed(v["@list"]):
                    t = ["$list", self.term(x), t]
                return t
            return v["@value"]
        if isinstance(v, list):
            return v[:1] + [self.term(x) for x in v[1:]]
        return v

    def ident(self, o, ctx):
        i = o.get("@id")
        if i is None:
            return self.new()
        if "@base" in ctx and not i.startswith(("?:", "_:")) and ":" not in i:
            return ctx["@base"] + i
        return i

    def key(self, k, ctx):
        if k in ctx:
            return ctx[k]
        if "@vocab" in ctx and ":" not in k:
            return ctx["@vocab"] + k
        return k

    def arc(self, s, p, o, graph):
        return ["$narc", s, p, o, graph] if graph is not None else ["$arc", s, p, o]

    def obj(self, o, ctx, graph, ident=None):
        """Conjunction (list of formulas) of an object."""
        if "@context" in o:
            ctx = dict(ctx, **o["@context"])
            if "@type" in json.dumps(o) or "@logic" in json.dumps(o) or names_in_lists(o) or '"x:y"' in json.dumps(o):
                self.unsure = True               # nothing is documented about these under a context
        needs = any(k[0] != "@" or k == "@type" for k in o)
        out = []
        if ident is None and (needs or "@id" in o):
            ident = self.ident(o, ctx)
        for k, v in o.items():
            if k == "@type":
                for x in v if isinstance(v, list) else [v]:
                    out.append(self.arc(ident, TYPE, x if x.startswith("#:") else self.key(x, ctx), graph))
            elif k == "@graph":
                gid = ident
                for e in v:
                    out += self.inner(e, ctx, gid)
            elif k == "@logic":
                out.append(self.formula(v, ctx, graph))
            elif k[0] != "@":
                self.values(ident, self.key(k, ctx), v, ctx, graph, out)
        return out

    def inner(self, e, ctx, gid):
        if isinstance(e, dict):
            return self.obj(e, ctx, gid)
        return [self.formula(e, ctx, gid)]

    def values(self, s, p, v, ctx, graph, out):
        if v is None:
            return
        if isinstance(v, list):
            for x in v:
                self.values(s, p, x, ctx, graph, out)
        elif isinstance(v, dict) and ("@list" in v or "@value" in v):
            out.append(self.arc(s, p, self.term(v), graph))
        elif isinstance(v, dict):
            i = self.ident(v, ctx)
            out.append(self.arc(s, p, i, graph))
            out += self.obj(v, ctx, graph, i)
        else:
            out.append(self.arc(s, p, v, graph))

    def conj(self, fs):
        if len(fs) == 1:
            return fs[0]
        f = fs[0]
        for g in fs[1:]:
            f = [f, "&", g]
        return f

    def formula(self, f, ctx, graph):
        if isinstance(f, dict):
            return self.conj(self.obj(f, ctx, graph))
        if f[0] == "if":
            i = f.index("then", 1)
            return [self.conj([self.formula(x, ctx, graph) for x in f[1:i]]), "=>", self.formula(f[i + 1], ctx, graph)]
        if f[0] == "not":
            return ["not", self.formula(f[1], ctx, graph)]
        if f[0] in ("forall", "exists"):
            return [f[0], f[1], self.formula(f[2], ctx, graph)]
        if len(f) == 3 and isinstance(f[1], str) and f[1] in ("=>", "&", "|", "<=", "<=>", "and", "or") and isinstance(f[0], (list, dict)):
            a, b = self.formula(f[0], ctx, graph), self.formula(f[2], ctx, graph)
            return [a, {"and": "&", "or": "|"}.get(f[1], f[1]), b]
        return self.atom(f)

    def atom(self, a):
        return a[:1] + [self.term(x) for x in a[1:]]


def plain(doc):
    ref = Ref()
    out = []
    for s in doc:
        if isinstance(s, dict) and "@question" in s:
            out.append({"@question": ref.formula(s["@question"], {}, None)})
        elif isinstance(s, dict):
            o = {k: v for k, v in s.items() if k not in ("@name", "@role")}
            e = {"@logic": ref.conj(ref.obj(o, {}, None))}
            for k in ("@name", "@role"):
                if k in s:
                    e[k] = s[k]
            out.append(e)
        else:
            out.append({"@logic": ref.formula(s, {}, None)})
    return None if ref.unsure else out


# ---------------------------------------------------------------- comparing clauses

INV = re.compile(r"^(\$new\d+|_:crtd_\d+|\$sk\d+)$")


def skolem(x):
    """Functions of Skolem are told apart by nothing: their arguments depend on the nesting of formulas."""
    if isinstance(x, list):
        if len(x) > 1 and x[0] == "f" and isinstance(x[1], str) and x[1].startswith("$sk"):
            return ["f", "$skolem"]
        return [skolem(y) for y in x]
    return x


def canon(out):
    """Canonical multiset of the clauses: invented names coloured by where they occur."""
    cls = []
    for line in out.splitlines():
        if line.strip():
            c = skolem(proofread.text_clause(line.strip()[:-1]))
            cls.append(c)

    def walk(x, f):
        if isinstance(x, list):
            return [walk(y, f) for y in x]
        return f(x)

    def key(c, col, mark=None):
        ls = []
        ren = {}

        def nm(x):
            if isinstance(x, str) and INV.match(x):
                return "#self" if x == mark else "#" + str(col.get(x, 0))
            return x

        def t(x, vs):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "v":
                    return ["v", vs.setdefault(x[1], len(vs))]
                if x and x[0] == "p" and x[1] == "$ans":
                    return ["p", "$ans"] + sorted((t(y, vs) for y in x[2:]), key=str)
                return [t(y, vs) for y in x]
            return nm(x)
        # literals sorted without variable names first, then variables numbered in that order, best of the ties
        base = sorted(c, key=lambda l: json.dumps(walk(strip(l), nm)))
        vs = {}
        return json.dumps([t(l, vs) for l in base])

    def strip(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "v":
                return "V"
            return [strip(y) for y in x]
        return x
    names = set()
    walk(cls, lambda x: names.add(x) if isinstance(x, str) and INV.match(x) else None)
    col = {n: 0 for n in names}
    for _ in range(4):
        new = {}
        for n in names:
            new[n] = json.dumps(sorted(key(c, col, n) for c in cls if n in json.dumps(c)))
        vals = sorted(set(new.values()))
        col = {n: hash_of(new[n]) for n in names}
    return sorted(set(key(c, col) for c in cls)), len(names), cls


def hash_of(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:8]


def has_question_nested(doc):
    return any(isinstance(s, dict) and "@question" in s for s in doc)


def run(case, env):
    lab = ["kind:" + case["kind"]]
    doc = case["doc"]
    text = json.dumps(doc)
    try:
        if plain(doc) is None:
            return skip("context", lab)
    except IndexError:
        return skip("object without arcs", lab)
    p = gkc.write("objects.js", text)
    q = gkc.write("plain.js", json.dumps(plain(doc)))
    d = "\ndocument:\n%s\nplain:\n%s\n" % (text[:3000], json.dumps(plain(doc))[:3000])
    if case["kind"] == "clauses":
        a = gkc.run(env["gkc"], [p, "-clausify", "-mbsize", 60], timeout=40)
        b = gkc.run(env["gkc"], [q, "-clausify", "-mbsize", 60], timeout=40)
        if a.crashed or a.timeout:
            return viol("crash" + d + a.out, lab)
        if b.crashed or b.error or b.timeout:
            return viol("plain formulas are not read" + d + b.out, lab)
        if a.error:
            return viol("the document is not read" + d + a.out, lab)
        if "$df" in a.out or "$df" in b.out:
            return skip("definitions", lab)
        try:
            x, nx, cx = canon(a.out)
            y, ny, cy = canon(b.out)
        except Exception as ex:
            return viol("clauses cannot be read: %s" % ex + d + a.out + "\n" + b.out, lab)
        if x != y:
            # ties between literals: compare by variants
            if not match(cx, cy):
                return viol("other clauses than the documented reading" + d + a.out + "\nplain:\n" + b.out, lab)
        for s in ("@list", "@graph", "@type", "@logic", "@question", "@context", "@value", "null", "_:", "?:", "#:"):
            if s in text:
                lab.append("has:" + s)
        return ok(a.out.count("arc(") >= 2, text, lab)
    st = ["-mbsize", 60, "-print", 10, "-parallel", 0, "-seconds", 4, "-strategytext", '{"strategy":["negative_pref"],"query_preference":0}', "-json"]
    a = gkc.run(env["gkc"], [p] + st, timeout=40)
    b = gkc.run(env["gkc"], [q] + st, timeout=40)
    if a.crashed or b.crashed or a.timeout:
        return viol("crash" + d + a.out, lab)
    if a.time_limit or b.time_limit:
        return skip("long", lab)
    if a.verdict() != b.verdict():
        return viol("verdict %s, plain %s" % (a.verdict(), b.verdict()) + d + a.out[:1500] + b.out[:1500], lab)
    return ok(a.proof, text, lab + ["verdict:" + a.verdict()])


def match(cx, cy):
    """Clause lists equal up to variables, with invented names taken as one name (used only when literals tie)."""
    def blur(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == "p" and x[1] == "$ans":
                return ["p", "$ans"]
            return [blur(y) for y in x]
        return "#" if isinstance(x, str) and INV.match(x) else x
    cx, cy = [blur(c) for c in cx], [blur(c) for c in cy]
    for p, q in ((cx, cy), (cy, cx)):
        for c in p:
            if not any(len(c) == len(e) and proofread.variant(c, e) for e in q):
                return False
    return True


def shrinks(case):
    doc = case["doc"]
    for i in range(len(doc)):
        if len(doc) > 1:
            yield dict(case, doc=doc[:i] + doc[i + 1:])
    for i, s in enumerate(doc):
        for t in smaller(s):
            yield dict(case, doc=doc[:i] + [t] + doc[i + 1:])


def smaller(x):
    if isinstance(x, dict):
        for k in list(x):
            rest = {a: b for a, b in x.items() if a != k}
            if any(a[0] != "@" or a in ("@logic", "@question", "@graph", "@list", "@value", "@type") for a in rest):
                yield rest
        for k, v in x.items():
            for w in smaller(v):
                yield {**x, k: w}
            if isinstance(v, (dict, list)) and k[0] != "@":
                yield {**x, k: "v"}
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                if isinstance(v, dict) or v and isinstance(v[0], (list, dict, str)):
                    for w in smaller(v):
                        yield x[:i] + [w] + x[i + 1:]


def describe(case):
    return json.dumps(case["doc"])[:4000]
