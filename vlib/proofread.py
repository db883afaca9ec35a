"""Reading gkc's printed clauses, clause lists and proofs (text, JSON, TPTP) back into data.

Clause: list of literals, literal: atom or ["~", atom], atoms and terms as in fol.py.
Proof step: dict(id, rule, srcs (ints in order), srcraw, clause or None for unreadable, name).
"""
import json, re
from . import fol


class Bad(Exception):
    """The text is not of the form gkc documents."""


TOK = re.compile(r"""\s*(?:
 (?P<q>'(?:[^'\\]|\\[nt'"]|\\(?=[^nt'"]))*') |
 (?P<dq>"(?:[^"\\]|\\[nt'"]|\\(?=[^nt'"]))*") |
 (?P<op>!=|=>|<=>|[(),|&~\[\]:!?]) |
 (?P<eq>-?=) |
 (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![\w$])) |
 (?P<neg>-) |
 (?P<w>[\w$:@#.?*+/<>\#]+)
)""", re.X)


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Bad("cannot read %r at %d" % (s[:200], i))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


def unescape(s):
    """The escapes gkc prints (and reads) in quotes."""
    return re.sub(r"\\([nt'\"])", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


class TextClause:
    """Text format: lit | lit, negation by '-', equality as =(a,b).  TPTP: ~, infix = and !=."""

    def __init__(self, s, isvar=None):
        self.t = tokens(s)
        self.i = 0
        self.isvar = isvar or (lambda w: w[0].isupper())

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k, w = self.peek()
        if k is None or (v is not None and w != v):
            raise Bad("expected %r, found %r" % (v, w))
        self.i += 1
        return k, w

    def term(self):
        k, w = self.take()
        if k == "num":
            if re.fullmatch(r"-?\d+", w):
                return ["i", int(w)]
            return ["r", w]
        if k == "dq":
            return ["s", unescape(w[1:-1])]
        if k == "q":
            name = unescape(w[1:-1])
        elif k in ("w", "eq"):
            name = w
        else:
            raise Bad("unexpected %r" % (w,))
        if self.peek()[1] == "(":
            return ["f", name] + self.args()
        if k == "w" and self.isvar(name):
            return ["v", name]
        return ["f", name]

    def args(self):
        self.take("(")
        out = []
        if self.peek()[1] == ")":
            self.take()
            return out
        while True:
            out.append(self.term())
            k, w = self.take()
            if w == ")":
                return out
            if w != ",":
                raise Bad("expected , or ), found %r" % (w,))

    def literal(self):
        neg = False
        while self.peek()[1] in ("-", "~"):
            self.take()
            neg = not neg
        k, w = self.peek()
        if w == "(":
            self.take()
            l = self.literal()
            self.take(")")
            return ["~", l] if neg else l
        if k == "eq":
            self.take()
            a = self.args()
            if len(a) != 2:
                raise Bad("equality with %d arguments" % len(a))
            l = ["="] + a
            if w == "-=":
                neg = not neg
        else:
            t = self.term()
            k2, w2 = self.peek()
            if w2 in ("=", "!="):
                self.take()
                l = ["=", t, self.term()]
                if w2 == "!=":
                    neg = not neg
            else:
                if t[0] != "f":
                    raise Bad("not an atom: %r" % (t,))
                l = ["p"] + t[1:]
                if l[1] == "$pr" and len(l) == 3:      # propositional atom
                    l = ["p", l[2][1]] if l[2][0] in ("f", "v") else l
                elif l[1] in ("false", "$false", "true", "$true") and len(l) == 2:
                    l = ["p", "$" + l[1].lstrip("$")]
        return ["~", l] if neg else l

    def clause(self):
        out = [self.literal()]
        while self.peek()[1] == "|":
            self.take()
            out.append(self.literal())
        return [l for l in out if l != ["p", "$false"]]


def text_clause(s):
    p = TextClause(s)
    c = p.clause()
    if p.i != len(p.t):
        raise Bad("text after clause: %r" % (s,))
    return c


def tptp_clause(s):
    p = TextClause(s)
    paren = False
    if p.peek()[1] == "(":
        p.take()
        paren = True
    c = p.clause()
    if paren:
        p.take(")")
    if p.i != len(p.t):
        raise Bad("text after clause: %r" % (s,))
    return c


def json_term(x):
    if isinstance(x, bool) or x is None:
        return ["f", json.dumps(x)]
    if isinstance(x, int):
        return ["i", x]
    if isinstance(x, float):
        return ["r", repr(x)]
    if isinstance(x, str):
        if x.startswith("?:"):
            return ["v", x[2:]]
        if x.startswith("#:"):
            return ["s", x[2:]]
        return ["f", x]
    if isinstance(x, list) and x and isinstance(x[0], str):
        return ["f", x[0]] + [json_term(a) for a in x[1:]]
    raise Bad("not a term: %r" % (x,))


def json_literal(x):
    if isinstance(x, str):
        x = [x]
    if not isinstance(x, list) or not x or not isinstance(x[0], str):
        raise Bad("not a literal: %r" % (x,))
    name = x[0]
    neg = False
    if name.startswith("-") and len(name) > 1:
        neg, name = True, name[1:]
    if name == "=":
        if len(x) != 3:
            raise Bad("equality with %d arguments" % (len(x) - 1))
        l = ["=", json_term(x[1]), json_term(x[2])]
    elif name == "$pr" and len(x) == 2 and isinstance(x[1], str):
        l = ["p", x[1]]
    else:
        l = ["p", name] + [json_term(a) for a in x[1:]]
    return ["~", l] if neg else l


def json_clause(x):
    if x is False:
        return []
    if not isinstance(x, list):
        raise Bad("not a clause: %r" % (x,))
    return [json_literal(l) for l in x]


def mkstep(id, rule, srcs, clause):
    return {"id": id, "rule": rule, "srcs": srcs, "clause": clause}


def text_proofs(out):
    """[(answer text or None, [step])]"""
    from .gkc import read_text_proofs
    res = []
    for ans, steps in read_text_proofs(out):
        ss = []
        for s in steps:
            if s.id < 0:
                raise Bad("unreadable proof line %r" % s.raw)
            c = text_clause(s.text[:-1] if s.text.endswith(".") else s.text)
            if s.rule == "in":
                ss.append(dict(mkstep(s.id, "in", [], c), name=",".join(s.srcs)))
            else:
                ss.append(mkstep(s.id, s.rule, s.parents(), c))
        res.append((ans, ss))
    return res


def json_values(out):
    """The JSON values of the output: one, or, where fewer answers than max_answers exist (Examples/README.md
    says so for the text format), the result object of each run and then that no (further) proof was found."""
    dec, i, res = json.JSONDecoder(), 0, []
    out = out.strip()
    while i < len(out):
        if out.startswith("No clauses found.", i):    # a run of a run list whose sine filter left no clauses
            i += len("No clauses found.")
        else:
            v, i = dec.raw_decode(out, i)
            res.append(v)
        while i < len(out) and out[i].isspace():
            i += 1
    return res


def json_proofs(out):
    res = []
    for a in [a for d in json_values(out) for a in d.get("answers", [])]:
        ss = []
        for st in a["proof"]:
            r = st[1]
            c = json_clause(st[2])
            if r[0] == "in":
                ss.append(dict(mkstep(st[0], "in", [], c), name=",".join(str(x) for x in r[1:])))
            else:
                srcs = [x if isinstance(x, int) else x[0] for x in r[1:] if isinstance(x, (int, list))]
                ss.append(mkstep(st[0], r[0], srcs, c))
        res.append((a.get("answer"), ss))
    return res


CNF = re.compile(r"^cnf\('(\d+)', plain, \((.*)\),$")
INF = re.compile(r"^  inference\((\w+),\[([\w,]*)\],\[(.*)\]\)\)\.$")


def tptp_proofs(out):
    res, cur, ans = [], None, None
    pend = None
    for line in out.splitlines():
        if line.startswith("answer:") or line.startswith("% answer:"):
            ans = line.split(":", 1)[1].strip()
        if "SZS output start" in line:
            cur = []
            res.append((ans, cur))
            ans = None
            continue
        if "SZS output end" in line:
            cur = None
            continue
        if cur is None:
            continue
        m = CNF.match(line)
        if m:
            pend = (int(m.group(1)), m.group(2))
            continue
        if pend:
            m = INF.match(line)
            rule, srcs = None, []
            name = None
            if m:
                rule = m.group(1)
                for x in m.group(3).split(","):
                    x = x.strip().strip("'")
                    if re.fullmatch(r"\d+", x) and rule != "cnf_transformation":
                        srcs.append(int(x))
                    else:
                        name = x
            elif line.strip() in ("input).", "input). "):
                rule, name = "input", None
            elif line.startswith("  file(unknown,") and line.rstrip().endswith("))."):
                rule, name = "input", line.strip()[len("file(unknown,"):-3].strip("'")
            else:
                raise Bad("unreadable inference line %r" % line)
            c = tptp_clause(pend[1])
            cur.append(dict(mkstep(pend[0], "in" if rule in ("cnf_transformation", "input") else rule, srcs, c), name=name))
            pend = None
    return res


def proofs(fmt, out):
    return {"": text_proofs, "-json": json_proofs, "-tptp": tptp_proofs}[fmt](out)


# ---------------------------------------------------------------- variants

def norm_lit(l):
    s = True
    while l[0] == "~":
        s, l = not s, l[1]
    if l[0] == "!=":
        s, l = not s, ["="] + l[1:]
    return s, l


def variant(c, d):
    """Same clause up to renaming of variables, order of literals and direction of equations."""
    if len(c) != len(d):
        return False
    c = [norm_lit(l) for l in c]
    d = [norm_lit(l) for l in d]

    def mt(a, b, m, rm):
        if a[0] == "v":
            if b[0] != "v":
                return None
            if a[1] in m or b[1] in rm:
                return (m, rm) if m.get(a[1]) == b[1] and rm.get(b[1]) == a[1] else None
            m, rm = dict(m), dict(rm)
            m[a[1]] = b[1]
            rm[b[1]] = a[1]
            return m, rm
        if a[0] != b[0] or len(a) != len(b):
            return None
        if a[0] == "r":
            return (m, rm) if abs(float(a[1]) - float(b[1])) < 1e-6 else None
        if a[0] != "f":
            return (m, rm) if a[1] == b[1] else None
        if a[1] != b[1]:
            return None
        return margs(a[2:], b[2:], m, rm)

    def margs(x, y, m, rm):
        for p, q in zip(x, y):
            r = mt(p, q, m, rm)
            if r is None:
                return None
            m, rm = r
        return m, rm

    def ml(a, b, m, rm):
        if a[0] != b[0] or a[1][0] != b[1][0]:
            return
        a, b = a[1], b[1]
        if a[0] == "=":
            r = margs(a[1:], b[1:], m, rm)
            if r:
                yield r
            r = margs(a[1:], [b[2], b[1]], m, rm)
            if r:
                yield r
        elif a[1] == b[1] and len(a) == len(b):
            r = margs(a[2:], b[2:], m, rm)
            if r:
                yield r

    def go(i, used, m, rm):
        if i == len(c):
            return True
        for j in range(len(d)):
            if j not in used:
                for m2, rm2 in ml(c[i], d[j], m, rm):
                    if go(i + 1, used | {j}, m2, rm2):
                        return True
        return False
    return go(0, frozenset(), {}, {})


def symbols(c, out=None):
    out = set() if out is None else out

    def t(x):
        if x[0] == "f":
            out.add(x[1])
            for a in x[2:]:
                t(a)
    for l in c:
        _, a = norm_lit(l)
        if a[0] == "p":
            out.add(a[1])
        for x in a[2 if a[0] == "p" else 1:]:
            t(x)
    return out
