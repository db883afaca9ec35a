"""First order formulas: representation, printing in GKC's three input syntaxes,
finite models and their evaluation, reference clausal reading.

Terms      ["v", name]            variable
           ["f", name, args...]   constant (no args) or function
           ["i", int] ["r", text] ["s", text]   number, real (decimal text), distinct symbol
Formulas   ["p", name, args...]   atom
           ["=", s, t]  ["!=", s, t]
           ["~", f]  ["&", f, g...]  ["|", f, g...]  ["=>", f, g]  ["<=", f, g]
           ["<=>", f, g]  ["<~>", f, g]  ["~&", f, g]  ["~|", f, g]
           ["!", [names], f]  ["?", [names], f]
Lists (not tuples) so that a case survives a JSON round trip unchanged.
"""
import itertools

BIN = ("=>", "<=", "<=>", "<~>", "~&", "~|")


def is_term(t):
    return t[0] in ("v", "f", "i", "r", "s")


def subterms(t):
    yield t
    if t[0] == "f":
        for a in t[2:]:
            yield from subterms(a)


def atoms(f):
    k = f[0]
    if k in ("p", "=", "!="):
        yield f
    elif k in ("!", "?"):
        yield from atoms(f[2])
    else:
        for g in f[1:]:
            yield from atoms(g)


def term_vars(t, out):
    if t[0] == "v":
        if t[1] not in out:
            out.append(t[1])
    elif t[0] == "f":
        for a in t[2:]:
            term_vars(a, out)
    return out


def free_vars(f, out=None, bound=()):
    if out is None:
        out = []
    k = f[0]
    if k == "p":
        args = f[2:]
    elif k in ("=", "!="):
        args = f[1:]
    elif k in ("!", "?"):
        return free_vars(f[2], out, tuple(bound) + tuple(f[1]))
    else:
        for g in f[1:]:
            free_vars(g, out, bound)
        return out
    for a in args:
        for v in term_vars(a, []):
            if v not in bound and v not in out:
                out.append(v)
    return out


def neg(f):
    if f[0] == "~":
        return f[1]
    return ["~", f]


def subst_term(t, s):
    if t[0] == "v":
        return s.get(t[1], t)
    if t[0] == "f" and len(t) > 2:
        return ["f", t[1]] + [subst_term(a, s) for a in t[2:]]
    return t


def subst_lit(l, s):
    k = l[0]
    if k == "p":
        return ["p", l[1]] + [subst_term(a, s) for a in l[2:]]
    if k in ("=", "!="):
        return [k] + [subst_term(a, s) for a in l[1:]]
    if k == "~":
        return ["~", subst_lit(l[1], s)]
    raise ValueError(l)


def size(f):
    if isinstance(f, list):
        return 1 + sum(size(x) for x in f)
    return 1


# ---------------------------------------------------------------- printing

def tstr(t):
    k = t[0]
    if k == "v":
        return t[1]
    if k == "i":
        return str(t[1])
    if k == "r":
        return t[1]
    if k == "s":
        return '"%s"' % t[1]
    if len(t) == 2:
        return t[1]
    if t[1] == "$list" and len(t) == 4:
        xs = list_items(t)
        if xs is not None:
            return "[%s]" % ",".join(tstr(a) for a in xs)
    return "%s(%s)" % (t[1], ",".join(tstr(a) for a in t[2:]))


def list_items(t):
    xs = []
    while t[0] == "f" and t[1] == "$list" and len(t) == 4:
        xs.append(t[2])
        t = t[3]
    return xs if t == ["f", "$nil"] else None


def fstr(f, top=True):
    """Fully parenthesised; the same text is accepted as TPTP fof and as simple syntax."""
    k = f[0]
    if k == "p":
        return f[1] if len(f) == 2 else "%s(%s)" % (f[1], ",".join(tstr(a) for a in f[2:]))
    if k in ("=", "!="):
        s = "%s %s %s" % (tstr(f[1]), k, tstr(f[2]))
        return s if top else "(" + s + ")"
    if k == "~":
        return "~" + fstr(f[1], False) if f[1][0] in ("p",) else "~(" + fstr(f[1]) + ")"
    if k in ("&", "|"):
        if len(f) == 2:
            return fstr(f[1], top)
        s = (" %s " % k).join(fstr(g, False) for g in f[1:])
        return s if top else "(" + s + ")"
    if k in BIN:
        s = "%s %s %s" % (fstr(f[1], False), k, fstr(f[2], False))
        return s if top else "(" + s + ")"
    if k in ("!", "?"):
        s = "%s [%s] : (%s)" % (k, ",".join(f[1]), fstr(f[2]))
        return s if top else "(" + s + ")"
    raise ValueError(f)


def litstr(l, negsym="-"):
    if l[0] == "~":
        a = l[1]
        if a[0] == "=":
            return "%s != %s" % (tstr(a[1]), tstr(a[2]))
        if a[0] == "!=":
            return "%s = %s" % (tstr(a[1]), tstr(a[2]))
        return negsym + fstr(a)
    return fstr(l)


def clause_str(c, negsym="-"):
    """c: list of literals"""
    return " | ".join(litstr(l, negsym) for l in c) if c else "$false"


def jterm(t):
    k = t[0]
    if k == "v":
        return "?:" + t[1]
    if k == "i":
        return t[1]
    if k == "r":
        return float(t[1])
    if k == "s":
        return "#:" + t[1]
    if len(t) == 2:
        return "#:" + t[1][1:-1] if t[1][0] == '"' else t[1]      # '"text"' is a string used as a plain constant
    return [t[1]] + [jterm(a) for a in t[2:]]


JNAME = {"=>": "=>", "<=": "<=", "<=>": "<=>", "<~>": "<~>", "&": "&", "|": "|", "~&": "~&", "~|": "~|"}


def jform(f):
    k = f[0]
    if k == "p":
        return [f[1]] + [jterm(a) for a in f[2:]]
    if k in ("=", "!="):
        return [jterm(f[1]), k, jterm(f[2])]
    if k == "~":
        return ["not", jform(f[1])]
    if k in ("&", "|"):
        if len(f) == 2:
            return jform(f[1])
        out = []
        for g in f[1:]:
            if out:
                out.append(k)
            out.append(jform(g))
        return out
    if k in BIN:
        return [jform(f[1]), k, jform(f[2])]
    if k in ("!", "?"):
        return ["forall" if k == "!" else "exists", ["?:" + v for v in f[1]], jform(f[2])]
    raise ValueError(f)


# ---------------------------------------------------------------- models

class Model:
    """A finite interpretation: funs[name][args tuple] -> element, preds[name] -> set of tuples."""

    def __init__(self, n, funs, preds):
        self.n, self.funs, self.preds = n, funs, preds

    def term(self, t, env):
        if t[0] == "v":
            return env[t[1]]
        if t[0] == "f":
            return self.funs[t[1] + "/%d" % (len(t) - 2)][tuple(self.term(a, env) for a in t[2:])]
        raise ValueError(t)

    def ev(self, f, env):
        k = f[0]
        if k == "p":
            return tuple(self.term(a, env) for a in f[2:]) in self.preds[f[1] + "/%d" % (len(f) - 2)]
        if k == "=":
            return self.term(f[1], env) == self.term(f[2], env)
        if k == "!=":
            return self.term(f[1], env) != self.term(f[2], env)
        if k == "~":
            return not self.ev(f[1], env)
        if k == "&":
            return all(self.ev(g, env) for g in f[1:])
        if k == "|":
            return any(self.ev(g, env) for g in f[1:])
        if k == "=>":
            return (not self.ev(f[1], env)) or self.ev(f[2], env)
        if k == "<=":
            return self.ev(f[1], env) or not self.ev(f[2], env)
        if k == "<=>":
            return self.ev(f[1], env) == self.ev(f[2], env)
        if k == "<~>":
            return self.ev(f[1], env) != self.ev(f[2], env)
        if k == "~&":
            return not (self.ev(f[1], env) and self.ev(f[2], env))
        if k == "~|":
            return not (self.ev(f[1], env) or self.ev(f[2], env))
        if k in ("!", "?"):
            vs = f[1]
            g = f[2]
            for vals in itertools.product(range(self.n), repeat=len(vs)):
                e = dict(env)
                e.update(zip(vs, vals))
                r = self.ev(g, e)
                if k == "!" and not r:
                    return False
                if k == "?" and r:
                    return True
            return k == "!"
        raise ValueError(f)

    def holds(self, f):
        """Free variables are universally quantified."""
        fv = free_vars(f)
        return self.ev(["!", fv, f] if fv else f, {})

    def clause_holds(self, c):
        return self.holds(["|"] + c) if c else False


class Sig:
    def __init__(self, consts, funs, preds):
        """consts: names; funs: [(name, arity>=1)]; preds: [(name, arity)]"""
        self.consts, self.funs, self.preds = list(consts), list(funs), list(preds)


def random_model(rng, sig, n, density=None):
    funs, preds = {}, {}
    for c in sig.consts:
        funs[c + "/0"] = {(): rng.randrange(n)}
    for f, a in sig.funs:
        style = rng.random()
        tab = {}
        const = rng.randrange(n)
        for args in itertools.product(range(n), repeat=a):
            if style < 0.12:
                tab[args] = const
            elif style < 0.3:
                tab[args] = args[0]
            else:
                tab[args] = rng.randrange(n)
        funs[f + "/%d" % a] = tab
    for p, a in sig.preds:
        d = density if density is not None else rng.choice([0.2, 0.5, 0.5, 0.8])
        preds[p + "/%d" % a] = {args for args in itertools.product(range(n), repeat=a) if rng.random() < d}
    return Model(n, funs, preds)


# ---------------------------------------------------------------- generators

def gen_term(rng, sig, vars, depth, pvar=0.5):
    if depth > 0 and sig.funs and rng.random() < 0.45:
        f, a = rng.choice(sig.funs)
        return ["f", f] + [gen_term(rng, sig, vars, depth - 1, pvar) for _ in range(a)]
    if vars and (not sig.consts or rng.random() < pvar):
        return ["v", rng.choice(vars)]
    return ["f", rng.choice(sig.consts)]


def gen_atom(rng, sig, vars, depth, eq=0.0, pvar=0.5):
    if rng.random() < eq or not sig.preds:
        return ["=", gen_term(rng, sig, vars, depth, pvar), gen_term(rng, sig, vars, depth, pvar)]
    p, a = rng.choice(sig.preds)
    return ["p", p] + [gen_term(rng, sig, vars, depth, pvar) for _ in range(a)]


def gen_formula(rng, sig, vars, depth, tdepth, eq=0.0, newvars=None, conns=None):
    """vars: variables in scope; newvars: names quantifiers may bind (re-binding allowed)."""
    newvars = newvars if newvars is not None else ["X", "Y", "Z"]
    if depth <= 0 or rng.random() < 0.12:
        a = gen_atom(rng, sig, vars, tdepth, eq)
        if a[0] == "=" and rng.random() < 0.3:
            a = ["!="] + a[1:]
        return ["~", a] if rng.random() < 0.3 else a
    r = rng.random()
    if r < 0.35:
        vs = rng.sample(newvars, rng.choice([1, 1, 2]) if len(newvars) > 1 else 1)
        return [rng.choice("!?"), vs, gen_formula(rng, sig, sorted(set(vars) | set(vs)), depth - 1, tdepth, eq, newvars, conns)]
    if r < 0.45:
        return ["~", gen_formula(rng, sig, vars, depth - 1, tdepth, eq, newvars, conns)]
    if r < 0.72:
        n = rng.choice([2, 2, 2, 3])
        return [rng.choice("&|")] + [gen_formula(rng, sig, vars, depth - 1, tdepth, eq, newvars, conns) for _ in range(n)]
    return [rng.choice(conns or BIN)] + [gen_formula(rng, sig, vars, depth - 1, tdepth, eq, newvars, conns) for _ in range(2)]


def gen_clause(rng, sig, nvars, maxlits, tdepth, eq=0.0, pvar=0.5):
    vars = ["X", "Y", "Z", "U", "V", "W"][:nvars]
    out = []
    for _ in range(rng.randint(1, maxlits)):
        a = gen_atom(rng, sig, vars, tdepth, eq, pvar)
        out.append(["~", a] if rng.random() < 0.5 else a)
    return out


def gen_sig(rng, maxc=3, maxf=2, maxp=3, maxar=2, minc=1, minp=1):
    consts = ["a", "b", "c", "d", "e"][:rng.randint(minc, maxc)]
    funs = [(n, rng.randint(1, maxar)) for n in ["f", "g", "h"][:rng.randint(0, maxf)]]
    preds = [(n, rng.randint(0, maxar)) for n in ["p", "q", "r", "s", "t"][:rng.randint(minp, maxp)]]
    return Sig(consts, funs, preds)


# ---------------------------------------------------------------- shrinking of formulas

def shrink_formula(f):
    """Smaller formulas over the same signature (may change free variables)."""
    k = f[0]
    if k in ("p", "=", "!="):
        start = 2 if k == "p" else 1
        for i in range(start, len(f)):
            for t in shrink_term(f[i]):
                yield f[:i] + [t] + f[i + 1:]
        return
    if k in ("!", "?"):
        for g in shrink_formula(f[2]):
            yield [k, f[1], g]
        if len(f[1]) > 1:
            for v in f[1]:
                if v not in free_vars(f[2]):
                    yield [k, [w for w in f[1] if w != v], f[2]]
        elif f[1][0] not in free_vars(f[2]):
            yield f[2]
        return
    for g in f[1:]:
        yield g
    if k in ("&", "|") and len(f) > 3:
        for i in range(1, len(f)):
            yield f[:i] + f[i + 1:]
    for i in range(1, len(f)):
        for g in shrink_formula(f[i]):
            yield f[:i] + [g] + f[i + 1:]


def shrink_term(t):
    if t[0] == "f" and len(t) > 2:
        for a in t[2:]:
            yield a
        for i in range(2, len(t)):
            for s in shrink_term(t[i]):
                yield t[:i] + [s] + t[i + 1:]


def shrink_list(xs):
    n = len(xs)
    step = n // 2
    while step >= 1:
        for i in range(0, n, step):
            c = xs[:i] + xs[i + step:]
            if c != xs:
                yield c
        step //= 2
