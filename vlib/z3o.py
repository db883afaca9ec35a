"""Entailment between first order statements by z3 (a separate process per worker).

entails(premises, clause) -> True (proved), False (a countermodel exists), None (not decided).
Statements are fol.py formulas or clauses; symbols are uninterpreted, numbers and distinct
symbols are different objects.  An undecided question is retried over the domains of size 2
and 3, where everything is finite."""
import atexit, itertools, os, select, subprocess, time
from . import fol

_p = {}


class Z3Gone(Exception):
    pass


def _proc():
    pid = os.getpid()
    p = _p.get(pid)
    if p is None or p.poll() is not None:
        p = subprocess.Popen(["z3", "-in", "-smt2", "-memory:2000"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        _p[pid] = p
        atexit.register(lambda: p.poll() is None and p.kill())
    return p


def ask(script, timeout=20):
    """Sends the script, returns the answer line of its only check-sat."""
    p = _proc()
    try:
        p.stdin.write((script + "\n(echo \"done\")\n").encode())
        p.stdin.flush()
    except BrokenPipeError:
        _p.pop(os.getpid(), None)
        return "unknown"
    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        r, _, _ = select.select([p.stdout], [], [], max(left, 0))
        if not r:
            p.kill()
            p.wait()
            _p.pop(os.getpid(), None)
            return "unknown"
        d = os.read(p.stdout.fileno(), 65536)
        if not d:
            _p.pop(os.getpid(), None)
            return "unknown"
        buf += d
        if buf.endswith(b"done\n"):
            break
    ls = [x for x in buf.decode().splitlines() if x != "done"]
    for l in ls:
        if l.startswith("(error"):
            raise RuntimeError("z3: %s\n%s" % (l, script[:3000]))
    return ls[-1] if ls else "unknown"


class Enc:
    def __init__(self):
        self.names, self.decls, self.consts, self.nv = {}, [], [], 0

    def sym(self, kind, name, ar):
        k = (kind, name, ar)
        if k not in self.names:
            n = "%s%d" % (kind, len(self.names))
            self.names[k] = n
            self.decls.append((kind, n, ar))
            if kind == "n":
                self.consts.append(n)
        return self.names[k]

    def term(self, t, env):
        k = t[0]
        if k == "v":
            return env[t[1]]
        if k in ("i", "r", "s"):
            return self.sym("n", (k, str(t[1])), 0)
        f = self.sym("f", t[1], len(t) - 2)
        if len(t) == 2:
            return f
        return "(%s %s)" % (f, " ".join(self.term(a, env) for a in t[2:]))

    def form(self, f, env, dom=None):
        k = f[0]
        if k == "p":
            if f[1] in ("$true", "$false") and len(f) == 2:
                return f[1][1:]
            p = self.sym("p", f[1], len(f) - 2)
            if len(f) == 2:
                return p
            return "(%s %s)" % (p, " ".join(self.term(a, env) for a in f[2:]))
        if k == "=":
            return "(= %s %s)" % (self.term(f[1], env), self.term(f[2], env))
        if k == "!=":
            return "(not (= %s %s))" % (self.term(f[1], env), self.term(f[2], env))
        if k == "~":
            return "(not %s)" % self.form(f[1], env, dom)
        if k in ("&", "|"):
            return "(%s %s)" % ("and" if k == "&" else "or", " ".join(self.form(g, env, dom) for g in f[1:]))
        if k in ("!", "?"):
            if dom is None:
                e = dict(env)
                vs = []
                for v in f[1]:
                    self.nv += 1
                    n = "v%d" % self.nv
                    e[v] = n
                    vs.append(n)
                return "(%s (%s) %s)" % ("forall" if k == "!" else "exists", " ".join("(%s U)" % v for v in vs), self.form(f[2], e, dom))
            parts = []
            for vals in itertools.product(dom, repeat=len(f[1])):
                e = dict(env)
                e.update(zip(f[1], vals))
                parts.append(self.form(f[2], e, dom))
            return "(%s %s)" % ("and" if k == "!" else "or", " ".join(parts))
        a, b = (self.form(g, env, dom) for g in f[1:3])
        if k == "=>":
            return "(=> %s %s)" % (a, b)
        if k == "<=":
            return "(=> %s %s)" % (b, a)
        if k == "<=>":
            return "(= %s %s)" % (a, b)
        if k == "<~>":
            return "(not (= %s %s))" % (a, b)
        if k == "~&":
            return "(not (and %s %s))" % (a, b)
        if k == "~|":
            return "(not (or %s %s))" % (a, b)
        raise ValueError(f)


def expanded(f, n):
    """The size of the formula with its quantifiers expanded over n elements."""
    k = f[0]
    if k in ("p", "=", "!="):
        return fol.size(f)
    if k in ("!", "?"):
        return 1 + (n ** len(f[1])) * expanded(f[2], n)
    return 1 + sum(expanded(g, n) for g in f[1:])


def closed(f):
    fv = fol.free_vars(f)
    return ["!", fv, f] if fv else f


def clause_formula(c):
    if not c:
        return ["p", "$false"]
    return closed(["|"] + c if len(c) > 1 else c[0])


def consistent(forms, ms=300, sizes=(2, 3), limit=20000):
    """Is the set of closed formulas satisfiable?  True / False / None."""
    e = Enc()
    body = ["(assert %s)" % e.form(f, {}) for f in forms]
    head = ["(reset)", "(set-option :timeout %d)" % ms, "(declare-sort U 0)"]
    for kind, n, ar in e.decls:
        head.append("(declare-fun %s (%s) %s)" % (n, " ".join(["U"] * ar), "Bool" if kind == "p" else "U"))
    if len(e.consts) > 1:
        body.append("(assert (distinct %s))" % " ".join(e.consts))
    r = ask("\n".join(head + body + ["(check-sat)"]))
    if r == "unsat":
        return False
    if r == "sat":
        return True
    for n in sizes:
        e = Enc()
        dom = ["d%d" % i for i in range(n)]
        if sum(expanded(f, n) for f in forms) > limit:
            return None
        body = ["(assert %s)" % e.form(f, {}, dom) for f in forms]
        if len(e.consts) > n:
            return None
        # terms over an uninterpreted sort whose elements are d0..dn-1: every function value is one of them
        head = ["(reset)", "(set-option :timeout %d)" % (ms * 3)]
        head.append("(declare-datatypes ((U 0)) ((%s)))" % " ".join("(%s)" % d for d in dom))
        for kind, nm, ar in e.decls:
            head.append("(declare-fun %s (%s) %s)" % (nm, " ".join(["U"] * ar), "Bool" if kind == "p" else "U"))
        if len(e.consts) > 1:
            body.append("(assert (distinct %s))" % " ".join(e.consts))
        r = ask("\n".join(head + body + ["(check-sat)"]))
        if r == "sat":
            return True
    return None


def entails(premises, concl, ms=300):
    """premises: closed formulas; concl: closed formula."""
    r = consistent(list(premises) + [["~", concl]], ms)
    return None if r is None else not r
