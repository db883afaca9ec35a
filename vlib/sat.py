"""Reference decision procedures: propositional satisfiability, ground equality (congruence
closure), and their combination for ground clauses with equality; Herbrand grounding for
function-free clauses.  Small and simple: they are the oracle."""
import itertools
from . import fol


def solve(clauses, nvars, assume=()):
    """clauses: lists of non-zero ints.  Returns a dict var->bool or None.  Plain DPLL with
    unit propagation by counting, iterative over a trail."""
    assign = {}
    occ = {}
    cl = []
    for c in clauses:
        s = set(c)
        if any(-l in s for l in s):
            continue
        c = list(s)
        if not c:
            return None
        for l in c:
            occ.setdefault(l, []).append(len(cl))
        cl.append(c)

    def value(l):
        v = assign.get(abs(l))
        if v is None:
            return None
        return v if l > 0 else not v

    def propagate(queue, trail):
        while queue:
            l = queue.pop()
            v = value(l)
            if v is True:
                continue
            if v is False:
                return False
            assign[abs(l)] = l > 0
            trail.append(abs(l))
            for ci in occ.get(-l, ()):
                unit, n, sat = None, 0, False
                for x in cl[ci]:
                    vx = value(x)
                    if vx is True:
                        sat = True
                        break
                    if vx is None:
                        n += 1
                        unit = x
                        if n > 1:
                            break
                if sat or n > 1:
                    continue
                if n == 0:
                    return False
                queue.append(unit)
        return True

    trail0 = []
    if not propagate([c[0] for c in cl if len(c) == 1] + list(assume), trail0):
        return None

    def pick():
        best, bl = None, None
        for c in cl:
            n, sat, lit = 0, False, None
            for x in c:
                vx = value(x)
                if vx is True:
                    sat = True
                    break
                if vx is None:
                    n += 1
                    lit = x
            if not sat and n and (best is None or n < best):
                best, bl = n, lit
                if n == 2:
                    break
        return bl

    stack = []
    while True:
        l = pick()
        if l is None:
            return dict(assign)
        stack.append((l, []))
        good = propagate([l], stack[-1][1])
        while not good:
            if not stack:
                return None
            l, tr = stack.pop()
            for v in tr:
                del assign[v]
            if l is None:
                continue
            # the other branch, marked as final
            stack.append((None, []))
            good = propagate([-l], stack[-1][1])


def key(t):
    if t[0] == "v":
        raise ValueError("not ground")
    return tuple(key(x) if isinstance(x, list) else x for x in t)


class CC:
    """Congruence closure over ground terms (given as nested tuples)."""

    def __init__(self):
        self.par, self.use, self.sig = {}, {}, {}

    def find(self, t):
        while self.par[t] != t:
            self.par[t] = self.par[self.par[t]]
            t = self.par[t]
        return t

    def add(self, t):
        if t in self.par:
            return
        self.par[t] = t
        self.use[t] = []
        if t[0] == "f" and len(t) > 2:
            for a in t[2:]:
                self.add(a)
            s = (t[1],) + tuple(self.find(a) for a in t[2:])
            for a in set(self.find(a) for a in t[2:]):
                self.use[a].append(t)
            if s in self.sig:
                self.merge(t, self.sig[s])
            else:
                self.sig[s] = t

    def merge(self, a, b):
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            a, b = self.find(a), self.find(b)
            if a == b:
                continue
            if len(self.use[a]) > len(self.use[b]):
                a, b = b, a
            self.par[a] = b
            for u in self.use[a]:
                s = (u[1],) + tuple(self.find(x) for x in u[2:])
                o = self.sig.get(s)
                if o is None:
                    self.sig[s] = u
                elif self.find(o) != self.find(u):
                    todo.append((o, u))
                self.use[b].append(u)

    def eq(self, a, b):
        self.add(a)
        self.add(b)
        return self.find(a) == self.find(b)


def ground_sat(clauses, max_models=400):
    """clauses: ground clauses with equality.  True / False / None (gave up)."""
    ids = {}

    def atom_id(a):
        if a[0] == "p":
            k = key(a)
        else:
            x, y = sorted([key(a[1]), key(a[2])], key=repr)
            k = ("=", x, y)
        if k not in ids:
            ids[k] = len(ids) + 1
        return ids[k]

    cs = []
    for c in clauses:
        out = []
        for l in c:
            s, a = 1, l
            while a[0] == "~":
                s, a = -s, a[1]
            if a[0] == "!=":
                s, a = -s, ["="] + a[1:]
            out.append(s * atom_id(a))
        cs.append(out)
    names = {v: k for k, v in ids.items()}
    haseq = any(k[0] == "=" for k in ids)
    for _ in range(max_models):
        m = solve(cs, len(ids))
        if m is None:
            return False
        if not haseq:
            return True
        conf = euf_conflict(m, names)
        if conf is None:
            return True
        # reduce the conflict, so that few models are needed
        i = 0
        while i < len(conf):
            d = conf[:i] + conf[i + 1:]
            if euf_conflict({abs(l): l > 0 for l in d}, names) is not None:
                conf = d
            else:
                i += 1
        cs.append([-l for l in conf])
    return None


def euf_conflict(m, names):
    cc = CC()
    for v, b in m.items():
        k = names[v]
        if k[0] == "=":
            cc.add(k[1])
            cc.add(k[2])
        else:
            for a in k[2:]:
                cc.add(a)
    pos = [v for v, b in m.items() if b and names[v][0] == "="]
    for v in pos:
        cc.merge(cc.find(names[v][1]), cc.find(names[v][2]))
    for v, b in m.items():
        if not b and names[v][0] == "=" and cc.eq(names[v][1], names[v][2]):
            return list(pos) + [-v]
    table = {}
    for v, b in m.items():
        k = names[v]
        if k[0] == "p":
            s = (k[1],) + tuple(cc.find(a) for a in k[2:])
            if s in table and m[table[s]] != b:
                w = table[s]
                return list(pos) + [v if b else -v, w if m[w] else -w]
            table.setdefault(s, v)
    return None


def herbrand(clauses, consts):
    """All ground instances of function-free clauses over the constants."""
    out = []
    for c in clauses:
        vs = []
        for l in c:
            for v in fol.free_vars(l):
                if v not in vs:
                    vs.append(v)
        for vals in itertools.product(consts, repeat=len(vs)):
            s = {v: ["f", x] for v, x in zip(vs, vals)}
            out.append([fol.subst_lit(l, s) for l in c])
    return out


def epr_sat(clauses, consts, eq=False):
    """Function-free clauses, no equality unless the clauses are instantiated enough: with
    equality instantiating over the constants is complete too (the domain can be restricted
    to the constants' denotations, universal sentences being preserved by substructures)."""
    return ground_sat(herbrand(clauses, consts))
