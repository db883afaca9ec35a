"""Reference values of the built-in functions and predicates on numbers, distinct symbols and lists, and the
rendering of such terms in the three input languages.

Terms: ["i",n] ["r",float] ["s",text] ["c",name] constant  ["f",name,args...] function or built-in
       ["op",sym,a,b] infix arithmetic   ["l",[items]] list in brackets
Values after evaluation: ["i",n] ["r",float] ["s",text] ["c",name] ["nil"] ["cons",h,t] ["f",name,args...] (open)
"""
import json, math
from decimal import Decimal

IMIN, IMAX = -2**63, 2**63 - 1
INFIX = {"+": "$sum", "-": "$difference", "*": "$product", "/": "$quotient"}


def isnum(v):
    return v[0] in ("i", "r")


def ilimit(n):
    return ["i", n] if IMIN <= n <= IMAX else None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def idivide(kind, a, b):
    """(quotient, remainder) of integers, TPTP e/t/f."""
    if kind == "t":
        q = tdiv(a, b)
    elif kind == "f":
        q = a // b
    else:
        q = a // b if b > 0 else -(a // -b)
    return q, a - q * b


def d2i(x):
    if not math.isfinite(x):
        return None
    n = int(x)
    return n if IMIN <= n <= IMAX else None


def real(x):
    return ["r", x] if math.isfinite(x) else None


def fdiv(a, b):
    try:
        return a / b
    except OverflowError:
        return math.inf


def arith2(name, a, b):
    """Value of a built-in binary function on two numbers, or None if it stays as it is."""
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        if name == "$sum":
            return ilimit(x + y)
        if name == "$difference":
            return ilimit(x - y)
        if name == "$product":
            return ilimit(x * y)
        if y == 0:
            return None
        if name == "$quotient":
            return ilimit(tdiv(x, y))
        k = name[-1] if name != "$remainder" else "e"
        q, r = idivide(k, x, y)
        return ilimit(q) if name.startswith("$quotient") else ilimit(r)
    x, y = float(a[1]), float(b[1])
    if name == "$sum":
        return real(x + y)
    if name == "$difference":
        return real(x - y)
    if name == "$product":
        return real(x * y)
    if y == 0:
        return None
    if name == "$quotient":
        return real(fdiv(x, y))
    k = name[-1] if name != "$remainder" else "e"
    if name.startswith("$quotient"):
        q = fdiv(x, y)
        if not math.isfinite(q):
            return None
        if k == "t":
            q = math.trunc(q)
        elif k == "f":
            q = math.floor(q)
        else:
            q = math.floor(q) if y > 0 else math.ceil(q)
        return ilimit(q)
    xi, yi = d2i(x), d2i(y)
    if xi is None or yi is None or yi == 0:
        return None
    return ilimit(idivide(k, xi, yi)[1])


def cround(x):
    f = math.floor(x)
    d = x - f
    if d == 0.5:
        return f + 1 if x > 0 else f
    return f + 1 if d > 0.5 else f


def arith1(name, a):
    if a[0] == "i":
        if name == "$uminus":
            return ilimit(-a[1])
        if name == "$to_real":
            return real(float(a[1]))
        return a
    x = a[1]
    if name == "$uminus":
        return real(0 - x)
    if name == "$to_real":
        return a
    if not math.isfinite(x):
        return None
    n = {"$to_int": math.floor, "$floor": math.floor, "$ceiling": math.ceil, "$truncate": math.trunc, "$round": cround}[name](x)
    return ilimit(n)


A2 = ["$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f",
      "$remainder_e", "$remainder_t", "$remainder_f"]
A1 = ["$to_int", "$to_real", "$floor", "$ceiling", "$truncate", "$round", "$uminus"]
CMP = ["$less", "$lesseq", "$greater", "$greatereq"]


def ev(t):
    """Evaluate a ground term as far as it has a documented value."""
    k = t[0]
    if k in ("i", "r", "s", "c", "nil", "cons"):
        return t
    if k == "l":
        v = ["nil"]
        for x in reversed(t[1]):
            v = ["cons", ev(x), v]
        return v
    if k == "op":
        name, args = INFIX[t[1]], [ev(x) for x in t[2:]]
    else:
        name, args = t[1], [ev(x) for x in t[2:]]
    if name == "$nil" and not args:
        return ["nil"]
    v = None
    if name == "$list":
        return ["cons", args[0], args[1]]
    if name in A2 and all(isnum(x) for x in args):
        v = arith2(name, *args)
    elif name in A1 and isnum(args[0]):
        v = arith1(name, args[0])
    elif name == "$first" and args[0][0] == "cons":
        v = args[0][1]
    elif name == "$rest" and args[0][0] == "cons":
        v = args[0][2]
    elif name == "$strlen" and args[0][0] == "s":
        v = ["i", len(args[0][1].encode())]
    return v if v is not None else ["f", name] + args


def same(a, b):
    """Identical evaluated terms."""
    if a[0] != b[0]:
        return False
    if a[0] == "r":
        return a[1] == b[1]
    if a[0] in ("i", "s", "c"):
        return a[1] == b[1]
    if a[0] == "nil":
        return True
    if a[0] == "f" and (a[1] != b[1] or len(a) != len(b)):
        return False
    i = 2 if a[0] == "f" else 1
    return all(same(x, y) for x, y in zip(a[i:], b[i:]))


def typed(v):
    return v[0] in ("i", "r", "s", "nil", "cons")


def equal(a, b):
    """True / False / None (open) / "?" (not documented: numbers of different type with the same value, signed zeros)."""
    if a[0] == b[0] == "r" and a[1] == b[1] == 0 and math.copysign(1, a[1]) != math.copysign(1, b[1]):
        return "?"
    if isnum(a) and isnum(b) and a[0] != b[0] and a[1] == b[1]:
        return "?"
    if same(a, b) and a[0] != "cons":
        return True
    if not typed(a) or not typed(b):
        return None
    la, lb = a[0] in ("nil", "cons"), b[0] in ("nil", "cons")
    if la != lb or not la:
        return False
    if a[0] == "nil" or b[0] == "nil":
        return False
    r = [equal(a[1], b[1]), equal(a[2], b[2])]
    if False in r:
        return False
    if "?" in r:
        return "?"
    return True if r == [True, True] else None


def mentions_open(v):
    return v[0] == "f" or (v[0] == "cons" and (mentions_open(v[1]) or mentions_open(v[2])))


def pred(name, args):
    """Documented truth of a built-in predicate on terms: True, False or None (open)."""
    v = [ev(x) for x in args]
    if name == "=":
        return equal(*v)
    if name in CMP:
        a, b = v
        if not (isnum(a) and isnum(b)):
            return "?" if same(a, b) else None
        x, y = a[1], b[1]      # Python compares int with float exactly
        return {"$less": x < y, "$lesseq": x <= y, "$greater": x > y, "$greatereq": x >= y}[name]
    a = v[0]
    if name in ("$is_int", "$is_real", "$is_number"):
        if isnum(a):
            return {"$is_int": a[0] == "i", "$is_real": a[0] == "r", "$is_number": True}[name]
        return False if a[0] == "s" else None
    if name == "$is_list":
        if a[0] in ("nil", "cons"):
            return True
        return False if isnum(a) or a[0] == "s" else None
    if name == "$is_distinct":
        if a[0] == "s":
            return True
        return False if typed(a) else None
    if name == "$substr":
        return v[0][1] in v[1][1] if v[0][0] == v[1][0] == "s" else None
    if name == "$substrat":
        if v[0][0] == v[1][0] == "s" and v[2][0] == "i":
            i = v[2][1]
            return i >= 0 and i <= len(v[1][1]) and v[1][1].startswith(v[0][1], i)
        return None
    raise ValueError(name)


# ---------------------------------------------------------------- rendering

def rstr(x):
    """Exact decimal text of a float, always with a point."""
    s = format(Decimal(x), "f")
    return s if "." in s else s + ".0"


def tstr(t, dq=True):
    k = t[0]
    if k == "i":
        return str(t[1])
    if k == "r":
        return rstr(t[1])
    if k == "s":
        return '"%s"' % t[1]
    if k in ("c", "v"):
        return t[1]
    if k == "nil":
        return "$nil"
    if k == "cons":
        return "$list(%s,%s)" % (tstr(t[1]), tstr(t[2]))
    if k == "l":
        return "[" + ",".join(tstr(x) for x in t[1]) + "]"
    if k == "op":
        return "(%s %s %s)" % (tstr(t[2]), t[1], tstr(t[3]))
    return t[1] if len(t) == 2 else "%s(%s)" % (t[1], ",".join(tstr(x) for x in t[2:]))


class Raw(float):
    """A float that prints exactly in JSON."""
    def __repr__(self):
        return rstr(float(self))


def jterm(t):
    k = t[0]
    if k == "i":
        return str(t[1])
    if k == "r":
        return rstr(t[1])
    if k == "s":
        return json.dumps("#:" + t[1])
    if k == "c":
        return json.dumps(t[1])
    if k == "v":
        return json.dumps("?:" + t[1])
    if k == "nil":
        return '"$nil"'
    if k == "cons":
        return '["$list",%s,%s]' % (jterm(t[1]), jterm(t[2]))
    if k == "l":
        v = '"$nil"'
        for x in reversed(t[1]):
            v = '["$list",%s,%s]' % (jterm(x), v)
        return v
    if k == "op":
        return "[%s,%s,%s]" % (jterm(t[2]), json.dumps(t[1]), jterm(t[3]))
    if len(t) == 2:
        return json.dumps(t[1])
    return "[%s]" % ",".join([json.dumps(t[1])] + [jterm(x) for x in t[2:]])


def atom(a, syntax, neg=False):
    """a = [predname, args...]; the text of a literal."""
    if syntax == "json":
        if a[0] == "=":
            s = "[%s,%s,%s]" % (jterm(a[1]), '"!="' if neg else '"="', jterm(a[2]))
            return s
        return "[%s]" % ",".join([json.dumps(("-" if neg else "") + a[0])] + [jterm(x) for x in a[1:]])
    if a[0] == "=":
        return "%s %s %s" % (tstr(a[1]), "!=" if neg else "=", tstr(a[2]))
    s = a[0] + ("(%s)" % ",".join(tstr(x) for x in a[1:]) if len(a) > 1 else "")
    return ("~" if neg else "") + s


def clause(lits, syntax):
    """lits = [(neg, atom)]"""
    ls = [atom(a, syntax, n) for n, a in lits]
    if syntax == "json":
        if len(ls) == 1:
            return ls[0]
        return "[" + ',"|",'.join(ls) + "]"
    return " | ".join(ls)


def problem(clauses, syntax):
    """A clause list as a problem text."""
    if syntax == "json":
        return "[\n" + ",\n".join(clause(c, "json") for c in clauses) + "\n]\n"
    if syntax == "tptp":
        return "".join("cnf(c%d,axiom,(%s)).\n" % (i, clause(c, "tptp")) for i, c in enumerate(clauses))
    return "".join(clause(c, "simple") + ".\n" for c in clauses)


EXT = {"json": ".js", "simple": ".txt", "tptp": ".p"}
