"""Statements with names, roles, unusual symbols, numbers, strings and lists, written in the three languages.

Terms: ["v",n] ["f",name,args...] ["i",n] ["r",text] ["s",text] ["l",[items]].  Formulas as in fol."""
import json, re

PLAIN = re.compile(r"^[a-z][A-Za-z0-9_]*$")
ODD = ["a b", "Abc", "X", "Y1", "a'b", 'a"b', "a\\b", "1a", "12", "1.5", "a:b", "a,b", "f(x)", "p(", "a)", "a.", "a|b", "a&b", "% c", "a%b", "# c", "//x", "/* y", "x */",
       "\u00e4\u00f5", "\u65e5", "[]", "[x", "{a}", "a=>b", "<=>", "!", "?", "true", "false", "null", "or", "and2", "fof", "cnf", "include", "axiom", "a\tb", "a\nb", "_x", "__",
       "A", "Z_", "forall", "exists", "xor", "a@b", "http://x.y/z#w", "it''s", "''", '""', ";", "a~", "a-b", "x+y", "*", "<", ">", "\\", "a\\\\c", "le ss", "e1", "1e5", "0"]
# words that are operators or markers of one of the languages are not usable as names there
BAD_JSON = {"=", "!=", "not", "and", "or", "-", "~", "&", "|", "=>", "<=", "<=>", "<~>", "forall", "exists", "if", "then", "xor", "all", "+", "*", "/", "imp", "eqv", "nor", "nand", "~&", "~|", "<", ">",
            "fof", "cnf", "include"}


def usable(name):
    if name in BAD_JSON or name[:1] in "-~?$#@" or name.endswith("\\") or not name:
        return False
    return not re.search(r"\\[nt'\"]", name)


ODD = [n for n in ODD if usable(n)]


# source and useful info after the formula, as in the TPTP library
ANN = [",file('a b.p',x1)", ",input", ",inference(resolution,[status(thm)],[a,b])", ",introduced(definition),[x,y]", ",file('Axioms/X.ax',unknown),[p(X),q]", ",unknown,[]"]


def quote(n):
    return "'" + n.replace("'", "\\'").replace("\n", "\\n").replace("\t", "\\t") + "'"


def tname(n, force=False):
    return n if PLAIN.match(n) and not force else quote(n)


def tstr(t, q=False):
    k = t[0]
    if k == "v":
        return t[1]
    if k == "i":
        return str(t[1])
    if k == "r":
        return t[1]
    if k == "s":
        return '"' + t[1].replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
    if k == "l":
        return "[" + ",".join(tstr(x, q) for x in t[1]) + "]"
    return tname(t[1], q) + ("(" + ",".join(tstr(x, q) for x in t[2:]) + ")" if len(t) > 2 else "")


def fstr(f, q=False, top=True):
    k = f[0]
    if k == "p":
        return tname(f[1], q) + ("(" + ",".join(tstr(x, q) for x in f[2:]) + ")" if len(f) > 2 else "")
    if k in ("=", "!="):
        s = "%s %s %s" % (tstr(f[1], q), k, tstr(f[2], q))
    elif k == "~":
        return "~" + fstr(f[1], q, False) if f[1][0] == "p" else "~(" + fstr(f[1], q) + ")"
    elif k in ("&", "|"):
        s = (" %s " % k).join(fstr(g, q, False) for g in f[1:])
    elif k in ("!", "?"):
        s = "%s [%s] : (%s)" % (k, ",".join(f[1]), fstr(f[2], q))
    else:
        s = "%s %s %s" % (fstr(f[1], q, False), k, fstr(f[2], q, False))
    return s if top else "(" + s + ")"


def jterm(t):
    k = t[0]
    if k == "v":
        return "?:" + t[1]
    if k == "i":
        return t[1]
    if k == "r":
        return float(t[1])
    if k == "s":
        return "#:" + t[1]
    if k == "l":
        r = "$nil"
        for x in reversed(t[1]):
            r = ["$list", jterm(x), r]
        return r
    return t[1] if len(t) == 2 else [t[1]] + [jterm(x) for x in t[2:]]


def jform(f):
    k = f[0]
    if k == "p":
        return [f[1]] + [jterm(x) for x in f[2:]]
    if k in ("=", "!="):
        return [jterm(f[1]), k, jterm(f[2])]
    if k == "~":
        return ["-" + f[1][1]] + [jterm(x) for x in f[1][2:]] if f[1][0] == "p" and len(f[1]) > 2 else ["not", jform(f[1])]
    if k in ("&", "|"):
        out = [jform(f[1])]
        for g in f[2:]:
            out += [k, jform(g)]
        return out if len(f) > 2 else jform(f[1])
    if k in ("!", "?"):
        return [{"!": "forall", "?": "exists"}[k], ["?:" + v for v in f[1]], jform(f[2])]
    return [jform(f[1]), k, jform(f[2])]


def free_vars(x, bound=()):
    """Free variables in order of appearance (terms may hold lists)."""
    if x[0] == "v":
        return [] if x[1] in bound else [x[1]]
    if x[0] in ("i", "r", "s"):
        return []
    if x[0] in ("!", "?"):
        return free_vars(x[2], tuple(bound) + tuple(x[1]))
    parts = x[1] if x[0] == "l" else x[2:] if x[0] in ("p", "f") else x[1:]
    out = []
    for y in parts:
        out += [v for v in free_vars(y, bound) if v not in out]
    return out


def close(f):
    fv = free_vars(f)
    return ["!", fv, f] if fv else f


def is_clause(f):
    return f[0] in ("p", "=", "!=") or f[0] == "~" and f[1][0] == "p" or f[0] == "|" and all(is_clause(g) and g[0] != "|" for g in f[1:])


def problem(stmts, syntax, q=False):
    """stmts: {"name","role","f"}; simple syntax has no names and roles: the conjecture is negated there."""
    if syntax == "json":
        out = []
        for s in stmts:
            d = {"@name": s["name"]}
            if s["role"] != "axiom" or s.get("say"):
                d["@role"] = s["role"]
            d["@logic"] = jform(close(s["f"]) if s["role"] == "conjecture" else s["f"])
            out.append(d)
        return json.dumps(out, ensure_ascii=bool(q))
    ls = []
    for s in stmts:
        if syntax == "simple":
            ls.append(("~(" + fstr(close(s["f"]), q) + ")" if s["role"] == "conjecture" else fstr(s["f"], q)) + ".")
        elif syntax == "tptp" and s.get("cnf") and is_clause(s["f"]) and s["role"] != "conjecture":
            ls.append("cnf(%s,%s,(%s)%s)." % (tname(s["name"], q), s["role"], fstr(s["f"], q), s.get("ann") or ""))
        else:
            ls.append("fof(%s,%s,%s%s)." % (tname(s["name"], q), s["role"], fstr(close(s["f"]), q, False), s.get("ann") or ""))
    return "\n".join(ls) + "\n"
