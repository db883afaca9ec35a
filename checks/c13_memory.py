"""C13 whatever bytes the tool is given, it ends with a result or an error and stays inside its memory."""
import resource, json, os, random, re, shutil
from vlib import build, engine, fol, gkc, lang
from vlib.engine import ok, viol, skip
from checks import c05_languages as c05, c06_arith as c06, c07_lists as c07, c08_answers as c08

PROP = "C13"
LEVEL = "exploration"
TECHNIQUE = "fuzzing: grammar based, token level and byte level mutation of problems, strategies, includes and command lines, run under address and undefined-behaviour sanitizers"
LEVEL_NOTE = "sampled inputs; single process runs"
RULE = ("Problem texts of every language (generated statements, arithmetic, lists, rule bases, documentation examples), strategies, include files, streamed JSON and command "
        "lines are generated, mutated at byte and token level, spliced, nested deeply and stretched, and given to a sanitizer build of gkc for proving, -convert, -clausify "
        "and the three output formats.  Each run must end by itself with a result, converted text or a reported error and exit status 0 or 1: a signal, a sanitizer report, "
        "no output at all, or a conversion of a small text that does not finish is a violation.  Non-trivial: mutated or stretched input was read without an error, or gave an "
        "error of the reader.  Distinct by input and arguments.")
ASSUMPTIONS = ["the local database is one block for the sanitizer: an access outside an object inside the database is seen by C14 and C15, not here",
               "term buffers and hash tables of the build are 100 times smaller than the default, so that their limits are reached",
               "proof searches are cut by -seconds 2 and a low step limit; a search that is still running is not judged"]
CHUNK = 6

SEEDS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "seeds.json")))
TOK = {
    "txt": ["(", ")", "[", "]", ",", ".", "|", "&", "~", "-", "=", "!=", "=>", "<=", "<=>", "<~>", "~|", "~&", "!", "?", ":", "p", "q", "f", "a", "X", "Y", "Z1", "$ans", "$nil", "$list", "$first", "$rest",
            "$is_list", "$less", "$sum", "$product", "$quotient", "$strlen", "$substr", "$substrat", "$is_distinct", "\"s\"", "'q r'", "''", "\"\"", "1", "-1", "0", "1.5", "1e5", "99999999999999999999", "0.0000001", "+", "*", "/", "<", ">", "%", "//",
            "/*", "*/", "\n", " ", "fof", "cnf", "tff", "include", "axiom", "conjecture", "negated_conjecture", "fof(a,axiom,", "cnf(b,axiom,", ").", "<-", ":-", "?-", "if", "then", "forall", "exists", "#", "@", "\\", "\"", "'", "$", "$true", "$false",
            "_", "{", "}", ";", "::", "->", "..", "^", "`", "\x00", "\xff", "\xc3\xa4", "\x7f", "p(X)", "f(f(a))", "[a|X]", "[[],[a]]"],
    "js": ["[", "]", "{", "}", ",", ":", "\"p\"", "\"a\"", "\"?:X\"", "\"?:\"", "\"#:c\"", "\"#:\"", "\"@id\"", "\"@logic\"", "\"@if\"", "\"@then\"", "\"@name\"", "\"@role\"", "\"@question\"", "\"@list\"", "\"@type\"", "\"@context\"", "\"@base\"",
           "\"@graph\"", "\"@confidence\"", "\"forall\"", "\"exists\"", "\"and\"", "\"or\"", "\"not\"", "\"=>\"", "\"<=>\"", "\"if\"", "\"then\"", "\"=\"", "\"!=\"", "\"-\"", "\"~\"", "\"&\"", "\"|\"", "\"<=\"", "\"xor\"", "\"$ans\"", "\"$list\"", "\"$nil\"",
           "null", "true", "false", "1", "-1", "1.5", "1e400", "123456789012345678901", "\"\"", "\" \"", "\"\\u00e4\"", "\"\\u0000\"", "\"\\ud800\"", "\"\\n\"", "\"\\\"", "// x\n", "/* c */", "[\"p\",\"a\"]", "[\"-p\",\"?:X\"]", "[[],[]]", "{}", "[]",
           "{\"@id\":\"a\"}", "{\"@list\":[1]}", "\"http://x/y#z\"", "\"x:y\"", "\"@\"", "\"is_list\"", "\"+\"", "\"*\"", "\"/\"", "\"<\"", "\"$sum\"", "\"include\"", "\"fof\""],
    "strat": ["{", "}", "[", "]", ",", ":", "\"runs\"", "\"strategy\"", "\"unit\"", "\"hyper\"", "\"query_preference\"", "\"max_weight\"", "\"max_size\"", "\"max_depth\"", "\"max_length\"", "\"max_answers\"", "\"equality\"", "\"rewrite\"", "\"print\"",
              "\"print_level\"", "\"given_queue_ratio\"", "\"weight_select_ratio\"", "\"sine\"", "\"max_seconds\"", "\"max_dseconds\"", "\"depth_penalty\"", "\"length_penalty\"", "\"var_weight\"", "\"arith_instantiation\"", "\"reverse_clauselist\"",
              "\"instgen\"", "0", "1", "-1", "2", "100", "1e300", "-99999999999", "1.5", "true", "false", "null", "\"\"", "\"x\"", "[]", "{}", "\"double\"", "\"triple\"", "\"negative_pref\"", "\"query_focus\"", "\"max_given\""],
}
TOK["jss"] = TOK["js"]
TOK["p"] = TOK["txt"]
EXPER = ("instgen", "propgen")  # these call an external solver


def prepare(tier):
    return {"gkc": build.build("smallasan", "builtin")}


def plan(tier):
    k = 0.22 if tier == "quick" else 10
    return [(a, int(n * k)) for a, n in [("asis", 500), ("bytes", 2500), ("tokens", 1800), ("soup", 1200), ("splice", 700), ("deep", 700), ("long", 500), ("many", 150), ("strat", 1000), ("include", 300), ("args", 700)]]


# ---------------------------------------------------------------- texts

def base(r, ext):
    """A well formed text in the language of the extension."""
    k = r.random()
    if k < 0.35 and ext != "strat":
        m = c05.gen(r.choice(["clauses", "agree", "convert", "clausal"]), r, 0, "quick") or {}
        st = m.get("stmts")
        if st is not None:
            syn = {"txt": "simple", "p": "tptp", "js": "json", "jss": "json"}[ext]
            try:
                return lang.problem(st, syn, False).replace("'$ans'(", "$ans(")
            except Exception:
                pass
    if ext == "strat":
        s = gkc.gen_strategy(r, limits=True, arith=True, multi=0.3, experimental=False)
        if r.random() < 0.3:
            s["max_answers"] = r.choice([1, 2, 100])
        return json.dumps(s)
    want = "js" if ext.startswith("js") else "txt"
    names = [n for n in sorted(SEEDS) if (n.endswith(".js")) == (want == "js")]
    return SEEDS[r.choice(names)]


def toks(t):
    return re.findall(r"[A-Za-z0-9_$]+|\s+|\"[^\"\n]*\"|'[^'\n]*'|.", t, re.S)


def mutate_bytes(r, t):
    b = bytearray(t.encode("latin-1", "replace"))
    for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
        if not b:
            b = bytearray(b"p")
        i = r.randrange(len(b))
        k = r.random()
        if k < 0.3:
            b[i] = r.choice([r.randrange(256), ord(r.choice("()[]{},.|&~-=\"'\\%$/*:?!@#<> \n\t0X")), 0, 255])
        elif k < 0.5:
            del b[i:i + r.choice([1, 1, 1, 2, 5, 20, 100])]
        elif k < 0.75:
            b[i:i] = bytes([ord(r.choice("()[]{},.|&~-=\"'\\%$/*:?!@#<> \n\t09Xaf")) if r.random() < 0.8 else r.randrange(256)]) * r.choice([1, 1, 1, 2, 3, 20])
        elif k < 0.9:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 3, 10, 40, 200])]
        else:
            b[i:] = b""
    return bytes(b).decode("latin-1")


def mutate_tokens(r, t, ext):
    ts = toks(t)
    for _ in range(r.choice([1, 1, 2, 3, 5, 10])):
        if not ts:
            ts = ["p"]
        i = r.randrange(len(ts))
        k = r.random()
        if k < 0.3:
            ts[i] = r.choice(TOK[ext])
        elif k < 0.45:
            del ts[i:i + r.choice([1, 1, 2, 5])]
        elif k < 0.65:
            ts.insert(i, r.choice(TOK[ext]))
        elif k < 0.8:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.9:
            j = r.randrange(len(ts))
            ts[i:i] = ts[j:j + r.choice([1, 3, 10])]
        else:
            ts[i] = ts[i] * r.choice([2, 3, 10, 50])
    return "".join(ts)


def deep(r, ext):
    n = r.choice([5, 20, 50, 100, 200, 255, 256, 257, 500, 1000, 2000, 4095, 4096, 4097, 5000, 10000, 30000])
    if ext in ("js", "jss"):
        o, c, m = r.choice([("[", "]", "1"), ("[\"f\",", "]", "\"a\""), ("[\"not\",", "]", "[\"p\",\"a\"]"), ("{\"a\":", "}", "1"), ("[\"and\",[\"p\",1],", "]", "[\"q\"]"), ("[\"forall\",[\"X\"],", "]", "[\"p\",\"X\"]"),
                            ("{\"@logic\":", "}", "[\"p\",1]"), ("{\"@list\":[", "]}", "1"), ("[[\"p\",1],\"=>\",", "]", "[\"q\",1]"), ("[[\"f\",1],\"=\",", "]", "[\"q\",1]"), ("[\"-\",", "]", "1"), ("{\"@id\":\"a\",\"b\":", "}", "{}")])
        body = o * n + m + c * (n if r.random() < 0.8 else r.randrange(n + 2))
        return r.choice(["%s", "[%s]", "[[\"p\",%s]]", "[[\"or\",[\"p\",%s],[\"q\"]]]"]) % body
    o, c, m = r.choice([("f(", ")", "a"), ("[", "]", "a"), ("(", ")", "p(a)"), ("~", "", "p(a)"), ("-", "", "p(a)"), ("~(", ")", "p(a)"), ("(p(a) & ", ")", "q(a)"), ("![X]:", "", "p(X)"), ("?[X]:(", ")", "p(X)"), ("(p(a) => ", ")", "q(a)"),
                        ("(p(X) <=> ", ")", "q(a)"), ("f(X,", ")", "Y"), ("[a,", "]", "X"), ("[a|", "]", "X"), ("1+(", ")", "2"), ("$sum(1,", ")", "2"), ("p(a) | ", "", "q(a)"), ("/*", "*/", "x"), ("a = ", "", "b")])
    if "<=>" in o:
        n = min(n, 12)
    body = o * n + m + c * (n if r.random() < 0.8 else r.randrange(n + 2))
    return r.choice(["%s.\n", "p(%s).\n", "fof(a,axiom,%s).\n", "fof(a,conjecture,p(%s)).\n", "cnf(a,axiom,p(%s)).\n", "p(X) | q(%s).\n", "f(%s) = a.\n", "include(%s).\n"]) % body


def stretched(r, ext):
    n = r.choice([100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 2000, 4095, 4096, 5000, 8192, 10000, 20000, 70000])
    ch = r.choice(["a", "b1", "\xe4", " ", "\\n", "%", "X", "'", "9"])
    s = ch * n if len(ch) == 1 else (ch * n)[:n]
    if ext in ("js", "jss"):
        s = s.replace("\\n", "\\n").replace("'", "'")
        t = r.choice(['[["p","%s"]]', '[["%s","a"]]', '[{"@name":"%s","@logic":["p","a"]}]', '[{"%s":"a","b":1}]', '[{"@id":"%s","b":"c"}]', '[["p","?:%s"]]', '[["p",%s]]', '["%s"]', '[{"@role":"%s","@logic":["p","a"]}]', '[["p","#:%s"]]',
                      '// %s\n[["p"]]', '[["%s","=","a"]]', '[["-%s","a"]]', '{"@context":{"%s":"http://a/"},"@graph":[]}', '{"@base":"%s","@id":"a","b":"c"}', '[["p",1.%s]]', '%s'])
        return t % s
    t = r.choice(["p(%s).\n", "%s(a).\n", "'%s'(a).\n", "p('%s').\n", "p(\"%s\").\n", "fof('%s',axiom,p(a)).\n", "fof(%s,axiom,p(a)).\n", "cnf(a,%s,p(a)).\n", "fof(a,axiom,![%s]:p(a)).\n", "p(a). %% %s\np(b).\n", "/* %s */ p(a).\n", "include('%s').\n",
                  "p(X%s).\n", "p(1%s).\n", "p(1.%s).\n", "$%s(a).\n", "p($%s).\n", "%s", "p(a:%s).\n", "fof(a,axiom,p(a),file('%s',b)).\n", "p(%s) | q(X).\n-p(X).\n", "p(a).\n# %s\n"])
    return t % s


def many(r, ext):
    n = r.choice([10, 50, 100, 199, 200, 201, 255, 256, 257, 300, 500, 1000, 3000])
    js = ext in ("js", "jss")
    k = r.randrange(9)
    if k == 0:  # variables
        vs = ["X%d" % i for i in range(n)]
        return json.dumps([["p"] + ["?:" + v for v in vs]]) if js else "p(%s).\n" % ",".join(vs)
    if k == 1:  # literals
        ls = [["p%d" % (i if i % 2 else 0), "a%d" % i] for i in range(min(n, 1000))]
        return json.dumps([["or"] + ls]) if js else " | ".join("%s(%s)" % tuple(x) for x in ls) + ".\n"
    if k == 2:  # arguments
        return json.dumps([["p"] + list(range(n))]) if js else "p(%s).\n" % ",".join(map(str, range(n)))
    if k == 3:  # list elements
        return json.dumps([["p", ["$list"] + list(range(n))]]) if js else "p([%s]).\n" % ",".join(map(str, range(n)))
    if k == 4:  # quantifiers
        vs = ["X%d" % i for i in range(min(n, 500))]
        return json.dumps([["forall", vs, ["exists", ["Y"], ["p", "Y"] + vs]]]) if js else "fof(a,axiom,![%s]:?[Y]:p(Y,%s)).\n" % (",".join(vs), ",".join(vs))
    if k == 5:  # statements
        return json.dumps([["p%d" % i, "a"] for i in range(n)]) if js else "".join("p%d(a).\n" % i for i in range(n))
    if k == 6:  # conjunction under disjunction
        n = min(n, 60)
        return (json.dumps([["or"] + [["and", ["p", i], ["q", i]] for i in range(n)]]) if js else
                "fof(a,axiom,%s).\n" % " | ".join("(p(%d) & q(%d))" % (i, i) for i in range(n)))
    if k == 7:  # long proof line and answers
        n = min(n, 300)
        return (json.dumps([["p", i] for i in range(n)] + [{"@question": ["p", "?:X"]}]) if js else
                "".join("p(%d).\n" % i for i in range(n)) + "-p(X) | $ans(%s).\n" % ("X" if r.random() < 0.7 else ",".join(["X"] * r.choice([50, 300]))))
    vs = ",".join("f(X%d,%s)" % (i, "a" * r.choice([1, 50])) for i in range(min(n, 300)))
    return json.dumps([["p", "?:Y", {"k%d" % i: i for i in range(n)}]]) if js else "p(%s).\n-p(%s) | q(a).\n" % (vs, vs)


MODES = [["-convert", "-json"], ["-convert", "-tptp"], ["-clausify"], ["-clausify", "-json"], ["-clausify", "-tptp"], [], ["-json"], ["-tptp"], ["-derived"], []]


def gen(kind, r, i, tier):
    ext = r.choice(["txt", "txt", "p", "js", "js", "jss"])
    mode = r.choice(MODES)
    files = {}
    if kind == "strat":
        t = base(r, "strat")
        k = r.random()
        t = mutate_tokens(r, t, "strat") if k < 0.5 else mutate_bytes(r, t) if k < 0.8 else t if k < 0.85 else "".join(r.choice(TOK["strat"]) for _ in range(r.randint(1, 30))) if k < 0.93 else \
            r.choice(["[", "{\"a\":", "[{\"runs\":"]) * r.choice([10, 1000, 1001, 5000])
        if any(e in t for e in EXPER):
            t = "{}"
        mode = [] if not mode or mode[0].startswith("-c") else mode
        return {"kind": kind, "ext": "txt", "text": SEEDS[r.choice(["example4.txt", "example1.txt", "group.txt", "lists.txt"])], "mode": mode, "strat": t, "how": r.choice(["file", "text"])}
    if kind == "asis":
        t = base(r, ext)
    elif kind == "bytes":
        t = mutate_bytes(r, base(r, ext))
    elif kind == "tokens":
        t = mutate_tokens(r, base(r, ext), ext)
    elif kind == "soup":
        t = r.choice(["", " "]).join(r.choice(TOK[ext]) for _ in range(r.choice([1, 2, 3, 5, 10, 30, 80])))
        if r.random() < 0.3 and ext in ("js", "jss"):
            t = "[" + t + "]"
    elif kind == "splice":
        a, b = base(r, ext), base(r, r.choice(["txt", "p", "js"]))
        t = a[:r.randrange(len(a) + 1)] + b[r.randrange(len(b) + 1):]
    elif kind == "deep":
        t = deep(r, ext)
    elif kind == "long":
        t = stretched(r, ext)
    elif kind == "many":
        t = many(r, ext)
    elif kind == "include":
        t, files = includes(r)
        ext = "p"
    else:
        t = base(r, ext)
        if r.random() < 0.3:
            t = mutate_tokens(r, t, ext)
    case = {"kind": kind, "ext": ext, "text": t, "mode": mode}
    if files:
        case["files"] = files
    if kind == "args":
        case["args"] = arguments(r)
    elif r.random() < 0.15 and len(t) < 100000 and "\0" not in t:
        case["inline"] = True
    elif not mode and r.random() < 0.3:
        s = gkc.gen_strategy(r, limits=True, arith=True, multi=0.2, experimental=False)
        case["strat"], case["how"] = json.dumps(s), "text"
    return case


def includes(r):
    n = r.randint(1, 3)
    files = {}
    names = ["i%d%s" % (j, r.choice([".ax", ".p", ".txt", ".js", ""])) for j in range(n)]
    for j, f in enumerate(names):
        t = base(r, "p" if not f.endswith(".js") else "js")
        k = r.random()
        if k < 0.3:
            t = mutate_tokens(r, t, "p")
        elif k < 0.5:
            t += "\ninclude('%s').\n" % r.choice(names + ["nofile.ax", "", "main.p", "."])
        elif k < 0.6:
            t = ""
        files[f] = t
    inc = []
    for _ in range(r.randint(1, 4)):
        f = r.choice(names * 3 + ["nofile.ax", "", ".", "/", "x" * r.choice([100, 300, 1023, 1024, 1100, 5000]), "main.p", "../" * r.choice([1, 5, 400]) + "nofile", "a b"])
        inc.append(r.choice(["include('%s').", "include('%s').", "include('%s',[a,b]).", "include(%s).", "include(\"%s\").", "include('%s',%s).", "include('%s'", "include"]).replace("%s", f))
    t = base(r, "p")
    k = r.random()
    t = "\n".join(inc) + "\n" + t if k < 0.6 else t + "\n" + "\n".join(inc) + "\n"
    if k > 0.9:
        t = mutate_tokens(r, t, "p")
    return t, files


OPTS = ["-convert", "-clausify", "-tptp", "-json", "-derived", "-text", "-jstext", "-strategy", "-strategytext", "-seconds", "-parallel", "-print", "-mbsize", "-prove", "-version", "-help", "--help", "-nosuch", "-", "--", "", "-x", "-defaults"]


def arguments(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 10, 25])):
        o = r.choice(OPTS)
        out.append(o)
        k = r.random()
        if o in ("-text", "-jstext") and k < 0.9:
            out.append(r.choice(["p(a).", "[[\"p\",1]]", "", "p(", "[", "p(X) | q(X). -p(a).", " ", "{}", "\"", "x" * r.choice([1, 1000, 10000])]))
        elif o in ("-strategy",) and k < 0.9:
            out.append(r.choice(["nofile.json", "", ".", "MAIN", "x" * 5000]))
        elif o == "-strategytext" and k < 0.9:
            out.append(r.choice(["{}", "[]", "", "1", "{\"strategy\":[\"unit\"]}", "{\"runs\":[]}", "null", "{"]))
        elif o == "-mbsize":
            out.append(r.choice(["20", "50", "0", "-1", "x", "", "5"]))
        elif o == "-parallel":
            out.append(r.choice(["0", "0", "1", "2", "-1", "x", "", "1000000000000"]) if k < 0.9 else "0")
        elif o in ("-seconds", "-print") and k < 0.9:
            out.append(r.choice(["1", "2", "0", "-1", "x", "", "99999999999", "1.5"]) if o == "-seconds" else r.choice(["0", "1", "5", "10", "15", "20", "51", "-1", "x", "", "1000"]))
        elif k < 0.2:
            out.append(r.choice(["MAIN", "nofile.txt", "nofile.js", ".", "", "x" * r.choice([100, 899, 900, 901, 1000, 5000])]))
    return out


# ---------------------------------------------------------------- judging

SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|AddressSanitizer:DEADLYSIGNAL[^\n]*|ERROR: UndefinedBehavior[^\n]*|Sanitizer: [^\n]*|stack smashing[^\n]*|malloc\(\)[^\n]*|free\(\)[^\n]*|double free[^\n]*|\*\*\* [^\n]*(?:detected|smashing|corrupt)[^\n]*)")


def run(case, env):
    d = os.path.join(engine.scratch(), "c13")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    main = "main." + case["ext"]
    with open(os.path.join(d, main), "wb") as fh:
        fh.write(case["text"].encode("latin-1", "replace"))
    for f, t in case.get("files", {}).items():
        with open(os.path.join(d, f), "wb") as fh:
            fh.write(t.encode("latin-1", "replace"))
    conv = bool(case["mode"]) and case["mode"][0] in ("-convert", "-clausify") and case["kind"] != "args"
    if case["kind"] == "args":
        args = ["main." + case["ext"] if a == "MAIN" else a for a in case["args"]]
        # a bound on memory and time for the run itself, given last: later ones are the ones used
        args = [main] + args + ["-mbsize", "50", "-seconds", "2", "-parallel", "0"]
    else:
        args = [main]
        if case.get("inline"):
            args = ["-jstext" if case["ext"].startswith("js") else "-text", case["text"].encode("latin-1", "replace")]
        args += case["mode"] + ["-mbsize", "50", "-seconds", "20" if conv else "2", "-parallel", "0"]
        if case.get("strat") is not None:
            if case["how"] == "file":
                with open(os.path.join(d, "strat.txt"), "wb") as fh:
                    fh.write(case["strat"].encode("latin-1", "replace"))
                args += ["-strategy", "strat.txt"]
            elif "\0" not in case["strat"]:
                args += ["-strategytext", case["strat"].encode("latin-1", "replace")]
        if case["kind"] not in ("asis",) or not conv:
            args += ["-print", "10"]
    args = [a if isinstance(a, bytes) else str(a).encode("latin-1", "replace") for a in args]
    args = [a for a in args if b"\0" not in a]
    res = runraw(env["gkc"], args, d)
    lab = [case["kind"], case["ext"], "mode" + "".join(case["mode"]) if case["kind"] != "args" else "args"]
    if res is None:
        # proof search is stopped by its own time limit: reading and converting is too, so this is the process not ending at all
        return viol("the run does not end: it was given %s seconds" % ("20" if conv else "2"), lab + ["hang"])
    rc, out = res
    m = SAN.search(out)
    if m or rc < 0 or rc not in (0, 1):
        at = re.findall(r"#\d+ \S+ in (\w+)[^\n]*?([\w.]+:\d+)", out)[:3]
        return viol("exit %d: %s at %s" % (rc, m.group(1)[:120] if m else out[-120:], " < ".join("%s %s" % a for a in at)), lab + ["crash"])
    if not out.strip() and case["kind"] != "args":
        if conv and not case["text"].strip():
            return ok(False, "empty", lab)
        if conv and rc == 0 and case["mode"][0] == "-convert":
            return ok(False, "empty", lab)  # a text without statements
        if conv and rc == 0:
            return ok(False, "empty", lab)
        return viol("exit %d and no output" % rc, lab)
    if conv and "time limit" in out:
        if len(case["text"]) < 3000:
            return viol("converting %d bytes does not finish in 20 seconds" % len(case["text"]), lab)
        return skip("converting takes long", lab)
    err = '"error"' in out or "error:" in out
    return ok(case["kind"] != "asis", json.dumps([case.get("text"), case.get("args"), case.get("strat"), case["mode"]]), lab + ["error" if err else "read"])


def runraw(binary, args, cwd):
    import subprocess
    e = dict(gkc.ASAN_ENV)
    e.pop("TPTP", None)
    # sanitized frames are several times larger: a stack of three times the usual one
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (24 << 20 if hard == resource.RLIM_INFINITY or hard > 24 << 20 else hard, hard))
    p = subprocess.Popen([binary.encode()] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e)
    try:
        out, _ = p.communicate(timeout=100)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    return p.returncode, out[:2_000_000].decode("latin-1")


def shrinks(case):
    for key in ("files", "strat", "inline"):
        if key in case:
            yield {k: v for k, v in case.items() if k != key and (k != "how" or key != "strat")}
    if case["kind"] == "args":
        a = case["args"]
        for i in range(len(a)):
            yield dict(case, args=a[:i] + a[i + 1:])
        for i in range(len(a)):
            if len(a[i]) > 8:
                yield dict(case, args=a[:i] + [a[i][:len(a[i]) // 2]] + a[i + 1:])
    for f in sorted(case.get("files", {})):
        t = case["files"][f]
        for u in cuts(t):
            yield dict(case, files=dict(case["files"], **{f: u}))
    if case.get("strat"):
        for u in cuts(case["strat"]):
            yield dict(case, strat=u)
    for u in cuts(case["text"]):
        yield dict(case, text=u)


def cuts(t):
    n = len(t)
    size = n
    seen = 0
    while size >= 1:
        for i in range(0, n, size):
            yield t[:i] + t[i + size:]
            seen += 1
            if seen > 400:
                return
        size //= 2


def describe(case):
    def sh(t):
        return t if len(t) < 600 else t[:300] + " ... (%d bytes) ... " % len(t) + t[-200:]
    s = "main.%s: %r\n" % (case["ext"], sh(case["text"]))
    for f, t in case.get("files", {}).items():
        s += "%s: %r\n" % (f, sh(t))
    s += "mode %s %s" % (" ".join(case["mode"]), " ".join(repr(a)[:80] for a in case.get("args", [])))
    if "strat" in case:
        s += "\nstrategy (%s): %r" % (case["how"], sh(case["strat"]))
    return s + ("\ngiven on the command line" if case.get("inline") else "")
