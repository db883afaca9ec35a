"""C17 text, JSON and TPTP output tell the same story; JSON output is JSON; TPTP proofs read back."""
import json, re, time
from vlib import build, fol, gkc, lang, proofread
from vlib.engine import ok, viol, skip
from checks import c01_soundness, c02_completeness as c02, c03_proofs as c03, c05_languages as c05

PROP = "C17"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: differential between the three output formats of the same run, with a read-back round trip of TPTP proofs through gkc's own reader"
LEVEL_NOTE = "sampled runs"
RULE = ("Generated problems (provable and not, with equality, quantifiers, answers; symbols and statement names replaced by quoted names with blanks, quotes, "
        "backslashes, brackets, comment signs, line breaks, unicode, strings and numbers) are run under one strategy as text, -json and -tptp.  Compared: "
        "verdict, answers, and step by step the number, rule, cited steps, input name and clause; standard output of -json must be one JSON value; the cnf and fof "
        "lines of TPTP proofs are read by gkc and must give the same clauses.  Malformed problems and strategies must give the same error in each format, as "
        "JSON.  Non-trivial: a proof of at least three steps, or an error message.  Distinct by problem, strategy and mode.")
ASSUMPTIONS = ["with fewer answers than max_answers the documented further result objects (one for each run, and that no proof was found) are accepted"]
CHUNK = 8

RULES = {"mp": "resolution", "merge": "factorization", "=": "paramodulation", "simp": "simplify", "r=": "reflexivity"}


def prepare(tier):
    return {"gkc": build.build("small", "builtin"), "bison": build.build("small", "bison")}


def plan(tier):
    k = 0.8 if tier == "quick" else 12
    return [(a, int(b * k)) for a, b in [("hard-prop", 150), ("hard-lift", 250), ("hard-epr", 150), ("groundeq", 250), ("epreq", 250), ("lifteq", 250), ("horn", 250),
                                         ("chain2", 250), ("chain3", 200), ("chain4", 200), ("fof", 300), ("ex", 500), ("answer", 700), ("err", 900), ("errstrat", 250)]]


def rename(case, r):
    """Items and goal of a c02/c03 case as lang statements with odd names."""
    odd = r.choice([0, 0.3, 0.6, 1])
    ren, used = {}, set()

    def name(key, dflt):
        if key not in ren:
            n = r.choice(lang.ODD) if r.random() < odd and not dflt.startswith("$") else dflt
            if (key[0], n) in used or key[0] == "p" and n in ("true", "false"):
                n = dflt
            used.add((key[0], n))
            ren[key] = n
        return ren[key]
    vals = r.choice([0, 0, 0.5])

    def const(n):
        if n not in ren:
            if n.startswith('"'):
                ren[n] = ["s", n[1:-1]]
            elif r.random() < vals and not n.startswith("$"):
                ren[n] = r.choice([["i", r.randint(-9, 99)], ["s", r.choice(["x y", "it's", "A\\b", "", "\u00e4", "%", "]", "q\"q", "l1"])], ["l", [["f", "b0"], ["i", 1]]]])
                if json.dumps(ren[n]) in used:
                    ren[n] = ["f", n]
                used.add(json.dumps(ren[n]))
            else:
                ren[n] = ["f", name("f" + n, n)]
        return ren[n]

    def term(t):
        if t[0] == "v":
            return t
        if t[0] != "f":
            return t
        if len(t) == 2:
            return const(t[1])
        return ["f", name("f" + t[1] + str(len(t)), t[1])] + [term(x) for x in t[2:]]

    def form(f):
        if f[0] == "p":
            if f[1] == "$ans":
                return f[:2] + [term(x) for x in f[2:]]
            return ["p", name("p" + f[1] + str(len(f)), f[1])] + [term(x) for x in f[2:]]
        if f[0] in ("=", "!="):
            return [f[0], term(f[1]), term(f[2])]
        if f[0] in ("!", "?"):
            return [f[0], f[1], form(f[2])]
        return [f[0]] + [form(g) for g in f[1:]]
    stmts = []
    names = set()
    for j, f in enumerate(case["items"] + ([case["goal"]] if case["goal"] is not None else [])):
        nm = r.choice(lang.ODD) if r.random() < odd else "st%d" % j
        if nm in names or nm.startswith("cl_") or nm.isdigit():
            nm = "st%d" % j
        names.add(nm)
        f = form(f)
        stmts.append({"name": nm, "role": "conjecture" if j == len(case["items"]) else r.choice(["axiom"] * 5 + ["hypothesis", "lemma", "negated_conjecture"]),
                      "f": f, "cnf": lang.is_clause(f) and r.random() < 0.5, "say": False})
    return stmts


def gen(kind, r, i, tier):
    if kind in ("err", "errstrat"):
        sig = fol.gen_sig(r, maxc=3, maxf=2, maxp=3, maxar=3)
        items = [fol.gen_formula(r, sig, [], r.randint(1, 3), 1, 0.2) for _ in range(r.randint(1, 3))]
        stmts = rename({"items": items, "goal": None}, r)
        syn = r.choice(["simple", "tptp", "json"])
        text = lang.problem(stmts, syn, False)
        case = {"mode": kind, "syntax": syn, "text": text}
        if kind == "err":
            for _ in range(r.randint(1, 3)):
                a = r.randint(0, len(text))
                k = r.random()
                if k < 0.4:
                    text = text[:a] + text[a + r.randint(1, 4):]
                elif k < 0.8:
                    text = text[:a] + r.choice(["(", ")", "[", "]", "\"", "'", "&", "|", " ", ",", ".", "{", "}", "\\", "\n", "\t", "!", ":", "$", "forall", "fof(", "cnf(", "p q", "not", "\x01", "=>", "?", "@", "\u00e4"]) + text[a:]
                else:
                    b = r.randint(0, len(text))
                    a, b = min(a, b), max(a, b)
                    text = text[:a] + text[a:b] + text[a:]
            case["text"] = text
        else:
            s = json.dumps(gkc.gen_strategy(r, experimental=False))
            a = r.randint(0, len(s))
            s = r.choice([s[:a] + s[a + 1:], s[:a] + r.choice('{}[],:"\\') + s[a:], s[:a], '"' + s, r.choice(["", "[]", "1", "null", "[1,2", "{\"strategy\":\"a\\\"b\"}", "{\"strategy\":[\"no such\"]}"])])
            if "\x00" in s:
                return None
            case["strategy"] = s
        return case
    case = c03.gen(kind, r, i, tier)
    if case is None:
        return None
    st = case["strategy"] or {"strategy": ["unit"], "query_preference": 0}
    if case.get("opts"):
        st = dict(st, **case["opts"])
    for s in st.get("runs", [st]):
        s.pop("max_seconds", None)
        s["max_dseconds"] = 30
    return {"mode": "run", "stmts": rename(case, r), "strategy": st, "syntax": r.choice(["simple", "tptp", "tptp", "json"]), "sub": kind,
            "level": r.choice([10] * 6 + [0, 1, 5, 9]), "q": r.random() < 0.2}


# ---------------------------------------------------------------- reading

def unquote(s):
    s = s.strip()
    if s.startswith("'") and s.endswith("'"):
        return proofread.unescape(s[1:-1])
    return s


def text_from_json(out, answers):
    """Follow the text output along the JSON proof.  None or a message."""
    pos = 0
    for a in answers:
        if "answer" in a:
            k = out.find("\nanswer: ", pos)
            if k < 0:
                return "the text output lacks answer %s" % json.dumps(a["answer"])
            e = out.find("\nproof:", k)
            if not proofread.variant([c05.std(x) for x in proofread.text_clause(out[k + 9:e].strip().rstrip("."))], [c05.std(x) for x in proofread.json_clause(a["answer"])]):
                return "answers differ: text %r, JSON %s" % (out[k + 9:e], json.dumps(a["answer"]))
            pos = e
        k = out.find("\nproof:", pos)
        if k < 0:
            return "the text output lacks a proof"
        pos = k + 7
        for n, st in enumerate(a["proof"]):
            r = st[1]

            def src(x):
                return ".".join(str(y) for y in x) if isinstance(x, list) else str(x)
            head = "\n %d: [in%s] " % (st[0], "," + r[1] if len(r) > 1 else "") if r[0] == "in" else "\n %d: [%s] " % (st[0], ", ".join(src(x) for x in r))
            if not out.startswith(head, pos):
                return "text step %r, JSON step %s" % (out[pos:pos + 80], json.dumps(st))
            pos += len(head)
            if n + 1 < len(a["proof"]):
                e = out.find("\n %d: [" % a["proof"][n + 1][0], pos)
            else:
                e = min([x for x in (out.find("\n\nanswer:", pos), out.find("\nresult: ", pos), out.find("\n\nNo clauses found.", pos), out.find("\n\nproof:", pos)) if x >= 0], default=len(out))
            if e < 0:
                return "the text output lacks step %d" % a["proof"][n + 1][0]
            c = out[pos:e].strip()
            try:
                tc = proofread.text_clause(c[:-1] if c.endswith(".") else c)
            except proofread.Bad as ex:
                return "text clause cannot be read: %s" % ex
            if not proofread.variant([c05.std(x) for x in tc], [c05.std(x) for x in proofread.json_clause(st[2])]):
                return "clauses differ at step %d: text %r, JSON %s" % (st[0], c, json.dumps(st[2]))
            pos = e
    if out.find("\nproof:", pos) >= 0:
        return "the text output has a proof more than JSON"
    return None


START = "SZS output start CNFRefutation"
QN = r"'((?:[^'\\]|\\.)*)'"
CNF = re.compile(r"\ncnf\(" + QN + r", plain, (\(.*?\)),\n  (input|inference\((\w+),\[([\w,]*)\],\[((?:'(?:[^'\\]|\\.)*'(?:, ?)?)*)\]\))\)\.", re.S)
FOF = re.compile(r"\nfof\(" + QN + r", (\w+), (.*?),\n  (input|inference\((\w+),\[([\w,]*)\],\[((?:'(?:[^'\\]|\\.)*'(?:, ?)?)*)\]\))\)\.", re.S)


def tptp_from_json(env, case, out, answers, lab):
    pos = 0
    parts = out.split("% " + START)
    if len(parts) != len(answers) + 1:
        return "%d SZS proofs for %d answers" % (len(parts) - 1, len(answers))
    for k, a in enumerate(answers):
        before, body = parts[k], parts[k + 1]
        m = re.search(r"\nanswer: (.*)\Z", before, re.S)
        if ("answer" in a) != bool(m):
            return "answer shown in one of TPTP and JSON: %s" % json.dumps(a.get("answer"))
        if m:
            t = m.group(1).strip()
            if not proofread.variant([c05.std(x) for x in proofread.tptp_clause(t)], [c05.std(x) for x in proofread.json_clause(a["answer"])]):
                return "answers differ: TPTP %r, JSON %s" % (t, json.dumps(a["answer"]))
        if "% SZS output end CNFRefutation" not in body:
            return "no SZS output end after a proof"
        body = body[:body.index("% SZS output end CNFRefutation")]
        body = "\n" + body[body.index("\n") + 1:]
        rest = body
        steps = []
        for m in CNF.finditer(body):
            steps.append(m)
            rest = rest.replace(m.group(0), "", 1)
        fofs = list(FOF.finditer(rest))
        for m in fofs:
            rest = rest.replace(m.group(0), "", 1)
        if rest.strip():
            return "unreadable part of a TPTP proof: %r" % rest[:300]
        if len(steps) != len(a["proof"]):
            return "%d TPTP steps, %d JSON steps" % (len(steps), len(a["proof"]))
        have = {unquote("'" + m.group(1) + "'"): m for m in fofs}
        for m, st in zip(steps, a["proof"]):
            if m.group(1) != str(st[0]):
                return "TPTP step %r, JSON step %s" % (m.group(0), json.dumps(st))
            srcs = [unquote("'" + x + "'") for x in re.findall(QN, m.group(6) or "")]
            r = st[1]
            if r[0] == "in":
                if len(r) > 1:
                    nm = [x[:-4] if x.endswith("_$sk") else x for x in srcs]
                    if m.group(4) != "cnf_transformation" or nm != [r[1]]:
                        if not (m.group(3) == "input"):
                            return "TPTP step %r, JSON step %s" % (m.group(0), json.dumps(st))
                    elif srcs[0] not in have:
                        lab.append("source not shown")
                elif m.group(3) != "input":
                    return "TPTP step %r, JSON step %s" % (m.group(0), json.dumps(st))
            else:
                js = [str(x[0] if isinstance(x, list) else x) for x in r[1:] if not isinstance(x, str)]
                if srcs != js:
                    return "TPTP step %r, JSON step %s" % (m.group(0), json.dumps(st))
                lab.append("rule:%s/%s" % (r[0], m.group(4)))
                if RULES.get(r[0], m.group(4)) != m.group(4):
                    return "rule names: TPTP step %r, JSON step %s" % (m.group(0), json.dumps(st))
        for nm, m in have.items():
            if m.group(5) == "negpush_and_skolemize":
                s = [unquote("'" + x + "'") for x in re.findall(QN, m.group(7))]
                if s != [nm[:-4]] or s[0] not in have:
                    return "the source of %r is not shown" % m.group(0)
        # read the printed formulas with gkc itself
        text = "".join(m.group(0) for m in steps) + "\n"
        read = {}
        for n, ro, c in c05.clausify(env, "gkc", "tptp", text):
            read.setdefault(n, []).append(c)
        for st in a["proof"]:
            c = [c05.std(x) for x in proofread.json_clause(st[2])]
            d = [[] if x == [["p", "$false"]] else x for x in read.get(str(st[0]), [])]
            if not d:
                if not c or trivial(c):
                    continue
                return "printed TPTP step %d reads back as nothing: JSON %s\n%s" % (st[0], json.dumps(st[2]), text)
            if len(d) > 1 or not proofread.variant(d[0], dedup(c)) and not proofread.variant(dedup(d[0]), dedup(c)):
                return "printed TPTP step %d reads back as %s, JSON %s" % (st[0], json.dumps(d), json.dumps(st[2]))
        lab.append("readback-steps")
        src = [m for nm, m in have.items() if m.group(4) == "input"]
        if src:
            text = "".join(m.group(0) for m in src) + "\n"
            R = c05.clausify(env, "gkc", "tptp", text)
            if "orig" not in case:
                case["orig"] = c05.clausify(env, "gkc", case["syntax"], lang.problem(case["stmts"], case["syntax"], case["q"]))
            nms = {unquote("'" + m.group(1) + "'") for m in src}
            m = c05.compare([x for x in case["orig"] if x[0] in nms], R, "statements shown in the TPTP proof", True)
            if m and "$df" not in m:
                return m + "\n" + text
            lab.append("readback-statements")
    return None


def trivial(c):
    """A clause the reader drops or reduces: with a literal and its negation, or t = t."""
    ls = [proofread.norm_lit(l) for l in c]
    return any(s and a[0] == "=" and a[1] == a[2] for s, a in ls) or any((not s, a) in ls for s, a in ls) or any(a[0] == "p" and a[1] in ("$true", "$false", "true", "false") for s, a in ls)


def dedup(c):
    out = []
    for l in c:
        l = list(l)
        if proofread.norm_lit(l) not in [proofread.norm_lit(x) for x in out]:
            out.append(l)
    return out


def one_json(out):
    """The list of JSON values, or None."""
    dec, i, res = json.JSONDecoder(), 0, []
    out = out.strip()
    try:
        while i < len(out):
            v, i = dec.raw_decode(out, i)
            res.append(v)
            while i < len(out) and out[i].isspace():
                i += 1
    except ValueError:
        return None
    return res


# ---------------------------------------------------------------- checking

def run_err(case, env):
    p = gkc.write("e" + gkc.EXT[case["syntax"]], case["text"])
    args = [p, "-mbsize", 50, "-parallel", 0, "-print", 10]
    if case["mode"] == "errstrat":
        args += ["-strategytext", case["strategy"], "-seconds", 1]
    else:
        args += ["-clausify"]
    j = gkc.run(env["gkc"], args + ["-json"], timeout=60)
    t = gkc.run(env["gkc"], args, timeout=60)
    lab = ["mode:" + case["mode"], "err" if j.error else "noerr"]
    if j.crashed or t.crashed:
        return skip("crash")          # C13's business
    if j.timeout or t.timeout or j.time_limit or t.time_limit:
        return skip("time")
    desc = "\n%s\n--- json:\n%s\n--- text:\n%s" % (case["text"] if case["mode"] == "err" else case["strategy"], j.out[:1500], t.out[:1500])
    if "\ufffd" in j.out:
        return ok(False, None, lab)   # a character cut in two in an excerpt
    vals = one_json(j.out)
    if vals is None:
        return viol("-json output is not JSON" + desc, lab)
    if len(vals) > 1 and case["mode"] == "err":
        return viol("-json output is more than one value" + desc, lab)
    if j.error != t.error:
        return viol("an error in only one of the formats" + desc, lab)
    if j.error and j.out.strip() != t.out.strip() and case["mode"] == "err":
        return viol("different errors in text and JSON" + desc, lab)
    return ok(j.error, case["text"] + str(case.get("strategy")), lab)


def run(case, env):
    if case["mode"] != "run":
        return run_err(case, env)
    text = lang.problem(case["stmts"], case["syntax"], case["q"])
    p = gkc.write("p" + gkc.EXT[case["syntax"]], text)
    base = [p, "-mbsize", 50, "-parallel", 0, "-strategytext", json.dumps(case["strategy"]), "-seconds", 20]
    res = {}
    lab = ["sub:" + case["sub"]]
    for f in ("", "-json", "-tptp"):
        t0 = time.monotonic()
        r = gkc.run(env["gkc"], base + ["-print", 10] + ([f] if f else []), timeout=120)
        if r.crashed:
            return viol("crash (%s): %s\n%s" % (f, " ".join(map(str, r.cmd[1:])), text), lab)
        if r.timeout or r.time_limit or time.monotonic() - t0 > 1.2:
            return skip("time")       # from half of its time (1.5 s) on a run depends on the clock
        res[f] = r
    if case["level"] != 10:
        res["level"] = gkc.run(env["gkc"], base + ["-print", case["level"], "-json"], timeout=120)
    T, J, P = res[""], res["-json"], res["-tptp"]
    desc = "\n%s%s\n--- text:\n%s\n--- json:\n%s\n--- tptp:\n%s" % (text, json.dumps(case["strategy"]), T.out[:4000], J.out[:4000], P.out[:6000])
    if all("cannot allocate" in x.out for x in (T, J, P)):
        return skip("memory")
    vals = one_json(J.out)
    if vals is None:
        return viol("-json output is not JSON" + desc, lab)
    many = case["strategy"].get("max_answers", 1) > 1
    if not vals:
        return viol("-json output is empty" + desc, lab)
    if len(vals) > 1 and not (many and all("answers" in v or v == {"result": "proof not found"} for v in vals)):
        return viol("-json output is more than one value" + desc, lab)
    if T.error or J.error or P.error:
        if T.error and J.error and P.error:
            return viol("error" + desc, lab)
        return viol("an error in only some of the formats" + desc, lab)
    proof = {"": "result: proof found" in T.out, "-json": vals[0].get("result") == "proof found", "-tptp": START in P.out}
    if len(set(proof.values())) > 1:
        return viol("verdicts differ: %s" % proof + desc, lab)
    if ("result: proof not found" in T.out) != (vals[-1].get("result") == "proof not found"):
        return viol("results differ" + desc, lab)
    if "level" in res:
        r = res["level"]
        v = one_json(r.out)
        if v is None or (proof[""] and v and v[0].get("result") != "proof found") or (not proof[""] and v and "proof found" in r.out) or (case["level"] > 0 and not v):
            return viol("with -print %d: %s" % (case["level"], r.out[:1500]) + desc, lab)
    lab.append("proof" if proof[""] else "noproof")
    if not proof[""]:
        return ok(False, None, lab)
    answers = [a for v in vals for a in v.get("answers", [])]
    if not answers:
        return viol("no proof in JSON" + desc, lab)
    try:
        msg = text_from_json(T.out, answers) or tptp_from_json(env, case, P.out, answers, lab)
    except (proofread.Bad, c05.Bad, ValueError, KeyError, IndexError, TypeError) as e:
        msg = "%s: %s" % (type(e).__name__, e)
    if msg:
        return viol(msg + desc, lab)
    n = max(len(a["proof"]) for a in answers)
    lab.append("answers:%d" % min(len(answers), 4))
    return ok(n >= 3, text + json.dumps(case["strategy"]), lab)


def shrinks(case):
    if case["mode"] != "run":
        for k in ("text", "strategy"):
            t = case.get(k) or ""
            n = max(1, len(t) // 8)
            while n:
                for a in range(0, len(t), n):
                    yield dict(case, **{k: t[:a] + t[a + n:]})
                n //= 2
        return
    case = {k: v for k, v in case.items() if k != "orig"}
    for it in fol.shrink_list(case["stmts"]):
        if it:
            yield dict(case, stmts=it)
    for i, s in enumerate(case["stmts"]):
        if s["name"] != "st%d" % i:
            yield dict(case, stmts=case["stmts"][:i] + [dict(s, name="st%d" % i)] + case["stmts"][i + 1:])
    st = case["strategy"]
    for k in list(st):
        if k not in ("strategy", "runs", "max_dseconds"):
            yield dict(case, strategy={a: b for a, b in st.items() if a != k})
    for nm in sorted(set(re.findall(r'\["[fp]", ("(?:[^"\\]|\\.)*")', json.dumps(case["stmts"])))):
        n0 = json.loads(nm)
        if not re.match(r"^[a-z]\d?$", n0) and not n0.startswith("$"):
            for new in "abgk":
                d = json.dumps(case["stmts"]).replace('"f", ' + nm, '"f", "%s"' % new).replace('"p", ' + nm, '"p", "%s"' % new)
                yield dict(case, stmts=json.loads(d))
                break


def describe(case):
    return lang.problem(case["stmts"], case["syntax"], case["q"]) + json.dumps(case["strategy"]) if case["mode"] == "run" else case["text"] + str(case.get("strategy"))
