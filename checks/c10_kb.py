"""C10 querying a shared-memory knowledge base equals reading the files together."""
import importlib, json, os, random, re
from vlib import build, engine, gkc
from vlib.engine import ok, viol, skip

PROP = "C10"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: decided problems split into a shared-memory base and a query, against the reference and the direct run"
LEVEL_NOTE = "sampled; the expected outcome is computed by a reference"
RULE = ("Problems of the checks C02, C06, C07, C08, C09 and C18 (with their references: decision procedures, evaluation, congruence closure, bottom-up answers) and of C03 (with its proof checker) are split at random: a part of the statements is loaded "
        "with -readkb, the rest is given to -usekb, sometimes as several files or texts, in the same or another language.  Verdict, answers and proof are judged exactly as for the direct run.  "
        "Non-trivial: both parts are not empty and the problem itself is non-trivial by the rule of its check.  Distinct by problem text, split and strategy.")
ASSUMPTIONS = ["an outcome which the direct run over the same statements also has is left to the check the problem comes from",
               "query_focus is judged only where the direct run with it reaches the expected outcome; the base is then consistent"]
CHUNK = 8
INNER = {"c02": "checks.c02_completeness", "c03": "checks.c03_proofs", "c06": "checks.c06_arith", "c07": "checks.c07_lists", "c08": "checks.c08_answers",
         "c09": "checks.c09_congruence", "c18": "checks.c18_presentation"}


def inner(k):
    return importlib.import_module(INNER[k])


def prepare(tier):
    small, plain = build.build("smallkb", "builtin"), build.build("plain", "builtin")
    env = {"kb": {k: dict(inner(k).prepare(tier), gkc=small, small=small, plain=plain, bison=small) for k in INNER}}
    return env


def plan(tier):
    k = 0.7 if tier == "quick" else 12
    return [(a, int(n * k)) for a, n in (("c02", 1000), ("c03", 350), ("c06", 900), ("c07", 900), ("c08", 1300), ("c09", 1100), ("c18", 700))]


def gen(kind, r, i, tier):
    m = inner(kind)
    pl = [x for x in m.plan("quick") if not (kind == "c02" and x[0] in ("factor",))]
    for _ in range(30):
        k = r.choices([p[0] for p in pl], [p[1] for p in pl])[0]
        c = m.gen(k, r, i, "quick")
        if c is None:
            continue
        if kind == "c18":
            c["tr"] = [t for t in c["tr"] if t not in ("files", "include", "layout")]
        if kind == "c02" and c["sub"] == "factor":
            continue
        return {"inner": kind, "case": c, "seed": r.randrange(1 << 30), "p": r.choice([0.2, 0.5, 0.8, 0.9]), "ways": r.choice([1, 1, 1, 2, 3]), "plan": r.random() < 0.15}
    return None


# ---------------------------------------------------------------- splitting

def goal(x):
    return "$ans" in x or re.match(r"\w+\([^,]*,\s*(negated_)?conjecture", x) if isinstance(x, str) else \
        isinstance(x, dict) and ("@question" in x or x.get("@role") in ("conjecture", "negated_conjecture")) or "$ans" in json.dumps(x)


def focus(case):
    return "query_focus" in json.dumps(case["case"].get("strategy", 0))


def parts(name, text, case):
    """(base text, [query texts]) or None."""
    r = random.Random(case["seed"])
    js = name.endswith(".js")
    if js:
        items = json.loads(text)
    else:
        items = [x for x in text.split("\n") if x.strip()]
    if len(items) < 2:
        items.append(["zzfiller", "zzc"] if js else "cnf(zf,axiom,zzfiller(zzc))." if re.match(r"\w+\(.*,", items[0]) and re.match("(cnf|fof)", items[0]) else "zzfiller(zzc).")
    side = [r.random() < case["p"] for _ in items]
    free = list(range(len(items)))
    if focus(case):
        # the search starts from the question, which belongs to the query
        goals = [k for k, x in enumerate(items) if goal(x)]
        if not goals:
            return None
        for k in goals:
            side[k] = False
        free = [k for k in free if k not in goals]
        if not free:
            return None
    if all(side):
        side[r.randrange(len(side))] = False
    if not any(side):
        side[r.choice(free)] = True
    kb = [x for x, s in zip(items, side) if s]
    qs = [[] for _ in range(case["ways"])]
    for x, s in zip(items, side):
        if not s:
            r.choice(qs).append(x)
    qs = [q for q in qs if q]
    put = (lambda z: json.dumps(z)) if js else (lambda z: "\n".join(z) + "\n")
    return put(kb), [put(q) for q in qs], js, r


def number(j=0):
    """A base number of this process."""
    n = 10_000_000 + os.getpid() * 16 + j
    with open(os.path.join(engine._ctx["scratch"], "kbs"), "a") as fh:
        fh.write("%d\n" % n)
    return n


def cleanup():
    """Removes bases left by ended workers."""
    try:
        nrs = set(open(os.path.join(engine._ctx["scratch"], "kbs")).read().split())
    except OSError:
        return
    try:
        live = {l.split()[0] for l in open("/proc/sysvipc/shm").readlines()[1:]}
    except OSError:
        live = nrs
    g = build.build("smallkb", "builtin")
    for n in nrs & live:
        gkc.run(g, ["-deletekb", "-mbnr", n])


class Split(Exception):
    pass


def hook(case, log):
    def h(binary, args, timeout, cwd):
        args = [str(a) for a in args]
        if "-clausify" in args or "-convert" in args or "-usekb" in args or "-readkb" in args or "-deletekb" in args:
            return None
        files = [a for a in args[:1] if not a.startswith("-")]
        if not files:
            return None
        if cwd:
            files = [os.path.join(cwd, files[0])]
        text = open(files[0], errors="surrogateescape").read()
        pt = parts(files[0], text, case)
        if pt is None:
            raise Split
        kb, qs, js, r = pt
        ext = os.path.splitext(files[0])[1]
        n = number()
        b = ["-readkb", gkc.write("base" + ext, kb)]
        if case["plan"]:
            b.append(gkc.write("plan.js", json.dumps({"strategy": ["unit"], "query_preference": 0})))
        try:
            x = gkc.run(binary, b + ["-mbnr", n, "-mbsize", 1000], timeout=60)
            log.append("readkb\n" + kb + x.out[:500])
            if x.crashed or x.timeout or x.rc or "Db ready" not in x.out:
                x.out = '{"error": "base not built"}\n' + x.out
                return x
            q = []
            for k, t in enumerate(qs):
                m = r.random()
                if m < 0.7 or "-text" in args or len(t) > 60000 or "\0" in t:
                    q.append(gkc.write("q%d%s" % (k, ext), t))
                else:
                    q += ["-jstext" if js else "-text", t]
                log.append("usekb %s\n" % q[-1][:60] + t)
            y = gkc.run(binary, ["-usekb"] + q + args[1:] + ["-mbnr", n], timeout=timeout)
            log.append(y.out[:3000])
            return y
        finally:
            gkc.run(binary, ["-deletekb", "-mbnr", n])
    return h


def run(case, env):
    m = inner(case["inner"])
    e = env["kb"][case["inner"]]
    log = []
    try:
        gkc.HOOK = hook(case, log)
        real = gkc.HOOK

        def guard(b, a, t, w):     # the hook's own runs are not hooked
            gkc.HOOK = None
            try:
                return real(b, a, t, w)
            finally:
                gkc.HOOK = guard
        gkc.HOOK = guard
        try:
            o = m.run(case["case"], e)
        except json.JSONDecodeError as ex:
            o = viol("the output is not JSON: %r" % ex)
    except Split:
        return skip("one statement", ["inner:" + case["inner"]])
    finally:
        gkc.HOOK = None
    lab = ["inner:" + case["inner"]]
    if o.status == "viol":
        if case["inner"] == "c03" and re.search(r"\$sk|\$df", o.msg.split("\n")[0]):
            return skip("invented names are numbered differently", lab)
        d = m.run(case["case"], e)
        if d.status != "ok":
            return skip("the direct run differs as well", lab)
        return viol("with a shared base, " + o.msg[:6000] + "\n---- the runs\n" + "\n".join(log)[:6000], lab + (o.labels or []))
    if o.status == "ok":
        o.key = json.dumps([case["seed"], o.key]) if o.key else None
        o.labels = lab + [l for l in o.labels if l.startswith(("kind:", "sub:"))]
        if not log:
            return skip("not split", lab)
    return o


def shrinks(case):
    m = inner(case["inner"])
    for c in m.shrinks(case["case"]):
        for s in (case["seed"], 1, 2, 3):
            yield dict(case, case=c, seed=s)
    for k, v in (("ways", 1), ("plan", False)):
        if case[k] != v:
            yield dict(case, **{k: v})


def describe(case):
    return "base and query from (split %d, share %s):\n%s" % (case["seed"], case["p"], inner(case["inner"]).describe(case["case"]))
