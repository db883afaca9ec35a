"""C12 runs are repeatable and parallel workers agree with sequential search."""
import json, os, random, re, resource, signal, subprocess, time
from vlib import build, engine, gkc, proofread
from vlib.engine import ok, viol, skip
from checks import c10_kb

PROP = "C12"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: repeated, multi-run and parallel runs of generated problems against single sequential runs"
LEVEL_NOTE = "sampled; schedules of the workers are those which occur"
RULE = ("Problems of the checks C02, C03, C06, C07, C08, C09 and C18 with generated strategies.  repeat: the same command several times with other environments, directories, memory sizes and sessions prints the same bytes.  "
        "state: a list of runs whose first ones end without a proof finds a proof if its last run finds one alone.  parallel: a list of runs is given to 2..6 workers: a proof is reported exactly if one of its runs finds one alone, it is one of these proofs if there are as many workers as runs, "
        "exactly one result is printed and no process is left.  kill: workers are gone after the main process is ended by a signal or by the time limit.  Non-trivial: a proof or answers (repeat, state), runs with different outcomes (parallel), "
        "workers seen before the end (kill).  Distinct by problem and strategies.")
ASSUMPTIONS = ["runs which use more than a small share of their time limit are not compared: the search changes its behaviour near the limit",
               "when fewer answers exist than were asked for, each worker reports those it found",
               "automatically chosen runs are limited in time, so that they are compared only if they end at once"]
CHUNK = 4
PROCS = 8


def prepare(tier):
    return {"kb": {k: c10_kb.inner(k).prepare(tier) for k in c10_kb.INNER}, "gkc": build.build("small", "builtin"), "plain": build.build("plain", "builtin")}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(a, int(n * k)) for a, n in (("repeat", 1000), ("state", 700), ("parallel", 280), ("kill", 40))]


def strategy(r):
    s = gkc.gen_strategy(r, multi=0, experimental=False)
    s.pop("runs", None)
    for k in ("max_seconds", "max_dseconds"):
        s.pop(k, None)
    return s


def weak(r):
    """A strategy which usually ends soon without a proof."""
    s = strategy(r)
    s[r.choice(["max_weight", "max_size", "max_length", "max_depth"])] = 1
    return s


def gen(kind, r, i, tier):
    k = r.choices(list(c10_kb.INNER), [3, 2, 1, 1, 2, 1, 1])[0]
    m = c10_kb.inner(k)
    c = None
    if kind != "kill":
        for _ in range(30):
            pl = m.plan("quick")
            c = m.gen(r.choices([p[0] for p in pl], [p[1] for p in pl])[0], r, i, "quick")
            if c is not None:
                break
        else:
            return None
    q = {"kind": kind, "inner": k, "case": c, "json": r.random() < 0.5, "seed": r.randrange(1 << 30)}
    if kind == "repeat":
        q["strat"] = None if r.random() < 0.2 else {"runs": [strategy(r) for _ in range(r.randrange(2, 4))]} if r.random() < 0.2 else strategy(r)
    elif kind == "state":
        q["strat"] = [weak(r) if r.random() < 0.7 else strategy(r) for _ in range(r.randrange(1, 4))] + [strategy(r)]
        for k in ("max_weight", "max_size", "max_length", "max_depth"):
            q["strat"][-1].pop(k, None)
    elif kind == "parallel":
        q["strat"] = [weak(r) if r.random() < 0.5 else strategy(r) for _ in range(r.choice([1, 2, 2, 3, 4, 6]))]
        q["workers"] = r.choice([2, 2, 3, 4, 4, 6])
    else:
        q["workers"], q["how"], q["ms"] = r.choice([2, 4, 5]), r.choice(["TERM", "KILL", "INT", "HUP", "limit"]), r.choice([30, 60, 100, 250])
    if q.get("strat") is not None and r.random() < 0.3:
        for s in q["strat"] if isinstance(q["strat"], list) else [q["strat"]]:
            s["max_answers"] = 1
    return q


class Got(Exception):
    pass


def problem(case, env):
    """Path and text of the problem as its check writes it."""
    m = c10_kb.inner(case["inner"])
    got = []

    def h(b, a, t, w):
        a = [str(x) for x in a]
        if a[0].startswith("-") or "-clausify" in a or "-convert" in a:
            return None
        got.append(os.path.join(w or "", a[0]))
        raise Got
    gkc.HOOK = h
    try:
        m.run(case["case"], env["kb"][case["inner"]])
    except Got:
        pass
    finally:
        gkc.HOOK = None
    if not got:
        return None
    t = open(got[0], errors="surrogateescape").read()
    if "include" in t:
        return None
    return gkc.write("problem" + os.path.splitext(got[0])[1], t.encode("utf-8", "surrogateescape"))


def cpu():
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    return u.ru_utime + u.ru_stime


def args(p, case, strat, seconds=10, par=0, mb=60):
    a = [p, "-mbsize", mb, "-print", 10, "-parallel", par, "-seconds", seconds]
    if case["json"]:
        a.append("-json")
    if strat is not None:
        a += ["-strategytext", json.dumps(strat)]
    return a


def results(out):
    return len(re.findall(r'^result: |^\{"result"|^"result"', out, re.M))


def left(pgid):
    """Live processes of a process group."""
    n = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(s[2]) == pgid and s[0] not in "ZX":
                n.append(int(d))
    return n


def group(binary, a, timeout=40, kill=None):
    """Run in a process group of its own: (Res, processes left over, processes seen before a signal)."""
    cmd = [binary] + [str(x) for x in a]
    outf = gkc.write("group.out", "")
    with open(outf, "w") as fh:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=fh, stderr=subprocess.STDOUT, start_new_session=True, env=gkc.ENV)
    seen, to = 0, False
    try:
        if kill:
            t0 = time.time()
            while time.time() - t0 < 3 and not seen and p.poll() is None:
                seen = len(left(p.pid)) - 1
            time.sleep(kill[1] / 1000)
            seen = len(left(p.pid)) - 1
            if kill[0] != "limit":
                p.send_signal(getattr(signal, "SIG" + kill[0]))
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        rest = left(p.pid)
        t0 = time.time()
        while rest and time.time() - t0 < 10:
            time.sleep(0.02)
            rest = left(p.pid)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return gkc.Res(None if to else p.returncode, open(outf, errors="replace").read(), to, cmd), rest, seen


HARD = "\n".join(["-p(X,Y) | -p(Y,Z) | p(X,f(Z)).", "p(a,b). p(b,a). p(f(a),g(b)).", "-p(X,Y) | p(g(X),Y) | q(Y).", "-q(X) | p(X,X).", "-r(a)."]) + "\n"


def body(out):
    """Output without the strategy and run lines, to compare a run of a list with the run alone."""
    ls = [l for l in out.split("\n")]
    for i, l in enumerate(ls):
        if re.match(r'^result: proof found|^\{"result": "proof found"', l):
            return "\n".join(ls[i:]).strip()
    return "\n".join(ls).strip()


def run(case, env):
    lab = ["kind:" + case["kind"]]
    g = env["gkc"]
    if case["kind"] == "kill":
        p = gkc.write("hard.txt", HARD)
        a = [p, "-mbsize", 200, "-print", 10, "-parallel", case["workers"], "-seconds", 1 if case["how"] == "limit" else 15]
        r, rest, seen = group(g, a, kill=(case["how"], case["ms"]))
        lab.append("how:" + case["how"])
        desc = "\n%s\n%s" % (" ".join(r.cmd[1:]), r.out[:1000])
        if rest:
            return viol("%d processes left" % len(rest) + desc, lab)
        if r.timeout:
            return viol("does not end" + desc, lab)
        if case["how"] == "limit" and (results(r.out) != 1 or not r.time_limit):
            return viol("not exactly one result at the time limit" + desc, lab)
        return ok(seen >= case["workers"], json.dumps(case), lab)
    p = problem(case, env)
    if p is None:
        return skip("no problem file", lab)
    text = open(p, errors="replace").read()
    lab.append("inner:" + case["inner"])
    key = json.dumps([text, case.get("strat"), case.get("workers"), case["json"]])
    if case["kind"] == "repeat":
        r = random.Random(case["seed"])
        outs = []
        for k in range(3):
            mb = [60, 60, 90][k]
            e = {"FILLER": "x" * r.choice([0, 1, 100, 5000]), "HOME": r.choice(["/", "/tmp"])} if k else None
            c0 = cpu()
            b = g
            x = gkc.run(b, args(p, case, case["strat"], mb=mb), timeout=60, env=e, cwd="/" if k == 2 else None)
            c = cpu() - c0
            if c > (0.05 if case["strat"] is None else 1.5) or x.timeout or x.time_limit:
                return skip("time", lab)
            if x.crashed:
                return viol("crash" + "\n%s\n%s" % (" ".join(map(str, x.cmd[1:])), text[:2000]), lab)
            outs.append(x)
        if any(x.out != outs[0].out or x.rc != outs[0].rc for x in outs):
            if case["strat"] is None and any("proof" not in x.out for x in outs):
                return skip("time", lab)
            return viol("another output in a repeated run\n%s\n%s\n%s" % (" ".join(map(str, outs[0].cmd[1:])), text[:2000], "\n-----\n".join(x.out[:1500] for x in outs)), lab)
        return ok(outs[0].proof, key, lab)
    alone = []
    for s in case["strat"]:
        c0 = cpu()
        x = gkc.run(g, args(p, case, s), timeout=60)
        if cpu() - c0 > 0.7 or x.timeout or x.time_limit:
            return skip("time", lab)
        if x.crashed or x.error:
            return skip("crash or error", lab)
        if x.proof and x.noproof:
            return skip("fewer answers than asked for", lab)
        alone.append(x)
    if case["kind"] == "state":
        k = next((j for j, x in enumerate(alone) if x.proof), None)
        if k is None or k == 0 and len(alone) > 1 and not alone[-1].proof:
            k = len(alone) - 1
        k = len(alone) - 1
        if any(x.proof for x in alone[:k]):
            # use only the runs without proof and the last one
            runs = [s for s, x in zip(case["strat"][:-1], alone) if not x.proof] + [case["strat"][-1]]
            k = len(alone) - 1
        else:
            runs = case["strat"][:k + 1]
        if len(runs) < 2:
            return skip("no run without proof", lab)
        x = gkc.run(g, args(p, case, {"runs": runs}), timeout=60)
        if x.time_limit or x.timeout:
            return skip("time", lab)
        last = alone[k]
        # the first runs sort the literals of the input, so that another proof may be found
        if x.crashed or last.proof and (not x.proof or results(x.out) != 1) or not last.proof and not x.proof and not x.noproof:
            return viol("the last run of a list ends otherwise than alone\n%s\n%s\n---- alone\n%s\n---- in the list\n%s\n%s" % (json.dumps(runs), text[:2000], body(last.out)[:2000], x.rc, body(x.out)[:2000]), lab)
        return ok(last.proof, key, lab + ["runs:%d" % len(runs)])
    # parallel
    strat = {"runs": case["strat"]} if len(case["strat"]) > 1 else case["strat"][0]
    x, rest, _ = group(g, args(p, case, strat, par=case["workers"]))
    want = any(a.proof for a in alone)
    desc = "\n%s\n%s\n---- alone: %s\n---- together\n%s" % (" ".join(x.cmd[1:]), text[:2000], [a.verdict() for a in alone], x.out[:3000])
    if x.timeout:
        return viol("does not end" + desc, lab)
    if rest:
        return viol("%d processes left" % len(rest) + desc, lab)
    if x.crashed or x.rc and not x.time_limit:
        return viol("status %s" % x.rc + desc, lab)
    if x.time_limit:
        return skip("time", lab)
    if results(x.out) != 1:
        return viol("not exactly one result" + desc, lab)
    if x.proof != want:
        return viol("proof reported: %s, found by a run alone: %s" % (x.proof, want) + desc, lab)
    # a worker with several runs starts the later ones with sorted literals
    if want and len(case["strat"]) <= case["workers"] and body(x.out) not in [body(a.out) for a in alone if a.proof]:
        return viol("the proof is not one of those found alone" + desc + "\n----\n" + "\n----\n".join(body(a.out)[:1500] for a in alone if a.proof), lab)
    return ok(want and not all(a.proof for a in alone), key, lab + ["workers:%d" % case["workers"], "proofs:%d of %d" % (sum(a.proof for a in alone), len(alone))])


def shrinks(case):
    if case["kind"] == "kill":
        return
    for c in c10_kb.inner(case["inner"]).shrinks(case["case"]):
        yield dict(case, case=c)
    if isinstance(case["strat"], list):
        for i in range(len(case["strat"])):
            if len(case["strat"]) > 1:
                yield dict(case, strat=case["strat"][:i] + case["strat"][i + 1:])
        for i, s in enumerate(case["strat"]):
            for k in s:
                if k != "strategy":
                    yield dict(case, strat=case["strat"][:i] + [{a: b for a, b in s.items() if a != k}] + case["strat"][i + 1:])
            for j in range(len(s["strategy"])):
                if len(s["strategy"]) > 1:
                    yield dict(case, strat=case["strat"][:i] + [dict(s, strategy=s["strategy"][:j] + s["strategy"][j + 1:])] + case["strat"][i + 1:])


def describe(case):
    d = {k: v for k, v in case.items() if k not in ("case",)}
    return json.dumps(d) + ("\n" + c10_kb.inner(case["inner"]).describe(case["case"]) if case["case"] else "")
