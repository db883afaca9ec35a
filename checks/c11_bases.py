"""C11 shared knowledge bases are isolated, unchanged by queries, and survive dumps."""
import ctypes, json, os, random, resource, signal, subprocess, time, zlib
from vlib import build, engine, gkc
from vlib.engine import ok, viol, skip
from checks import c10_kb

PROP = "C11"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: random histories of base commands with faults against a model of the bases"
LEVEL_NOTE = "sampled histories; the expected answers are computed by a model"
RULE = ("Histories of 6..14 operations over three base numbers and two dump files: building a base from a generated theory, from unreadable input or killed while reading; queries, alone, several at once over several bases, and killed; "
        "writing and loading dumps, also killed on the way or with a full disk; building and writing at once; deleting; damaging dumps (bytes changed, cut, extended, replaced, removed).  A theory is a directed graph over names, strings, "
        "integers of both sizes, reals and lists with the rules of its transitive closure; a query adds edges and asks all nodes reached from a node, or about one pair.  The model knows for each base and dump which theory it holds: a query "
        "must give exactly the answers of that theory, or, if there is no complete base, an error and no answer.  The bytes of each segment are compared before and after each query.  "
        "Non-trivial: a query was answered correctly by a base while another base existed, or after a dump and load, a kill or damage.  Distinct by history.")
ASSUMPTIONS = ["after a failed or killed -readkb of a number the earlier base of this number may be gone or kept",
               "a killed -writekb leaves either no usable dump or a complete one", "a query which runs out of time is not judged"]
CHUNK = 1
PROCS = 6

VOC = [("a", "a"), ("b", "b"), ("c", "c"), ("'odd Name'", "odd Name"), ('"s t"', "#:s t"), ('"a string which is longer than thirty two bytes"', "#:a string which is longer than thirty two bytes"),
       ("a_name_which_is_longer_than_thirty_two_bytes", "a_name_which_is_longer_than_thirty_two_bytes"),
       ("3", 3), ("-7", -7), ("5000000000", 5000000000), ("-98765432101234", -98765432101234), ("0.5", 0.5), ("-1234.25", -1234.25), ("[1,[a]]", ["$list", 1, ["$list", ["$list", "a", "$nil"], "$nil"]]),
       ("f(a,g(b))", ["f", "a", ["g", "b"]]), ("[\"s t\",5000000000]", ["$list", "#:s t", ["$list", 5000000000, "$nil"]])]
BAD = ["p(a) p(b", "p(a). p(", "fof(a,axiom", "p(a). include('nofile').", "", "% nothing", "p(a). q(X)=.", "e(a,\"b). ", "]["]
STR = [["unit"], ["negative_pref"], ["query_focus"], ["negative_pref", "posunitpara"]]


def prepare(tier):
    return {"gkc": build.build("smallkb", "builtin")}


def plan(tier):
    return [("history", 260 if tier == "quick" else 4000)]


def theory(r):
    n = r.choice([3, 4, 5, 6, 8])
    v = r.sample(range(len(VOC)), n)
    m = r.choice([1, 2, 4, 6, 9, 40])
    if m == 40:
        # many names
        k = r.choice([50, 300])
        return {"edges": [[r.choice(v), r.choice(v)] for _ in range(5)], "pad": k}
    return {"edges": [[r.choice(v), r.choice(v)] for _ in range(m)], "pad": 0}


def ask(r):
    n = len(VOC)
    return {"extra": [[r.randrange(n), r.randrange(n)] for _ in range(r.choice([0, 0, 1, 2, 3]))], "src": r.random(), "dst": r.random() if r.random() < 0.3 else None,
            "strat": r.choice(STR), "par": 4 if r.random() < 0.06 else r.choice([0, 0, 1]), "far": r.random() < 0.1}


def gen(kind, r, i, tier):
    ops = [["read", 0, theory(r)], ["ask", 0, ask(r)]]
    w = [("read", 3), ("ask", 6), ("many", 3), ("killask", 1), ("write", 3), ("load", 3), ("delete", 1), ("bad", 1), ("killread", 1), ("killwrite", 0.7), ("killload", 0.7), ("full", 0.7), ("rw", 1), ("damage", 1.5)]
    for _ in range(r.randrange(4, 13)):
        o = r.choices([x for x, _ in w], [y for _, y in w])[0]
        b, d = r.randrange(3), r.randrange(2)
        if o in ("read", "killread"):
            ops.append([o, b, theory(r)] + ([r.choice([0, 0.02, 0.2, 0.9])] if o == "killread" else []))
        elif o == "bad":
            ops.append([o, b, r.randrange(len(BAD))])
        elif o == "ask":
            ops.append([o, b, ask(r)])
        elif o == "killask":
            ops.append([o, b, ask(r), r.choice([0, 1, 3, 10])])
        elif o == "many":
            ops.append([o, [[r.randrange(3), ask(r), r.choice([None, None, None, 0, 2, 5])] for _ in range(r.randrange(2, 6))]])
        elif o == "write":
            ops.append([o, b, d])
        elif o == "full":
            ops.append([o, b, d, r.choice([1, 100, 4000, 4097, 100000, 30000000, r.randrange(50000000)])])
        elif o == "killwrite":
            ops.append([o, b, d, r.choice([0, 5, 20, 40, 80, 150])])
        elif o == "load":
            ops.append([o, d, b])
        elif o == "killload":
            ops.append([o, d, b, r.choice([0, 10, 30, 60, 90, 120, 160])])
        elif o == "rw":
            ops.append([o, b, d, theory(r)])
        elif o == "delete":
            ops.append([o, b])
        elif o == "damage":
            ops.append([o, d, r.choice(["byte", "byte", "cut", "cutlast", "add", "empty", "text", "remove", "zero", "swap"]), r.randrange(1 << 30)])
            if r.random() < 0.6:
                ops.append(["load", d, r.randrange(3)])
        if r.random() < 0.3:
            ops.append(["ask", r.randrange(3), ask(r)])
    return {"kind": kind, "ops": ops}


# ---------------------------------------------------------------- model

def text(th):
    s = "".join("e(%s,%s).\n" % (VOC[a][0], VOC[b][0]) for a, b in th["edges"])
    s += "".join("pad(k%d,\"pad string number %d which is long enough\",%d).\n" % (k, k, 3000000000 + k) for k in range(th["pad"]))
    return s + "-e(X,Y) | t(X,Y).\n-e(X,Y) | -t(Y,Z) | t(X,Z).\n"


def reach(edges, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for p, q in edges:
            if p == x and q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def query(q, th):
    """(text, expected set of answers or None/True/False for a pair)"""
    edges = th["edges"] + q["extra"] if th else q["extra"]
    nodes = sorted({x for e in edges for x in e}) or [0]
    if q["far"]:
        nodes = list(range(len(VOC)))
    a = nodes[int(q["src"] * len(nodes))]
    s = "".join("e(%s,%s).\n" % (VOC[x][0], VOC[y][0]) for x, y in q["extra"])
    got = reach(edges, a)
    if q["dst"] is None:
        return s + "-t(%s,X) | $ans(X).\n" % VOC[a][0], got
    b = nodes[int(q["dst"] * len(nodes))]
    return s + "-t(%s,%s).\n" % (VOC[a][0], VOC[b][0]), b in got


libc = ctypes.CDLL(None, use_errno=True)
libc.shmat.restype = ctypes.c_void_p
libc.shmat.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int]
libc.shmdt.argtypes = [ctypes.c_void_p]
libc.shmget.argtypes = [ctypes.c_int, ctypes.c_size_t, ctypes.c_int]


def seg_hash(key):
    """(size, checksum of the used part) of the segment, None if there is none."""
    i = libc.shmget(key, 0, 0)
    if i < 0:
        return None
    p = libc.shmat(i, None, 0o10000)
    if p in (None, ctypes.c_void_p(-1).value):
        return None
    try:
        n = 54_000_000
        return zlib.adler32((ctypes.c_char * n).from_address(p))
    finally:
        libc.shmdt(p)


class World:
    def __init__(self, env):
        self.g = env["gkc"]
        self.nr = [c10_kb.number(4 + j) for j in range(3)]
        self.dir = os.path.join(engine.scratch(), "kb%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.dump = [os.path.join(self.dir, "dump%d" % j) for j in range(2)]
        self.base = [(None,)] * 3       # the possible theories, None: no usable base
        self.dumps = [(None,)] * 2
        self.log = []
        self.sums = {}

    def close(self):
        for n in self.nr:
            gkc.run(self.g, ["-deletekb", "-mbnr", n])
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)

    def path(self, name, t):
        p = os.path.join(self.dir, name)
        with open(p, "w") as fh:
            fh.write(t)
        return p

    def run(self, *a, **k):
        r = gkc.run(self.g, [str(x) for x in a], timeout=60, **k)
        self.log.append("$ gkc %s\n%s(status %s)" % (" ".join(map(str, a)), r.out[:1200], r.rc))
        return r

    def start(self, args, limit=None):
        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.Popen([self.g] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=gkc.ENV,
                                preexec_fn=pre if limit is not None else None)

    def end(self, p, kill_after=None):
        """Result of a started process; killed with its workers after the given milliseconds."""
        if kill_after is not None:
            try:
                p.wait(kill_after / 1000)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            out, _ = p.communicate(timeout=60)
            to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            to = True
        r = gkc.Res(None if to else p.returncode, out.decode("utf-8", "replace"), to, p.args)
        self.log.append("$ gkc %s%s\n%s(status %s)" % (" ".join(p.args[1:]), "" if kill_after is None else "   killed after %s ms" % kill_after, r.out[:1200], r.rc))
        return r

    # what a command has to report

    def good(self, r, say):
        if r.crashed or r.timeout:
            return "a command crashes or does not end"
        if r.rc != 0 or r.error or say and say not in r.out:
            return "a command fails though nothing is wrong"

    def bad(self, r):
        if r.crashed or r.timeout:
            return "a command crashes or does not end"
        if not r.rc or not r.error:
            return "no error reported"
        if r.proof or r.noproof:
            return "a result beside an error"

    def args(self, b, q, th):
        t, exp = query(q, th)
        # query_focus without a question does not end on cyclic graphs
        s = {"strategy": ["negative_pref"] if q["dst"] is not None and "query_focus" in q["strat"] else q["strat"], "max_answers": 40}
        return ["-usekb", "-text", t, "-mbnr", self.nr[b], "-mbsize", 50, "-json", "-print", 10, "-parallel", q["par"], "-seconds", 3, "-strategytext", json.dumps(s)], exp

    def judge(self, r, q, th):
        if th is None:
            return self.bad(r)
        if r.crashed or r.timeout:
            return "a query crashes or does not end"
        _, exp = query(q, th)
        if r.time_limit:
            return None
        if r.error or r.rc:
            return "a query of a complete base fails: status %s" % r.rc
        if q["dst"] is not None:
            if r.proof != exp:
                return "answered %s, expected %s" % (r.proof, exp)
            if not r.proof and not r.noproof:
                return "no result"
            return None
        got = []
        try:
            from vlib import proofread
            for x in proofread.json_values(r.out):
                for a in x.get("answers", []) if isinstance(x, dict) else []:
                    if "answer" not in a or len(a["answer"]) != 1 or a["answer"][0][0] != "$ans":
                        return "not an answer"
                    got.append(json.dumps(a["answer"][0][1]))
        except ValueError:
            return "the output is not JSON"
        want = sorted(json.dumps(VOC[k][1]) for k in exp)
        if q["par"] > 1:
            got = set(got)      # each worker which finds fewer answers than asked for reports them
        if sorted(got) != want:
            return "wrong answers: %s, expected %s" % (sorted(got), want)

    def judge_any(self, r, q, b):
        """The outcome has to fit one of the possible states of the base, which is then known."""
        es = []
        for th in self.base[b]:
            e = self.judge(r, q, th)
            if not e:
                if len(self.base[b]) > 1 and (th is None or sum(1 for x in self.base[b] if not self.judge(r, q, x)) == 1):
                    self.base[b] = (th,)
                return None
            es.append(e)
        return es[0]

    def args_any(self, b, q):
        # the nodes are taken from the last possible theory
        th = [x for x in self.base[b] if x is not None]
        return self.args(b, q, th[-1] if th else None)[0]


def run(case, env):
    w = World(env)
    lab, nontriv = [], False
    try:
        e = None
        hit = set()
        for o in case["ops"]:
            lab.append("op:" + o[0])
            w.log.append("--- %s" % json.dumps(o)[:300])
            e, done = step(w, o, hit)
            if e:
                break
            nontriv = nontriv or done
        if e is None:
            for b in range(3):
                q = {"extra": [], "src": 0.0, "dst": None, "strat": ["unit"], "par": 0, "far": False}
                if len(w.base[b]) > 1:
                    continue
                w.log.append("--- at the end")
                e = w.judge(w.run(*w.args(b, q, w.base[b][0])[0]), q, w.base[b][0])
                if e:
                    break
        if e:
            return viol("%s: step %s\n%s\n%s" % (e.split(":")[0], o[0], e, "\n".join(w.log)[-7000:]), lab)
    finally:
        w.close()
    return ok(nontriv, json.dumps(case["ops"]), lab)


def step(w, o, hit):
    k = o[0]
    if k in ("read", "bad"):
        b = o[1]
        p = w.path("in.txt", text(o[2]) if k == "read" else BAD[o[2]])
        r = w.run("-readkb", p, "-mbnr", w.nr[b], "-mbsize", 1000)
        if k == "read":
            e = w.good(r, "Db ready")
            w.base[b] = (o[2],)
            return e, False
        hit.add("bad")
        w.base[b] = tuple(dict.fromkeys([None])) + tuple(x for x in w.base[b] if x is not None)
        return w.bad(r), False
    if k == "killread":
        b = o[1]
        p = os.path.join(w.dir, "pipe.txt")
        if os.path.exists(p):
            os.unlink(p)
        os.mkfifo(p)
        pr = w.start(["-readkb", p, "-mbnr", w.nr[b], "-mbsize", 1000])
        fd = os.open(p, os.O_RDWR)     # never blocks; the reader does not see the end of the file
        t = text(o[2])
        os.write(fd, t[:int(len(t) * o[3])].encode()[:4000])
        t0 = time.time()
        while time.time() - t0 < 0.3 and pr.poll() is None and libc.shmget(w.nr[b], 0, 0) < 0:
            time.sleep(0.005)
        time.sleep(0.02)
        w.end(pr, 0)
        os.close(fd)
        os.unlink(p)
        hit.add("kill")
        w.base[b] = (None,) + tuple(x for x in w.base[b] if x is not None)
        return None, False
    if k == "ask":
        b = o[1]
        h = seg_hash(w.nr[b])
        r = w.run(*w.args_any(b, o[2]))
        e = w.judge_any(r, o[2], b) or (None if seg_hash(w.nr[b]) == h else "the base changes during a query")
        others = sum(1 for x in w.base if x[0] is not None)
        return e, w.base[b][0] is not None and (bool(hit) or others > 1)
    if k == "killask":
        b = o[1]
        h = seg_hash(w.nr[b])
        w.end(w.start(w.args_any(b, o[2])), o[3])
        hit.add("kill")
        return None if seg_hash(w.nr[b]) == h else "the base changes during a killed query", False
    if k == "many":
        h = [seg_hash(n) for n in w.nr]
        ps = [(b, q, kill, w.start(w.args_any(b, q))) for b, q, kill in o[1]]
        e = None
        for b, q, kill, p in sorted(ps, key=lambda x: -1 if x[2] is None else -2):
            r = w.end(p, kill)
            if kill is None:
                e = e or w.judge_any(r, q, b)
        e = e or (None if [seg_hash(n) for n in w.nr] == h else "the base changes during queries")
        return e, sum(1 for b, _, kill in o[1] if kill is None and w.base[b][0] is not None) > 1
    if k == "write":
        b, d = o[1:]
        r = w.run("-writekb", w.dump[d], "-mbnr", w.nr[b])
        if len(w.base[b]) > 1:
            # the state gets known by the outcome
            good = not w.good(r, None)
            e = None if good else w.bad(r)
            if e:
                return e, False
            w.base[b] = tuple(x for x in w.base[b] if (x is not None) == good)
        if w.base[b] == (None,):
            return w.bad(r), False
        hit.add("dump")
        w.dumps[d] = w.base[b]
        return w.good(r, None), False
    if k == "full":
        b, d, left = o[1:]
        if w.base[b] == (None,) or len(w.base[b]) > 1:
            return None, False
        tmp = os.path.join(w.dir, "tmp")
        e = w.good(w.run("-writekb", tmp, "-mbnr", w.nr[b]), None)
        if e:
            return e, False
        n = os.path.getsize(tmp)
        os.unlink(tmp)
        r = w.end(w.start(["-writekb", w.dump[d], "-mbnr", w.nr[b]], limit=max(0, n - left)))
        w.dumps[d] = (None,)
        hit.add("full")
        return w.bad(r), False
    if k == "killwrite":
        b, d, ms = o[1:]
        if len(w.base[b]) > 1:
            return None, False
        w.end(w.start(["-writekb", w.dump[d], "-mbnr", w.nr[b]]), ms)
        hit.add("kill")
        w.dumps[d] = tuple(dict((json.dumps(x), x) for x in (None,) + w.dumps[d] + w.base[b]).values())
        return None, False
    if k in ("load", "killload"):
        d, b = o[1:3]
        a = ["-loadkb", w.dump[d], "-mbnr", w.nr[b]]
        if k == "killload":
            w.end(w.start(a), o[3])
            hit.add("kill")
            w.base[b] = tuple(dict((json.dumps(x), x) for x in (None,) + w.base[b] + w.dumps[d]).values())
            return None, False
        r = w.run(*a)
        good = not w.good(r, "imported")
        if len(w.dumps[d]) > 1:
            w.dumps[d] = tuple(x for x in w.dumps[d] if (x is not None) == good)
            if not w.dumps[d]:
                return "cannot be loaded", False
        if w.dumps[d] == (None,):
            return w.bad(r), False
        hit.add("load")
        e = w.good(r, "imported")
        w.base[b] = w.dumps[d]
        return e, False
    if k == "rw":
        b, d, th = o[1:]
        r = w.run("-readwritekb", w.path("in.txt", text(th)), w.dump[d], "-mbnr", w.nr[b], "-mbsize", 1000)
        w.base[b] = w.dumps[d] = (th,)
        hit.add("dump")
        return w.good(r, "Database written"), False
    if k == "delete":
        b = o[1]
        r = w.run("-deletekb", "-mbnr", w.nr[b])
        w.base[b] = (None,)
        if seg_hash(w.nr[b]) is not None:
            return "a deleted base is still there", False
        return w.good(r, None), False
    if k == "damage":
        d, how, s = o[1:]
        p = w.dump[d]
        rr = random.Random(s)
        if not os.path.exists(p):
            return None, False
        n = os.path.getsize(p)
        hit.add("damage")
        if how == "remove":
            os.unlink(p)
        elif how in ("empty", "text"):
            with open(p, "w") as fh:
                fh.write("" if how == "empty" else text({"edges": [[0, 1]], "pad": 0}))
        elif how in ("cut", "cutlast"):
            os.truncate(p, max(0, n - (1 if how == "cutlast" else rr.choice([8, 4096, rr.randrange(1, n + 1), n - rr.randrange(100, 9000)]))) if n else 0)
        elif how == "add":
            with open(p, "ab") as fh:
                fh.write(b"x" * rr.choice([1, 8, 8192]))
        elif n:
            with open(p, "r+b") as fh:
                for _ in range(100):
                    at = rr.choice([rr.randrange(n), rr.randrange(min(n, 4000)), rr.randrange(min(n, 64)), n - 1 - rr.randrange(min(n, 500))])
                    ln = {"byte": 1, "zero": 16, "swap": 2}[how]
                    fh.seek(at)
                    old = fh.read(ln)
                    new = {"byte": bytes(x ^ (1 << rr.randrange(8)) for x in old), "zero": bytes(len(old)), "swap": old[::-1]}[how]
                    if new != old:
                        fh.seek(at)
                        fh.write(new)
                        break
                else:
                    return None, False
        else:
            return None, False
        w.dumps[d] = (None,)
        return None, False
    raise ValueError(k)


def cleanup():
    c10_kb.cleanup()


def shrinks(case):
    ops = case["ops"]
    for n in (8, 4, 2, 1):
        for k in range(0, len(ops), n):
            if len(ops) > n:
                yield dict(case, ops=ops[:k] + ops[k + n:])
    for k, o in enumerate(ops):
        for j, x in enumerate(o):
            if isinstance(x, dict) and "edges" in x:
                if x["pad"]:
                    yield dict(case, ops=ops[:k] + [o[:j] + [dict(x, pad=0)] + o[j + 1:]] + ops[k + 1:])
                for m in range(len(x["edges"])):
                    yield dict(case, ops=ops[:k] + [o[:j] + [dict(x, edges=x["edges"][:m] + x["edges"][m + 1:])] + o[j + 1:]] + ops[k + 1:])
            if isinstance(x, dict) and "extra" in x:
                for key, v in (("extra", []), ("par", 0), ("dst", None), ("strat", ["unit"]), ("far", False)):
                    if x[key] != v:
                        yield dict(case, ops=ops[:k] + [o[:j] + [dict(x, **{key: v})] + o[j + 1:]] + ops[k + 1:])
        if o[0] == "many":
            for m in range(len(o[1])):
                yield dict(case, ops=ops[:k] + [[o[0], o[1][:m] + o[1][m + 1:]]] + ops[k + 1:])


def describe(case):
    return "\n".join(json.dumps(o) for o in case["ops"])
