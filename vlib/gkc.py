"""Running the gkc command line tool and reading what it prints."""
import json, os, re, signal, subprocess
from . import engine

ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
                UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1", LC_ALL="C")
ENV = dict(os.environ, LC_ALL="C")
for _e in (ENV, ASAN_ENV):
    _e.pop("TPTP", None)


class Res:
    __slots__ = ("rc", "out", "timeout", "cmd")

    def __init__(self, rc, out, timeout, cmd):
        self.rc, self.out, self.timeout, self.cmd = rc, out, timeout, cmd

    @property
    def crashed(self):
        return self.rc is not None and self.rc < 0

    @property
    def proof(self):
        return "result: proof found" in self.out or '"result": "proof found"' in self.out or \
            '"result": "answer found"' in self.out or "SZS status Theorem" in self.out or \
            "SZS status Unsatisfiable" in self.out or "SZS status ContradictoryAxioms" in self.out

    @property
    def noproof(self):
        return "proof not found" in self.out or "SZS status Timeout" in self.out or \
            "SZS status GaveUp" in self.out

    @property
    def time_limit(self):
        return "time limit" in self.out

    @property
    def error(self):
        return '"error":' in self.out or self.out.startswith("error:") or "\nerror:" in self.out

    def verdict(self):
        if self.timeout:
            return "hang"
        if self.crashed:
            return "crash"
        if self.proof:
            return "proof"
        if self.error:
            return "error"
        if self.noproof:
            return "noproof"
        return "none"


HOOK = None     # C10: replaces direct runs by knowledge base runs


def run(binary, args, timeout=60, stdin=None, cwd=None, asan=False, env=None, limit=4_000_000):
    if HOOK is not None:
        r = HOOK(binary, args, timeout, cwd)
        if r is not None:
            return r
    cmd = [binary] + [str(a) for a in args]
    e = ASAN_ENV if asan else ENV
    if env:
        e = dict(e, **env)
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e,
                             start_new_session=False)
    except OSError as ex:
        raise RuntimeError("cannot start %s: %s" % (cmd, ex))
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        to = True
    return Res(None if to else p.returncode, out[:limit].decode("utf-8", "replace"), to, cmd)


def write(name, text):
    p = os.path.join(engine.scratch(), name)
    with open(p, "wb" if isinstance(text, bytes) else "w") as fh:
        fh.write(text)
    return p


# ---------------------------------------------------------------- problem files

def problem_text(syntax, axioms, conjecture, names=None):
    """axioms: formulas; conjecture: formula or None."""
    from . import fol
    if syntax == "json":
        items = []
        for i, f in enumerate(axioms):
            items.append({"@name": "ax%d" % i, "@logic": fol.jform(f)})
        if conjecture is not None:
            items.append({"@name": "goal", "@role": "conjecture", "@logic": fol.jform(close(conjecture))})
        return json.dumps(items)
    if syntax == "simple":
        ls = [fol.fstr(f) + "." for f in axioms]
        if conjecture is not None:
            ls.append("~(" + fol.fstr(close(conjecture)) + ").")
        return "\n".join(ls) + "\n"
    ls = ["fof(ax%d,axiom,%s)." % (i, fol.fstr(close(f))) for i, f in enumerate(axioms)]
    if conjecture is not None:
        ls.append("fof(goal,conjecture,%s)." % fol.fstr(close(conjecture)))
    return "\n".join(ls) + "\n"


def close(f):
    from . import fol
    fv = fol.free_vars(f)
    return ["!", fv, f] if fv else f


EXT = {"json": ".js", "simple": ".txt", "tptp": ".p", "cnf": ".p"}


# ---------------------------------------------------------------- strategies

NAMES = ["negative_pref", "positive_pref", "hyper", "unit", "double", "triple", "pure_unit", "hardness_pref",
         "query_focus", "knuthbendix_pref", "prohibit_nested_para", "prohibit_unordered_para", "prohibit_deep_para",
         "posunitpara", "max_ground_weight", "max_weight", "hornpref", "posweightdoublepref", "negweightdoublepref"]


def gen_strategy(rng, limits=True, arith=True, multi=0.15, experimental=True):
    def one():
        s = {"strategy": sorted(set(rng.sample(NAMES, rng.choice([0, 1, 1, 1, 2, 2, 3, 4])))),
             "query_preference": rng.choice([0, 0, 1, 2, 3, 4])}
        if rng.random() < 0.25:
            s["equality"] = rng.choice([0, 1, 1])
        if rng.random() < 0.25:
            s["rewrite"] = rng.choice([0, 1])
        if rng.random() < 0.2:
            s["sine"] = rng.choice([0, 1, 2])
        if limits and rng.random() < 0.2:
            s[rng.choice(["max_weight", "max_size", "max_depth", "max_length"])] = rng.choice([1, 2, 3, 5, 10, 30])
        if rng.random() < 0.3:
            s[rng.choice(["given_queue_ratio", "weight_select_ratio"])] = rng.choice([1, 2, 5, 10, 100])
        if rng.random() < 0.15:
            s["reverse_clauselist"] = 1
        if rng.random() < 0.2:
            s[rng.choice(["depth_penalty", "length_penalty", "var_weight", "repeat_var_weight"])] = rng.choice([0, 1, 5, 20, 50])
        if experimental and rng.random() < 0.12:
            s[rng.choice(["instgen", "propgen"])] = 1
        if arith and rng.random() < 0.2:
            s["arith_instantiation"] = rng.choice([0, 1, 2])
        if rng.random() < 0.2:
            s["max_dseconds"] = rng.choice([1, 1, 2, 5])
        elif rng.random() < 0.03:
            s["max_seconds"] = 1
        return s
    if rng.random() < multi:
        return {"runs": [one() for _ in range(rng.randint(2, 3))]}
    return one()


# ---------------------------------------------------------------- reading proofs

STEP = re.compile(r"^\s*(\d+): \[([^\]]*)\] ?(.*)$")


class Step:
    __slots__ = ("id", "rule", "srcs", "text", "raw")

    def __init__(self, id, rule, srcs, text, raw):
        self.id, self.rule, self.srcs, self.text, self.raw = id, rule, srcs, text, raw

    def parents(self):
        out = []
        for s in self.srcs:
            m = re.match(r"(\d+)", s)
            if m:
                out.append(int(m.group(1)))
        return out


def read_text_proofs(out):
    """[(answer text or None, [Step])] from the ordinary text output."""
    res = []
    cur = None
    ans = None
    for line in out.splitlines():
        if line.startswith("answer:"):
            ans = line[len("answer:"):].strip()
            cur = None
        elif line.startswith("proof:"):
            cur = []
            res.append((ans, cur))
            ans = None
        elif cur is not None:
            m = STEP.match(line)
            if m:
                parts = [x.strip() for x in m.group(2).split(",")]
                t = m.group(3).strip()
                cur.append(Step(int(m.group(1)), parts[0], parts[1:], t, line))
            elif line.strip() == "" or line.startswith("result:"):
                cur = None
            else:
                cur.append(Step(-1, "?", [], line, line))
    return res
