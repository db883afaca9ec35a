"""The driver every check shares.

A check module defines

  PROP, LEVEL, RULE, ASSUMPTIONS
  prepare(tier) -> env           build what is needed from /repo (called once)
  plan(tier)    -> [(kind, n)]   how many cases of which kind
  gen(kind, rng, i, tier) -> case    a JSON-serialisable case
  run(case, env) -> Outcome      executes the real code, compares with the oracle
  shrinks(case) -> iterable of smaller cases (optional)

Everything random comes from VERIF_SEED through random.Random(f"{seed}:{prop}:{kind}:{i}").
A violation is shrunk, replayed three times, and only then reported.
"""
import argparse, hashlib, json, multiprocessing, os, random, re, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Outcome:
    """status: ok | viol | skip (case could not be judged: counted, never a verdict)."""
    __slots__ = ("status", "nontrivial", "key", "labels", "msg", "sample", "evals")

    def __init__(self, status="ok", nontrivial=False, key=None, labels=(), msg="", sample=None, evals=1):
        self.status, self.nontrivial, self.key = status, nontrivial, key
        self.labels, self.msg, self.sample, self.evals = labels, msg, sample, evals


def _short(sample, limit=5000):
    """A sample for the evidence file: long cases as the beginning of their text."""
    t = json.dumps(sample["case"])
    return sample if len(t) <= limit else {"kind": sample["kind"], "case_beginning": t[:limit], "case_length": len(t)}


def ok(nontrivial=True, key=None, labels=(), sample=None, evals=1):
    return Outcome("ok", nontrivial, key, labels, "", sample, evals)


def viol(msg, labels=(), sample=None, key=None):
    return Outcome("viol", True, key, labels, msg, sample)


def skip(msg="", labels=()):
    return Outcome("skip", False, None, labels, msg)


_ctx = {}


def scratch():
    """A private scratch directory of this process, inside the run's own."""
    d = os.path.join(_ctx["scratch"], "w%d" % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
    return d


def _work(job):
    kind, i = job
    mod, seed, tier = _ctx["mod"], _ctx["seed"], _ctx["tier"]
    rng = random.Random("%d:%s:%s:%d" % (seed, mod.PROP, kind, i))
    try:
        case = mod.gen(kind, rng, i, tier)
        if case is None:
            return (kind, i, None, skip("generator gave up", ["gen-discard"]))
        out = mod.run(case, _ctx["env"])
    except Exception:
        return (kind, i, None, Outcome("error", msg=traceback.format_exc()))
    if out.status != "viol":
        case_out = out.sample if out.sample is not None else (case if out.nontrivial and i < 3 else None)
        return (kind, i, case_out, out)
    return (kind, i, case, out)


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def load_known(prop):
    try:
        with open(KNOWN) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k.get("property") == prop and k.get("status") == "known"]


def shrink(mod, env, case, out, budget_s=60, budget_n=600):
    if not hasattr(mod, "shrinks"):
        return case, out
    t0, n = time.time(), 0
    progress = True
    while progress and time.time() - t0 < budget_s and n < budget_n:
        progress = False
        for c in mod.shrinks(case):
            n += 1
            if time.time() - t0 > budget_s or n > budget_n:
                break
            try:
                o = mod.run(c, env)
            except Exception:
                continue
            if o.status == "viol" and same_class(o, out):
                case, out, progress = c, o, True
                break
    return case, out


def same_class(a, b):
    """A smaller case must fail in the same way (the text before the first ':')."""
    return a.msg.split(":")[0] == b.msg.split(":")[0]


def write_replay(mod, case, out, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(case).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (mod.PROP, h))
    with open(p, "w") as fh:
        json.dump({"property": mod.PROP, "case": case, "message": out.msg, "seed": seed, "tier": tier,
                   "how": "python3 /verif/run.py %s --replay %s" % (mod.PROP, p)}, fh, indent=1)
    return p


def main(mod, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0, help="development: scale the case counts")
    ap.add_argument("--kind", help="development: only this kind")
    ap.add_argument("--keep-going", action="store_true", help="development: list all violations")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    sdir = tempfile.mkdtemp(prefix="gkcverif-%s-" % mod.PROP, dir=base)
    try:
        return _main(mod, a, t0, sdir)
    finally:
        if hasattr(mod, "cleanup"):
            try:
                mod.cleanup()
            except Exception:
                traceback.print_exc()
        shutil.rmtree(sdir, ignore_errors=True)


def _main(mod, a, t0, sdir):
    _ctx.update(mod=mod, seed=a.seed, tier=a.tier, scratch=sdir)
    try:
        env = mod.prepare(a.tier)
    except Exception as e:
        traceback.print_exc()
        print("ERROR: could not build: %s" % e)
        return 2
    _ctx["env"] = env

    if a.replay:
        with open(a.replay) as fh:
            case = json.load(fh)["case"]
        out = mod.run(case, env)
        print(out.status, out.msg)
        if out.status == "viol":
            print("VIOLATION property=%s replay=%s" % (mod.PROP, a.replay))
            return 1
        return 0

    known = load_known(mod.PROP)
    jobs = []
    for kind, n in mod.plan(a.tier):
        if a.kind and kind != a.kind:
            continue
        jobs += [(kind, i) for i in range(max(1, int(n * a.scale)))]
    # interleave kinds, so that an early stop has sampled them all
    random.Random(a.seed).shuffle(jobs)
    procs = a.procs or getattr(mod, "PROCS", 0) or min(16, os.cpu_count() or 4)
    ctx = multiprocessing.get_context("fork")
    evals = 0
    keys = set()
    labels, kinds = {}, {}
    samples, errors, viols, skips = [], [], [], 0
    max_viol = 400 if a.keep_going else getattr(mod, "STOP_AFTER", 40)
    known_hits = {}
    stopped = False
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        for kind, i, case, out in pool.imap_unordered(_work, jobs, chunksize=getattr(mod, "CHUNK", 4)):
            if out.status == "error":
                errors.append((kind, i, out.msg))
                if len(errors) > 20:
                    pool.terminate()
                    break
                continue
            evals += out.evals
            kk = kinds.setdefault(kind, [0, 0, 0])
            kk[0] += 1
            for l in out.labels:
                labels[l] = labels.get(l, 0) + 1
            if out.status == "skip":
                skips += 1
                kk[2] += 1
                if out.msg:
                    labels["skip:" + out.msg[:60]] = labels.get("skip:" + out.msg[:60], 0) + 1
                continue
            if out.nontrivial:
                k = out.key if out.key is not None else "%s:%d" % (kind, i)
                h = hashlib.md5(k.encode() if isinstance(k, str) else canon(k).encode()).digest()
                if h not in keys:
                    keys.add(h)
                    kk[1] += 1
                if out.status == "ok" and case is not None and sum(1 for s in samples if s["kind"] == kind) < 2:
                    samples.append({"kind": kind, "case": case})
            if out.status == "viol":
                kf = match_known(mod, known, case, out)
                if kf:
                    known_hits[kf["id"]] = known_hits.get(kf["id"], 0) + 1
                    continue
                viols.append((kind, i, case, out))
                if len(viols) >= max_viol:
                    stopped = True
                    pool.terminate()
                    break
    reported = []
    unstable = []
    if errors:
        for kind, i, m in errors[:2]:
            print("HARNESS ERROR in %s/%d:\n%s" % (kind, i, m[-1500:]))
    # smallest first: the cheapest to shrink, and the clearest to read
    viols.sort(key=lambda v: len(canon(v[2])))
    seen_classes = set()
    for kind, i, case, out in viols:
        cls = out.msg.split(":")[0]
        if cls in seen_classes and not a.keep_going:
            continue
        if len(reported) >= (12 if a.keep_going else 2):
            break
        replays = getattr(mod, "REPLAYS", 3)
        need = getattr(mod, "REPLAYS_NEEDED", replays)
        good, outs = 0, []
        for _ in range(replays):
            try:
                o = mod.run(case, env)
            except Exception:
                o = skip("exception")
            outs.append(o)
            good += o.status == "viol"
        if good < need:
            unstable.append((kind, i, out.msg, good))
            continue
        scase, sout = shrink(mod, env, case, out, 10 if a.keep_going else 40)
        # a shrunk case that fails only now and then is not a reproduction
        if scase is not case:
            g2 = sum(mod.run(scase, env).status == "viol" for _ in range(replays))
            if g2 < need:
                scase, sout = case, out
        kf = match_known(mod, known, scase, sout)
        if kf:
            known_hits[kf["id"]] = known_hits.get(kf["id"], 0) + 1
            continue
        seen_classes.add(cls)
        p = write_replay(mod, scase, sout, a.seed, a.tier)
        reported.append((p, sout))
        print("VIOLATION property=%s replay=%s" % (mod.PROP, p))
        print("  kind=%s index=%d: %s" % (kind, i, sout.msg[:1500]))
        if hasattr(mod, "describe"):
            print(mod.describe(scase)[:3000])
    # listed findings are excluded from generation by construction; their own inputs are run here
    for k in known:
        if "case" in k:
            try:
                o = mod.run(k["case"], env)
            except Exception as e:
                o = skip(str(e))
            if o.status == "viol":
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
        if known_hits.get(k["id"]):
            print("KNOWN-FINDING: property=%s %s: %s" % (mod.PROP, k["id"], k["what"]))
    for u in unstable[:5]:
        print("note: not reproducible, not reported: %s/%d (%d replays failed) %s" % (u[0], u[1], u[3], u[2][:300]))
    wall = time.time() - t0
    ev = {
        "property": mod.PROP, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": [_short(x) for x in samples[:12]] or [{"kind": "none", "case": "no non-trivial case"}],
            "cases_by_kind": {k: {"run": v[0], "distinct_nontrivial": v[1], "not_judged": v[2]} for k, v in sorted(kinds.items())},
            "labels": dict(sorted(labels.items())),
            "not_judged": skips,
            "not_reproducible": len(unstable),
            "known_finding_hits": known_hits,
            "stopped_early": stopped,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if hasattr(mod, "extra_evidence"):
        ev["coverage"].update(mod.extra_evidence())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", mod.PROP + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, tmp[:-4])
    print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d not judged, %d violation(s), %.1f s"
          % (mod.PROP, a.tier, a.seed, evals, len(keys), skips, len(reported), wall))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["cases_by_kind"], indent=0))
        print(json.dumps(ev["coverage"]["labels"], indent=0))
    if reported:
        return 1
    if errors:
        print("ERROR: %d harness errors" % len(errors))
        return 2
    if not keys and not a.kind:
        print("ERROR: no non-trivial case was evaluated")
        return 2
    return 0


def match_known(mod, known, case, out):
    for k in known:
        if "case" in k and canon(k["case"]) == canon(case):
            return k
        if "match" in k and hasattr(mod, "known_match") and mod.known_match(k["match"], case, out):
            return k
    return None
