"""seed.py ID... [--no-tests] [--no-check] [--prop Cxx] [--seed N]: validates planted bugs in a scratch copy.

For each /verif/seeded/ID: copies /repo to /tmp/sc-ID, shows it as /repo in a private mount namespace, and there
runs demo.sh on the unchanged tree, applies patch.diff, builds, runs the stable tests, demo.sh and the property's
check.  Results go to /tmp/seed-ID.json and one line on stdout.
"""
import json, os, subprocess, sys, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, to=900):
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def inner(i, flags):
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    demo = "/tmp/demo-" + i
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(demo + "/" + f)
    res = {"id": i, "property": meta["property"]}
    if "--check-only" not in flags:
        res["demo_clean"] = sh("bash %s/demo.sh" % demo, 300)
    rc, out = sh("git apply %s/patch.diff" % d)
    res["apply"] = (rc, out)
    if rc == 0:
        rc, out = sh("bash /opt/vp/build.sh")
        res["build"] = (rc, out[-300:] if rc else "")
        if "--check-only" not in flags:
            rc, out = sh("bash %s/demo.sh" % demo, 300)
            res["demo_bug"] = (rc, out[-600:])
        if "--no-tests" not in flags and "--check-only" not in flags:
            sh("bash /opt/vp/test.sh /tmp/seedout-%s.json" % i)
            b = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open("/tmp/seedout-%s.json" % i))
            res["stable_missing"] = [t for t in b["stable"] if t not in set(o["passed"])]
        if "--no-check" not in flags:
            props = [f[7:] for f in flags if f.startswith("--prop=")] or [meta["property"]]
            seed = ([f[7:] for f in flags if f.startswith("--seed=")] or ["1"])[0]
            res["checks"] = {}
            for p in props:
                rc, out = sh("cd %s && VERIF_SEED=%s python3 run.py %s --seed %s" % (V, seed, p, seed))
                ls = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                tail = out.strip().splitlines()[-1][:200] if out.strip() else ""
                res["checks"][p] = (rc, (ls or [""])[0], tail)
    shutil.rmtree(demo, ignore_errors=True)
    json.dump(res, open("/tmp/seed-%s.json" % i, "w"), indent=1)


def main():
    a = sys.argv[1:]
    if a[0] == "--inner":
        return inner(a[1], a[2:])
    flags = [x for x in a if x.startswith("--")]
    for i in [x for x in a if not x.startswith("--")]:
        sc = "/tmp/sc-" + i
        shutil.rmtree(sc, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", sc], check=True)
        subprocess.run(["unshare", "-m", "bash", "-c", 'mount --make-rprivate / 2>/dev/null; mount --bind "$0" /repo && cd /repo && exec python3 "$@"', sc,
                        os.path.abspath(__file__), "--inner", i] + flags)
        shutil.rmtree(sc, ignore_errors=True)
        r = json.load(open("/tmp/seed-%s.json" % i))
        print(i, r["property"], "clean=%s" % r.get("demo_clean", ["-"])[0], "apply=%s" % r["apply"][0], "build=%s" % r.get("build", ["-"])[0],
              "bug=%s" % r.get("demo_bug", ["-"])[0], "missing=%s" % r.get("stable_missing"),
              " ".join("%s:%s %s" % (p, "CAUGHT" if c[0] == 1 and c[1] else "MISSED(rc %d)" % c[0], c[2]) for p, c in r.get("checks", {}).items()), flush=True)


main()
