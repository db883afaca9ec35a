"""Builds gkc variants and harnesses from /repo's current working tree.

Output goes to /verif/_build/<content key>/<variant>/ (git-ignored).  The key is a
hash of every source file under /repo that takes part in a build, so a change in
/repo always leads to a fresh build and an unchanged tree reuses the old one.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
DIRS = ["Db", "Reasoner", "Parser", "Builtparser", "Printer", "Main", "json", "cjson", "Test", "Share"]
EXT = (".c", ".h", ".y", ".l", ".cpp", ".hpp")


class BuildError(Exception):
    pass


def source_files():
    out = []
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d)
        if d.startswith(".") or d in ("_build", "html", "Doc", "Examples", "bin"):
            continue
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(EXT):
                        out.append(os.path.join(root, f))
        elif d.endswith(EXT) or d == "compile.sh":
            out.append(p)
    return out


_key = None


def tree_key():
    global _key
    if _key is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
        _key = h.hexdigest()[:16]
    return _key


def compile_list():
    """The project's own source list: the one in compile.sh."""
    src = []
    with open(os.path.join(REPO, "compile.sh")) as fh:
        for line in fh:
            if line.startswith("#"):
                continue
            src += re.findall(r"[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c", line)
    return sorted(set(src))


def run(cmd, cwd=REPO):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


# Only for speed (and more hash collisions): a run walks all of these mostly empty tables at its end.
SMALL_TABLES = [("Reasoner/glb.h", r"(#define\s+NROF_(?:CLTERM|ACTIVE_UNIT|ATOM_OCCURRENCES)_HASHVEC_ELS\s+)1000000\b", r"\g<1>10007")]


# Sanitizers mark every byte of a new block: these are megabytes that small runs never touch.
SMALLASAN_TABLES = [("Reasoner/glb.h", r"(#define\s+NROF_DYNALLOCINITIAL_ELS\s+)10000000\b", r"\g<1>200000"),
                    ("Reasoner/glb.h", r"(#define\s+NROF_(?:QUEUE|HYPER|ACTIVE|GIVEN|DERIVED|SIMPLIFIED)_TERMBUF_ELS\s+\d*?)(?:0{2})\b", r"\g<1>")]


def source_root(variant, bdir):
    """/repo itself, or for the "small" variants a copy with smaller hash tables."""
    if not variant.startswith("small"):
        return REPO
    root = os.path.join(bdir, "src")
    if not os.path.exists(os.path.join(root, ".ok")):
        shutil.rmtree(root, ignore_errors=True)
        for f in source_files():
            if f.endswith((".c", ".h", ".y", ".l")):
                d = os.path.join(root, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(f, d)
        for f, pat, rep in SMALL_TABLES + (SMALLASAN_TABLES if variant in ("smallasan", "smallkb") else []):
            p = os.path.join(root, f)
            if os.path.exists(p):
                t = open(p, errors="surrogateescape").read()
                with open(p, "w", errors="surrogateescape") as fh:
                    fh.write(re.sub(pat, rep, t))
        open(os.path.join(root, ".ok"), "w").close()
    return root


VARIANTS = {
    # name: (compiler, cflags, ldflags)
    "plain": ("gcc", ["-O2", "-w"], ["-static"]),
    "small": ("gcc", ["-O2", "-w"], ["-static"]),
    "smallkb": ("gcc", ["-O2", "-w"], ["-static"]),
    "asan": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer",
                        "-fsanitize=address,bounds,float-cast-overflow,integer-divide-by-zero,null,return,vla-bound",
                        "-fno-sanitize-recover=all"],
             ["-fsanitize=address,bounds,float-cast-overflow,integer-divide-by-zero,null,return,vla-bound"]),
    "smallasan": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer",
                        "-fsanitize=address,bounds,float-cast-overflow,integer-divide-by-zero,null,return,vla-bound",
                        "-fno-sanitize-recover=all"],
             ["-fsanitize=address,bounds,float-cast-overflow,integer-divide-by-zero,null,return,vla-bound"]),
    "fuzz": ("clang", ["-O1", "-g", "-w", "-fno-omit-frame-pointer",
                        "-fsanitize=fuzzer-no-link,address,bounds,null",
                        "-fno-sanitize-recover=all"],
             ["-fsanitize=fuzzer,address,bounds,null"]),
}


def _objs(variant, sources, bdir, extra=()):
    cc, cflags, _ = VARIANTS[variant]
    root = source_root(variant, bdir)
    jobs = []
    objs = []
    for s in sources:
        sp = s if os.path.isabs(s) else os.path.join(root, s)
        name = os.path.relpath(sp, root if sp.startswith(root) else "/").replace("/", "__")
        o = os.path.join(bdir, name[:-2] + ".o")
        objs.append(o)
        if os.path.exists(o) and os.path.exists(o + ".ok"):
            continue
        jobs.append([cc] + cflags + list(extra) + ["-c", "-o", o, sp])
    # big files first
    jobs.sort(key=lambda c: -os.path.getsize(c[-1]))

    def one(c):
        run(c)
        open(c[-2] + ".ok", "w").close()
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))
    return objs


def bison_gen(bdir):
    """Generates the bison/flex parser sources (the makefile's USEBISON=true variant)."""
    gen = os.path.join(bdir, "gen")
    os.makedirs(gen, exist_ok=True)
    out = []
    for b in ("otter", "prolog"):
        tab = os.path.join(gen, "db%s.tab.c" % b)
        lex = os.path.join(gen, "db%s.yy.c" % b)
        run(["bison", "-Wnone", "-pwg_yy" + b, "-d", "Parser/db%s.y" % b, "-o", tab])
        run(["flex", "-Pwg_yy" + b, "-o" + lex, "Parser/db%s.l" % b])
        out += [tab, lex]
    return gen, out


def build(variant="plain", parser="builtin", kind="gkc", harness=None, extra_cflags=(), extra_ld=()):
    """Returns the path of the built binary.

    kind "gkc": the command line tool.  kind "harness": link harness (a path under
    /verif/harness) with all the library objects.
    """
    name = {"gkc": "gkc", "harness": os.path.splitext(os.path.basename(harness))[0] if harness else ""}[kind]
    bdir = os.path.join(BUILD, tree_key(), variant + "-" + parser)
    os.makedirs(bdir, exist_ok=True)
    hkey = ""
    if harness:
        h = hashlib.sha256()
        hd = os.path.dirname(harness)
        for f in sorted(os.listdir(hd)):
            if f.endswith((".c", ".h", ".cpp")):
                h.update(open(os.path.join(hd, f), "rb").read())
        h.update(repr((extra_cflags, extra_ld)).encode())
        hkey = "-" + h.hexdigest()[:10]
    out = os.path.join(bdir, name + hkey)
    lockf = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        cc, cflags, ldflags = VARIANTS[variant]
        src = compile_list()
        extra = []
        if parser == "bison":
            gen, gsrc = bison_gen(bdir)
            src = [s for s in src if not s.startswith("Builtparser/")]
            src += ["Parser/dbparse.c", "Parser/dbclausify.c", "Parser/jsparse.c"] + gsrc
            extra = ["-iquote", gen, "-iquote", os.path.join(REPO, "Parser")]
        if kind == "gkc":
            objs = _objs(variant, src, bdir, extra)
            run([cc] + ldflags + ["-o", out + ".tmp"] + objs + ["-lm"])
        else:
            lib = [s for s in src if s != "Main/gkc.c"]
            objs = _objs(variant, lib, bdir, extra)
            ho = out + ".o"
            hc = harness
            cxx = hc.endswith(".cpp")
            run([cc + ("++" if cxx and cc == "clang" else "") if not (cxx and cc == "gcc") else "g++"]
                + cflags + ["-iquote", REPO, "-I", REPO] + list(extra_cflags) + ["-c", "-o", ho, hc])
            ld = [f for f in ldflags if f != "-static"]
            run([("clang++" if cc == "clang" else "g++") if cxx else cc] + ld + ["-o", out + ".tmp", ho] + objs
                + list(extra_ld) + ["-lm"])
        os.rename(out + ".tmp", out)
        prune()
        return out
    finally:
        lockf.close()


def prune(keep=6):
    """Keeps disk use bounded while developing: drops the oldest builds."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{16}", d)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    for v, p in (("plain", "builtin"), ("plain", "bison"), ("asan", "builtin")):
        t = time.time()
        print(build(v, p), round(time.time() - t, 1))
