"""Values, comparison and records of the database as plain Python, and the runner of operation scripts (harness/dbops.c).

A value is ("n",) ("i",n) ("d",x) ("f",ten-thousandths) ("c",n) ("D",n) ("T",n) ("v",n) ("r",handle) ("a",bytes)
("s",bytes,lang) ("u",bytes,prefix) ("x",bytes,type) ("b",bytes,type); the last part of the latter four may be None."""
import functools, os
from vlib import build, gkc

CODE = {"n": 1, "r": 2, "i": 3, "d": 4, "s": 5, "x": 6, "u": 7, "b": 8, "c": 9, "f": 10, "D": 11, "T": 12, "a": 13, "v": 14}
DEPTH = 7
HARNESS = os.path.join(build.VERIF, "harness", "dbops.c")


def hx(b):
    return "-" if b is None else "." if b == b"" else b.hex()


def script(v):
    k = v[0]
    if k == "n":
        return "n"
    if k == "d":
        return "d " + float(v[1]).hex()
    if k == "f":
        return "f %.4f" % (v[1] / 10000)
    if k == "a":
        return "a " + hx(v[1])
    if k in "suxb":
        return "%s %s %s" % (k, hx(v[1]), hx(v[2]))
    return "%s %d" % (k, v[1])


def hexc(x):
    """C's %a."""
    if x == 0 or x != x or x in (float("inf"), float("-inf")):
        return {"0.0": "0x0p+0", "-0.0": "-0x0p+0"}.get(repr(x), repr(x))
    s = float(x).hex()
    m, e = s.split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e


def big(b):
    if len(b) <= 200:
        return hx(b)
    h = 5381
    for c in b:
        h = (h * 33 + c) & (2 ** 64 - 1)
    return "#%d:%d" % (len(b), h)


def shown(v):
    """What the harness prints for the decoded value."""
    k = v[0]
    if k == "n":
        return "n"
    if k == "d":
        return "d " + hexc(v[1])
    if k == "f":
        return "f %.4f" % (v[1] / 10000)
    if k == "a":
        return "a " + big(v[1])
    if k in "suxb":
        return "%s %s %s" % (k, big(v[1]), "-" if v[2] is None else big(v[2]))
    return "%s %d" % (k, v[1])


class Mem:
    """The records: handle -> list of values; addr: handle -> offset."""

    def __init__(self):
        self.rec, self.addr = {}, {}

    def cmp(self, a, b, depth=DEPTH):
        if a[0] != b[0]:
            return 1 if CODE[a[0]] > CODE[b[0]] else -1
        k = a[0]
        if k == "n":
            return 0
        if k == "r":
            if a[1] == b[1]:
                return 0
            if not depth:
                return 1 if self.addr[a[1]] > self.addr[b[1]] else -1
            x, y = self.rec[a[1]], self.rec[b[1]]
            if len(x) != len(y):
                return 1 if len(x) > len(y) else -1
            for p, q in zip(x, y):
                c = self.cmp(p, q, depth - 1)
                if c:
                    return c
            return 0
        if k == "u" or k == "x":
            p, q = a[2] or b"", b[2] or b""
            if p != q:
                return 1 if p > q else -1
        return (a[1] > b[1]) - (a[1] < b[1])

    def match(self, h, conds):
        f = self.rec[h]
        for col, cond, val in conds:
            if col >= len(f):
                return False
            c = self.cmp(f[col], val)
            if not {1: c == 0, 2: c != 0, 4: c < 0, 8: c > 0, 16: c <= 0, 32: c >= 0}[cond]:
                return False
        return True

    def equal(self, a, b):
        return self.cmp(a, b) == 0


@functools.lru_cache(None)
def binary(variant="asan"):
    return build.build(variant, kind="harness", harness=HARNESS)


def run(lines, timeout=60, variant="asan"):
    """The output lines and the run (whose output is standard error only)."""
    f = gkc.write("ops.txt", "\n".join(lines) + "\n")
    o = f[:-3] + "out"
    r = gkc.run(binary(variant), [f, o], timeout=timeout, asan=True)
    with open(o, errors="replace") as fh:
        out = fh.read().split("\n")
    if out and out[-1] == "":
        out.pop()
    return out, r
