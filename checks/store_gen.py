"""Values and histories for the binary store (I01, I02, I03)."""
from vf.core import *
import struct
DRV = Driver("store", "store.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)
SIZES = {"int": 4, "size": 8, "dbl": 8, "flt": 4, "chr": 1, "uch": 1, "sht": 2, "ush": 2, "uin": 4, "lng": 8}
VSIZES = {"vi": 4, "vd": 8, "vf": 4, "vz": 16, "vzf": 8, "vc": 1, "vs": 8, "vuc": 1, "vl": 8}
PLAIN = list(SIZES) + ["bool", "enum", "enumc", "vb"]
GROUPED = ["pair", "psb", "vv", "vvz", "vvi", "vvb", "vm", "m", "mz", "mf"]
ONCE = ["str", "vp", "pm", "st", "ve"]
ALL = PLAIN + list(VSIZES) + GROUPED + ONCE


def fl(rng, n):
    """the bytes of a floating-point number: any finite or infinite value"""
    f = {8: "<d", 4: "<f"}[n]
    w = rng.random()
    x = (rng.choice([0.0, -0.0, 1.0, float("inf"), -float("inf"), 5e-324 if n == 8 else 1e-45, 1.7e308 if n == 8 else 3e38]) if w < .3
         else rng.gauss(0, 1) * 10.0 ** rng.randint(-20, 20))
    return list(struct.pack(f, x))


def raw(rng, n):
    return [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(n)] if rng.random() < .7 else [rng.choice([0, 1, 255])] * n


def elem(rng, k):
    if k in ("dbl", "vd"):
        return fl(rng, 8)
    if k in ("flt", "vf"):
        return fl(rng, 4)
    if k == "vz":
        return fl(rng, 8) + fl(rng, 8)
    if k == "vzf":
        return fl(rng, 4) + fl(rng, 4)
    return raw(rng, SIZES.get(k) or VSIZES.get(k))


def enumv(rng):
    return list(struct.pack("<i", rng.choice([0, 1, 2, 255, 256, 70000])))


def mat(rng, k, lo=0, hi=3):
    r, c = rng.randint(lo, hi), rng.randint(lo, hi)
    n = r * c
    return [r, c] + sum((elem(rng, {"m": "vd", "mz": "vz", "mf": "vf"}[k]) for _ in range(n)), [])


def value(rng, k, n=None, some=False):
    """bytes of a random value of kind k; n is the length wanted of a list; some: not one that cannot be read back"""
    if n is None:
        n = rng.choice([1, 2, 3, rng.randint(0, 12)])
    if k in SIZES:
        return [elem(rng, k)]
    if k == "bool":
        return [[rng.randint(0, 1)]]
    if k in ("enum", "enumc"):
        return [enumv(rng)]
    if k in ("vb",):
        return [[rng.randint(0, 1)] for _ in range(n)]
    if k in VSIZES:
        return [elem(rng, k) for _ in range(n)]
    if k == "str":
        return [[rng.randint(1, 255)] for _ in range(n)]
    if k == "pair":
        return [raw(rng, 4), fl(rng, 8)]
    if k == "psb":
        return [raw(rng, 8), [rng.randint(0, 1)]]
    if k in ("vv", "vvz", "vvi"):
        e = {"vv": "vd", "vvz": "vz", "vvi": "vi"}[k]
        return [sum((elem(rng, e) for _ in range(rng.randint(0 if rng.random() < .15 and not some else 1, 4))), []) for _ in range(n if n > 12 else min(n, 6))]
    if k == "vvb":
        return [[rng.randint(0, 1) for _ in range(rng.randint(0, 20))] for _ in range(n if n > 12 else min(n, 6))]
    if k in ("m", "mz", "mf"):
        return [mat(rng, k)]
    if k in ("vm", "st"):
        return [mat(rng, "m") for _ in range(n if n > 12 else min(n, 4))]
    if k == "vp":
        return [raw(rng, 4) + fl(rng, 8) for _ in range(n)]
    if k == "pm":
        return [raw(rng, 4), mat(rng, "m")]
    if k == "ve":
        return [enumv(rng) for _ in range(n)]
    raise Error(k)


def pre(rng, k):
    return value(rng, k, rng.randint(0, 4), True) if k != "st" else []


def put(p, k, a, mode, how=0):
    return {"e": "put", "p": [Tag(x) for x in p], "k": Tag(k), "a": a, "mode": mode, "how": how}


def read(rng, p, k):
    return {"e": "read", "p": [Tag(x) for x in p], "k": Tag(k), "pre": pre(rng, k)}


def mark(rng):
    """a byte that does not stand for a finished file, neither of the two that stand for other damage"""
    return rng.choice([0, 3, 7, 169, 171, 255, 85, 138, rng.randint(3, 169), rng.randint(171, 255)])


WHOLE = ["vi", "vc", "vs", "vuc", "vl"]


def clash(rng, k):
    """a kind of vector of another sort of numbers than k"""
    if k in WHOLE + ["str"]:
        return rng.choice(["vd", "vf", "vz", "vzf"])
    if k in ("vd", "vf"):
        return rng.choice(WHOLE)
    if k in ("vz", "vzf"):
        return rng.choice(WHOLE + ["vd", "vf"])


def safe(ks):
    """the kinds to read a name as where these were written: a vector of booleans is not unpacked from other numbers"""
    one = [k for k in ks if k in PLAIN or k in VSIZES or k == "str"]
    return [k for k in ks if k != "vb" or one == [k]]


class Session:
    """a history that the library's user could make: operations only when a handle is open"""
    PATHS = [("a",), ("b",), ("abc",), ("g", "x"), ("g", "y"), ("h", "x")]

    def __init__(self, rng, kinds, fork=0):
        self.rng, self.kinds, self.fork = rng, kinds, fork
        self.ops = [{"e": "S", "fork": fork}]
        self.st = {"f0": "none", "f1": "none"}
        self.h = None  # (file, w)
        self.synced = False
        self.wrote = {}  # (file, path) -> kinds written
        self.gk = {}     # path -> its grouped kind
        self.ents = {}
        self.listed = set()  # (file, path) that a growing list may hold
        self.closed = False

    def emit(self, e, **kw):
        self.ops.append({"e": e, **kw})

    def open(self, f=None, mode=None):
        rng = self.rng
        f = f or rng.choice(["f0", "f0", "f1"])
        st = self.st[f]
        mode = mode or rng.choice(["trunc", "excl", "rdw", "rdw", "read"])
        if st in ("bad", "torn") and mode in ("rdw", "excl"):
            mode = "read"
        via = rng.randrange(2)
        if mode == "read" and not self.fork and rng.random() < .15 and st == "ok":
            via = 2
        self.emit("open", f=Tag(f), mode=Tag(mode), via=via)
        ok = {"trunc": True, "excl": st == "none", "rdw": st == "ok", "read": st in ("ok", "torn")}[mode]
        if ok:
            self.h = (f, mode != "read")
            self.synced = mode in ("rdw", "read")
            self.out2 = via == 2
            if mode in ("trunc", "excl"):
                for q in [q for q in self.wrote if q[0] == f]:
                    del self.wrote[q]
                for q in [q for q in self.ents if q[0] == f]:
                    del self.ents[q]

    def close(self):
        f, w = self.h
        self.emit("close", how=self.rng.randrange(2))
        if w:
            self.st[f] = "ok"
        self.h = None

    def kill(self):
        f, w = self.h
        self.emit("kill", how=int(self.rng.random() < .3))
        if w:
            self.st[f] = "torn" if self.synced else "bad"
        self.h = None

    def one(self):
        rng = self.rng
        if not self.h:
            if rng.random() < .05 and not self.fork:
                f = rng.choice(["f0", "f1"])
                if self.st[f] == "ok":
                    self.emit("tamper", f=Tag(f), how=rng.choice([1, 2, mark(rng)]))
                    self.st[f] = "bad"
            if rng.random() < .1:
                f = rng.choice(["f0", "f1"])
                self.emit("remove", f=Tag(f))
                self.st[f] = "none"
            self.open()
            return
        f, w = self.h
        p = rng.choice(self.PATHS)
        x = rng.random()
        if x < .06:
            self.close()
        elif x < .1 and w:
            self.emit("flush")
            self.synced = True
        elif x < .14 and self.fork and w:
            self.kill()
        elif x < .2:
            self.emit("group" if w and rng.random() < .7 else "hasgroup", p=[Tag(rng.choice(["g", "g", "h", "a"]))])
        elif x < .27 and not getattr(self, "out2", False):
            p = rng.choice([("l",), ("g", "l"), ("b",)])
            if w:
                n = self.ents.get((f, p), 0)
                if p == ("b",):
                    n = 0
                self.emit("ent", p=[Tag(q) for q in p], a=value(rng, "vd", rng.randint(1, 3)), n=n)
                self.listed.add((f, p))
                if p == ("l",):
                    self.ents[(f, p)] = n + 1
            else:
                self.emit("lastent", p=[Tag(q) for q in p])
        elif x < .65 and w:
            k = rng.choice(self.kinds)
            grouped = k in GROUPED or (k in ONCE and k != "str")
            if grouped:
                k = self.gk.setdefault(p, k)
            mode = int(rng.random() < .5)
            if p == ("b",) and mode == 1 and grouped:
                mode = 0
            if k in ("m", "vm") and rng.random() < .3:
                self.emit("over", p=[Tag(q) for q in p], k=Tag(k), a=value(rng, k), _g=1)
                # only for names that hold this kind
                if k not in self.wrote.get((f, p), []) or self.wrote[(f, p)][-1] != k or len(self.wrote[(f, p)]) != 1 or (f, p) in self.listed:
                    self.ops.pop()
                return
            self.ops.append(put(p, k, value(rng, k), mode, rng.randrange(2)))
            self.wrote.setdefault((f, p), [])
            if k not in self.wrote[(f, p)]:
                self.wrote[(f, p)].append(k)
        else:
            ks = self.wrote.get((f, p), ["int"])
            for k in safe(ks):
                self.ops.append(read(rng, p, k))
            if ks == ["vd"] or ks == ["vf"]:
                self.ops.append(read(rng, p, {"vd": "vz", "vf": "vzf"}[ks[0]]))
            if rng.random() < .2:
                self.ops.append(read(rng, p, rng.choice([k for k in PLAIN if k != "vb"])))
            if len(ks) == 1 and clash(rng, ks[0]) and rng.random() < .5:
                self.ops.append(read(rng, p, clash(rng, ks[0])))

    def readall(self):
        """all names of both files at the end"""
        if self.h:
            if self.fork and self.rng.random() < .5 and self.h[1]:
                self.kill()
            else:
                self.close()
        if self.fork:
            self.emit("kill", how=0) if False else None
        for f in ("f0", "f1"):
            self.open(f, "read")
            if self.h:
                for (g, p), ks in sorted(self.wrote.items()):
                    if g == f:
                        for k in safe(ks):
                            self.ops.append(read(self.rng, p, k))
                for p in (("l",), ("g", "l")):
                    if not self.out2:
                        self.emit("lastent", p=[Tag(q) for q in p])
                self.close()
        return self.ops


def settle(ops):
    """leaves out reading, from a file whose writer died, names that were being written after its last flush:
    what they hold is not specified"""
    res, h, dirty, torn = [], None, set(), {}
    for o in ops:
        e = o["e"]
        if e == "open":
            h, w = str(o["f"]), o["mode"] != "read"
            if w:
                dirty = set()
                if o["mode"] in ("trunc",):
                    torn.pop(h, None)
        elif e == "flush":
            dirty = set()
        elif e in ("put", "over", "group", "ent"):
            dirty.add(tuple(map(str, o["p"])))
        elif e == "kill" and h:
            torn[h] = set(dirty)
        elif e in ("read", "lastent", "hasgroup"):
            p = tuple(map(str, o["p"]))
            if h in torn and any(p[:len(q)] == q or q[:len(p)] == p for q in torn[h]):
                continue
        res.append(o)
    return res
